#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
                  "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A variation operator that changed an individual always says so",
 "Whenever a mutation or crossover operator alters a genotype handed to it, its boolean result is true; it never answers 'unchanged' on an execution in which the genotype was written, unless the operator itself evaluated the individual again after the change. This holds for every random draw, every genotype size and every composition of operators.",
 ["inputs", "histories"], "all genotypes, sizes, random draws and operator compositions",
 "A wrong answer needs a particular random draw (e.g. no flip on the last locus); tests use a few seeds and look at genotypes, never at the returned flag together with the write.",
 ["eo/src/eoOp.h", "eo/src/ga/eoBitOp.h", "eo/src/ga/eoStandardBitMutation.h", "eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoSBXcross.h", "eo/src/eoProportionalCombinedOp.h", "eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoTwoOptMutation.h", "eo/src/eoOrderXover.h", "eo/src/eoPartiallyMappedXover.h", "eo/src/eoVariableLengthMutation.h", "eo/src/eoVariableLengthCrossover.h", "eo/src/eoFlOrMonOp.h"],
 [("the returned flag of every unary/binary/quadratic operator", "eo/src/eoOp.h"), ("accumulated 'has changed' flags", "eo/src/ga/eoBitOp.h")],
 observe=["return value of a mutation/crossover functor compared with the before/after genotype"])

prop("C02", "Changed individuals lose their stored fitness before anyone can use it",
 "When a breeder, transformation, generic operator, perturbation, diversification, flight or initialiser changes an individual, the individual's stored fitness is invalidated (or replaced by an evaluation made after the change) before the individual is handed back. A caller can therefore never read a fitness computed for an earlier genotype.",
 ["inputs", "histories"], "all random draws, operator outcomes and sequences of generations",
 "A stale fitness is silently plausible: tests would need to compare stored and recomputed fitness of every individual after each operator under every random outcome.",
 ["eo/src/eoInvalidateOps.h", "eo/src/eoGenOp.h", "eo/src/eoSGATransform.h", "eo/src/eoFastGA.h", "eo/src/eoInit.h", "eo/src/eoFlight.h", "eo/src/eoStandardFlight.h", "mo/src/perturb/moMonOpPerturb.h", "mo/src/perturb/moRestartPerturb.h", "mo/src/memory/moMonOpDiversification.h", "eo/src/eoOpContainer.h"],
 [("invalidation after an operator reports a change", "eo/src/eoInvalidateOps.h"), ("generic operator wrappers", "eo/src/eoGenOp.h"), ("initialisers invalidate", "eo/src/eoInit.h")],
 state=[("invalid-fitness flag", "whether the stored fitness belongs to the present genotype", "eo/src/EO.h")],
 observe=["validity flag of every individual leaving a breeder/transform/perturbation"])

prop("C03", "Offspring are evaluated before they compete, are archived or are judged",
 "In every generation of every population-based algorithm, individuals produced by selection and variation are passed to the evaluator after they were produced and before they are replaced-in, compared, archived, given a worth or shown to the stopping criterion. Algorithms that take an unevaluated initial population evaluate every member of it before it is first selected from or judged, and a population re-initialised for a restart is evaluated again. A population evaluator leaves no member of the population it is given unevaluated.",
 ["histories", "inputs"], "all runs: any number of generations, any operators, any initial population",
 "Tests run a few generations with populations that happen to be evaluated already; a missing evaluation on a rare branch (first generation, restart, empty offspring) is not exercised.",
 ["eo/src/eoEasyEA.h", "eo/src/eoSGA.h", "eo/src/eoFastGA.h", "eo/src/eoCellularEasyEA.h", "eo/src/eoEasyPSO.h", "eo/src/eoSyncEasyPSO.h", "eo/src/eoSimpleEDA.h", "moeo/src/algo/moeoEasyEA.h", "moeo/src/algo/moeoNSGAII.h", "moeo/src/algo/moeoSPEA2.h", "moeo/src/algo/moeoIBEA.h", "moeo/src/algo/moeoSEEA.h", "edo/src/edoAlgoAdaptive.h", "edo/src/edoAlgoStateless.h", "smp/src/MWAlgo/eoEasyEA.cpp"],
 [("breed - evaluate - replace order of the generational loop", "eo/src/eoEasyEA.h"), ("population evaluators", "eo/src/eoPopEvalFunc.h")],
 observe=["order of evaluator, replacement, archive and continuator calls on the offspring population"])

prop("C04", "A search runs until its stopping criterion says stop, and no longer",
 "Every iterative algorithm consults its stopping criterion once per iteration, on the current population or solution, goes on when the criterion allows it and terminates as soon as the criterion refuses. A combination of criteria lets the search continue exactly when every one of its members, each consulted once, does.",
 ["histories", "configurations"], "all criteria, all histories of answers, all numbers of combined criteria",
 "Tests stop by one generation counter; an ignored or short-circuited criterion, or a swallowed vote among several, leaves those runs unchanged.",
 ["eo/src/eoEasyEA.h", "eo/src/eoSGA.h", "eo/src/eoFastGA.h", "eo/src/eoCombinedContinue.h", "eo/src/utils/eoCheckPoint.h", "mo/src/algo/moLocalSearch.h", "mo/src/continuator/moCombinedContinuator.h", "mo/src/continuator/moCheckpoint.h", "edo/src/edoCombinedContinue.h", "moeo/src/algo/moeoEasyEA.h"],
 [("loop condition of the main loops", "eo/src/eoEasyEA.h"), ("conjunction over all members", "eo/src/eoCombinedContinue.h")],
 observe=["sequence of stopping-criterion answers versus loop iterations"])

prop("C05", "Checkpoints run every registered component once per generation",
 "Whatever the number of components of each kind, at every generation a checkpoint calls each registered statistic, updater, monitor and stopping criterion exactly once, statistics (all of them together, where an interval is configured) before the updaters and monitors that show them. When the run stops every registered component that takes a final call gets it exactly once, also through nested checkpoints, and an initialisation reaches each of them likewise.",
 ["configurations", "histories"], "all numbers and mixes of registered components, all generations including the last",
 "Tests register one component of each kind; skipping the last of several, or the final call, is not visible.",
 ["eo/src/utils/eoCheckPoint.h", "mo/src/continuator/moCheckpoint.h", "edo/src/utils/edoCheckPoint.h"],
 [("loops over the registered components", "eo/src/utils/eoCheckPoint.h")],
 observe=["calls received by each registered component per generation"])

prop("C06", "Replacements and reductions deliver exactly the requested population size",
 "For all parent and offspring populations that meet a strategy's documented precondition, a replacement leaves the parents with as many individuals as before, a reduction leaves exactly the requested number, and a selection or breeding of many delivers exactly the number asked for. A request that cannot be met is reported as an error instead of yielding a population of another size.",
 ["inputs", "configurations"], "all population sizes, rates and counts",
 "Sizes are off by one only for particular rates/counts or uneven parent/offspring ratios; tests use a few round numbers.",
 ["eo/src/eoReplacement.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMerge.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoSurviveAndDie.h", "eo/src/eoReduce.h", "eo/src/eoReduceSplit.h", "eo/src/eoMGGReplacement.h", "eo/src/eoG3Replacement.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectNumber.h", "eo/src/eoSelectPerc.h", "eo/src/eoDetSelect.h", "eo/src/eoTruncatedSelectMany.h", "moeo/src/replacement/moeoElitistReplacement.h", "moeo/src/replacement/moeoEnvironmentalReplacement.h"],
 [("truncation loops and size computations", "eo/src/eoReduce.h")],
 observe=["population sizes before and after each call"])

prop("C07", "Runs are reproducible: every random choice comes from the seedable generator",
 "Given the same seed and configuration a sequential run makes the same choices: library code takes randomness only from the library's own seedable generator, never from the system, the clock, process identity or memory addresses. The generator's state is changed only by drawing from it, by reseeding or by loading a saved state.",
 ["inputs", "configurations", "histories"], "all library components that make random choices, all seeds",
 "Two runs with one seed may agree by luck or because the component at fault is not part of the tested configuration.",
 ["eo/src/utils/eoRNG.h", "eo/src/utils/eoRNG.cpp", "eo/src/eoPop.h", "eo/src/eoInit.h", "eo/src/ga/eoStandardBitMutation.h", "mo/src/neighborhood/moRndVectorVNSelection.h", "eo/src/eoReduceSplit.h"],
 [("global seedable generator", "eo/src/utils/eoRNG.cpp")],
 observe=["set of randomness sources reachable from library code"])

prop("C08", "Whatever is saved can be loaded back field by field",
 "For every persistent object, loading reads exactly the fields that saving wrote, in the same order and number, and replaces the object's previous content, so that a saved object loads back to an equal one. This includes empty containers, unevaluated individuals and the state of the random generator.",
 ["inputs", "histories", "crash_points"], "all object contents and all save points",
 "Round trips in tests use one small evaluated object loaded into a fresh one; the unevaluated, empty or non-fresh cases are not covered.",
 ["eo/src/EO.h", "eo/src/PO.h", "eo/src/eoPop.h", "eo/src/eoVector.h", "eo/src/eoScalarFitness.h", "eo/src/eoDualFitness.h", "eo/src/utils/eoRNG.h", "eo/src/utils/eoState.cpp", "eo/src/utils/eoRealBounds.h", "eo/src/es/eoEsSimple.h", "eo/src/es/eoEsStdev.h", "eo/src/es/eoEsFull.h", "eo/src/ga/eoBit.h", "moeo/src/core/MOEO.h", "moeo/src/core/moeoVector.h", "mo/src/neighborhood/moNeighbor.h", "mo/src/neighborhood/moIndexNeighbor.h"],
 [("paired save/load methods", "eo/src/eoPersistent.h")],
 observe=["token sequence written versus token sequence read"])

prop("C09", "Comparison relations obey their order laws for all values",
 "Dominance between objective vectors holds exactly when no objective is worse and at least one is better, respecting each objective's minimise/maximise direction and tolerance; every dominance and comparison relation offered for ranking or sorting is irreflexive, asymmetric and consistent with fitness order. Lexicographic comparisons use the second criterion only on ties of the first.",
 ["inputs"], "all pairs of objective vectors of any dimension and direction, all fitness/diversity values",
 "Tests compare a handful of vectors; a wrong direction or a lost tie shows only for particular mixes of better, equal and worse objectives.",
 ["moeo/src/comparator/moeoParetoObjectiveVectorComparator.h", "moeo/src/comparator/moeoWeakObjectiveVectorComparator.h", "moeo/src/comparator/moeoStrictObjectiveVectorComparator.h", "moeo/src/comparator/moeoObjectiveObjectiveVectorComparator.h", "moeo/src/comparator/moeoFitnessThenDiversityComparator.h", "moeo/src/comparator/moeoDiversityThenFitnessComparator.h", "moeo/src/comparator/moeoFitnessComparator.h", "moeo/src/comparator/moeoOneObjectiveComparator.h", "eo/src/eoScalarFitness.h", "eo/src/EO.h", "mo/src/comparator/moNeighborComparator.h", "mo/src/comparator/moSolNeighborComparator.h"],
 [("per-objective comparison loop", "moeo/src/comparator/moeoParetoObjectiveVectorComparator.h")],
 observe=["answer of each comparator as a function of the order of its operands' fields"])

prop("C10", "A Pareto archive contains only mutually non-dominated solutions",
 "After any sequence of updates no archive member dominates another: a candidate enters only if no member dominates it (nor, where asked, equals it), and every member the candidate dominates is removed. An update loses no other member except by the cut to the bound, a bounded archive never ends an update with more members than its bound, and the answer says whether the candidate (some candidate, for a population) was admitted, before any cut.",
 ["histories", "inputs"], "all sequences of updates with all objective vectors",
 "The order in which points arrive decides which branch is taken; tests feed a few short sequences.",
 ["moeo/src/archive/moeoArchive.h", "moeo/src/archive/moeoUnboundedArchive.h", "moeo/src/archive/moeoFixedSizeArchive.h", "moeo/src/archive/moeoFitDivBoundedArchive.h", "moeo/src/archive/moeoImprOnlyBoundedArchive.h", "moeo/src/archive/moeo2DMinHypervolumeArchive.h"],
 [("remove-dominated / insert-if-not-dominated update", "moeo/src/archive/moeoArchive.h")],
 observe=["archive content before and after an update"])

prop("C11", "Evaluating a neighbour never changes the current solution",
 "Evaluating or exploring neighbours leaves the current solution's representation and fitness as they were, even when evaluation is done by applying and undoing a move. A neighbour is compared or accepted only after having been evaluated against the current solution, and when a move is accepted the solution receives that very neighbour's fitness.",
 ["inputs", "histories"], "all solutions, neighbours and search histories",
 "Tests use local searches whose result is right even if an intermediate solution was left modified or a stale neighbour fitness was reused.",
 ["mo/src/eval/moFullEvalByModif.h", "mo/src/eval/moFullEvalByCopy.h", "mo/src/explorer/moSimpleHCexplorer.h", "mo/src/explorer/moFirstImprHCexplorer.h", "mo/src/explorer/moTSexplorer.h", "mo/src/explorer/moSAexplorer.h", "mo/src/explorer/moNeutralHCexplorer.h", "mo/src/explorer/moRandomBestHCexplorer.h", "mo/src/explorer/moNeighborhoodExplorer.h", "mo/src/neighborhood/moEvaluatedNeighborhood.h", "mo/src/continuator/moNeighborhoodStat.h"],
 [("move / move back bracket", "mo/src/eval/moFullEvalByModif.h"), ("fitness transfer when a move is applied", "mo/src/explorer/moNeighborhoodExplorer.h")],
 observe=["solution before/after neighbour evaluation; order of evaluate and compare calls"])

prop("C12", "The best-so-far record never gets worse",
 "A record of the best individual seen so far (kept by evaluators, statistics, tabu or variable-neighbourhood searches and particle memories) is replaced only by a strictly better individual, or set when there is no record yet, and takes that individual's fitness and content together. At the end of a search that promises its best solution, that record is what is returned.",
 ["histories"], "all sequences of visited solutions",
 "A regression needs a worse solution to follow the best one at the right moment.",
 ["eo/src/eoEvalKeepBest.h", "mo/src/continuator/moBestSoFarStat.h", "mo/src/continuator/moBestFitnessStat.h", "mo/src/explorer/moTSexplorer.h", "mo/src/memory/moBestImprAspiration.h", "mo/src/acceptCrit/moBetterAcceptCrit.h", "mo/src/continuator/moBestNoImproveContinuator.h", "eo/src/eoLinearTopology.h", "eo/src/eoStarTopology.h", "eo/src/eoRingTopology.h"],
 [("guarded assignment of the record", "mo/src/explorer/moTSexplorer.h")],
 observe=["record before/after each update as a function of the fitness order"])

prop("C13", "Evaluation and generation budgets are counted exactly and enforced",
 "Every counted evaluation raises its counter by exactly one, no evaluation goes uncounted, and individuals with a valid fitness are not evaluated again. A budget criterion lets the search continue while the count is below its limit and stops it as soon as the limit is reached.",
 ["histories", "inputs"], "all sequences of evaluations and generations, all limits",
 "Off-by-one or path-dependent counting does not alter the small runs of the tests.",
 ["eo/src/eoEvalFuncCounter.h", "eo/src/eoEvalCounterThrowException.h", "eo/src/eoEvalFuncPtr.h", "eo/src/eoEvalContinue.h", "eo/src/eoGenContinue.h", "mo/src/eval/moEvalCounter.h", "mo/src/continuator/moIterContinuator.h", "mo/src/continuator/moEvalsContinuator.h", "mo/src/continuator/moFullEvalContinuator.h", "mo/src/continuator/moNeighborEvalContinuator.h", "eo/src/eoFitContinue.h", "eo/src/eoSteadyFitContinue.h", "eo/src/eoCounter.h"],
 [("counter increments around the wrapped call", "eo/src/eoEvalFuncCounter.h"), ("limit tests", "eo/src/eoGenContinue.h")],
 observe=["counter value versus number of wrapped calls; answer versus counter/limit order"])

prop("C14", "Parallel evaluation and islands never race and never lose work",
 "State shared between worker threads, islands and the coordinating thread is touched only under its lock or while no other thread runs, locks are released on every path, and all started threads are joined before their operands go away. Every individual of a parallel evaluation is processed exactly once and every batch of emigrants reaches each selected neighbour intact.",
 ["schedules"], "all interleavings of workers, islands and the coordinator",
 "Tests see a few schedules on an idle machine; lost updates and races need specific interleavings.",
 ["smp/src/scheduler.h", "smp/src/scheduler.cpp", "smp/src/island.cpp", "smp/src/islandModel.cpp", "smp/src/MWModel.cpp", "smp/src/notifier.cpp", "smp/src/islandNotifier.cpp", "eo/src/apply.h"],
 [("mutexes, joins and futures", "smp/src/islandModel.cpp"), ("work packages", "smp/src/scheduler.cpp")],
 observe=["lock set at each shared access; thread start/join order; migrant hand-over"])

prop("C15", "Owned objects are released exactly once and never used afterwards",
 "Every object the library allocates for itself is released exactly once, never twice and never while still referred to: an object that releases what it holds cannot be duplicated by copying. Nothing keeps a reference to a temporary or to an element of a container that may since have been reallocated, and objects deleted through a base class have a virtual destructor.",
 ["histories", "programs"], "all programs that compose, copy, store and destroy library objects",
 "Double release and dangling references often go unnoticed without copying the right object at the right moment.",
 ["eo/src/eoFunctorStore.cpp", "eo/src/eoFunctorStore.h", "eo/src/utils/eoState.cpp", "eo/src/eoForge.h", "eo/src/eoPopulator.h", "eo/src/eoGenOp.h", "mo/src/eval/moDoubleIncrEvaluation.h", "moeo/src/algo/moeoIBEA.h", "edo/src/edoAlgoStateless.h", "eo/src/eoCellularEasyEA.h"],
 [("owning stores", "eo/src/eoFunctorStore.cpp"), ("capacity reserved before references are handed out", "eo/src/eoGenOp.h")],
 observe=["destructors, copy operations and reference lifetimes of every class"])

prop("C16", "Statistics, monitors and stopping criteria only observe",
 "Computing statistics, printing, monitoring or testing a stopping criterion never modifies the population, the solution or the archive it is shown: the observed individuals, their order and their fitness are the same afterwards.",
 ["inputs", "histories"], "all observers, all populations and solutions",
 "An observer that perturbs the search still lets the search finish; tests do not compare populations around each observer.",
 ["eo/src/utils/eoStat.h", "eo/src/utils/eoPopStat.h", "eo/src/utils/eoFDCStat.h", "eo/src/eoContinue.h", "mo/src/continuator/moStat.h", "mo/src/continuator/moNeighborhoodStat.h", "moeo/src/utils/moeoObjVecStat.h", "moeo/src/utils/moeoBinaryMetricStat.h", "edo/src/utils/edoPopStat.h"],
 [("const observers and work on copies or pointers", "eo/src/utils/eoStat.h")],
 observe=["writes reachable from observer entry points to the observed object"])

prop("C17", "Selection returns members of the population it was given",
 "Selecting one individual always yields a reference to a living member of the population passed in that call - never to a copy, to another population, to a stale snapshot or outside the population's range - for every non-empty population; only a selector documented to draw from a fertile subset or an archive returns a member of that instead. Selecting several delivers copies of such members only.",
 ["inputs", "histories"], "all non-empty populations, all random draws, repeated calls with different populations",
 "Tests call selectors on one fixed population; stale caches and off-by-one indices need another population or an extreme draw.",
 ["eo/src/eoDetTournamentSelect.h", "eo/src/eoStochTournamentSelect.h", "eo/src/eoRandomSelect.h", "eo/src/eoSequentialSelect.h", "eo/src/eoProportionalSelect.h", "eo/src/eoSelectFromWorth.h", "eo/src/eoStochasticUniversalSelect.h", "eo/src/eoTruncatedSelectOne.h", "eo/src/utils/selectors.h", "moeo/src/selection/moeoDetTournamentSelect.h", "moeo/src/selection/moeoSelectors.h", "moeo/src/selection/moeoSelectFromPopAndArch.h", "moeo/src/selection/moeoRouletteSelect.h"],
 [("index arithmetic and iterator ranges of the selectors", "eo/src/utils/selectors.h")],
 observe=["provenance of the returned reference"])

prop("C18", "Failures are raised, not swallowed",
 "A detected misuse or failure is reported to the caller: an error object that is built is thrown, and a file, pipe or stream that could not be opened is noticed before it is written or read as if it were there. No such failure is silently turned into a result, and an operation that rejects misuse does so by throwing.",
 ["fault_sequences", "inputs"], "all failing resources and all invalid arguments the library detects",
 "Tests never make files unopenable nor pass the invalid argument that triggers each detection.",
 ["eo/src/eoExceptions.h", "eo/src/ga/eoBitOp.h", "eo/src/es/eoRealOp.h", "eo/src/utils/eoState.cpp", "eo/src/utils/eoFileMonitor.cpp", "eo/src/utils/eoParser.cpp", "eo/src/utils/eoFileSnapshot.h", "eo/src/eoEvalNamedPipe.h", "mo/src/continuator/moVectorMonitor.h", "edo/src/utils/edoFileSnapshot.cpp"],
 [("throw expressions and stream state tests", "eo/src/utils/eoState.cpp")],
 observe=["construction versus throwing of error objects; stream use versus stream state test"])

prop("C19", "Bounded operators and bounders keep every component inside its bounds",
 "Folding or truncating a value into bounds yields a value inside them for every input, and every bounded initialiser, mutation, crossover and sampler repairs or draws each component it changes within that component's own bounds before it returns. A value already inside its bounds is left as it is by the repair.",
 ["inputs", "configurations"], "all values, bounds (including half-open and equal bounds), sizes and random draws",
 "Leaving the bounds needs an extreme draw on a component with an unusual bound.",
 ["eo/src/utils/eoRealBounds.h", "eo/src/utils/eoRealBounds.cpp", "eo/src/utils/eoIntBounds.h", "eo/src/utils/eoRealVectorBounds.h", "eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoSBXcross.h", "edo/src/edoBounderBound.h", "edo/src/edoBounderRng.h", "edo/src/edoBounderUniform.h", "edo/src/edoSampler.h", "edo/src/edoRepairerModulo.h"],
 [("fold/truncate and repair calls", "eo/src/utils/eoRealBounds.h")],
 observe=["value of each written component relative to its bounds at return"])

prop("C20", "No decision depends on uninitialised data",
 "Each numeric, boolean and pointer attribute of an object has a defined value before any operation of the object, called in the documented order (construct, initialise where the component has an initialiser, use), can read it. No function reads a local variable before giving it a value.",
 ["inputs", "histories", "configurations"], "all constructors, all call sequences after construction",
 "Indeterminate memory often happens to be zero in tests, so the default-looking value hides the defect.",
 ["eo/src/PO.h", "eo/src/eoSteadyFitContinue.h", "moeo/src/core/MOEO.h", "moeo/src/archive/moeoEpsilonHyperboxArchive.h", "mo/src/neighborhood/moNeighbor.h", "mo/src/explorer/moSAexplorer.h", "mo/src/memory/moNeighborVectorTabuList.h"],
 [("constructors' initialisers", "eo/src/EO.h")],
 observe=["definite assignment of members by each constructor and of locals on each path"])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, sort_keys=False) + "\n")
if __name__ == "__main__":
    main()
