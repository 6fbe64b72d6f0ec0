// Instantiates the class templates of /repo so that their bodies can be analysed; never run.
#include <eo>
#include <ga.h>
#include <es.h>
#include "EO.h"
#include "PO.h"
#include "apply.h"
#include "eoAlgo.h"
#include "eoAlgoFoundry.h"
#include "eoAlgoFoundryEA.h"
#include "eoAlgoFoundryFastGA.h"
#include "eoAlgoReset.h"
#include "eoAlgoRestart.h"
#include "eoBinaryFlight.h"
#include "eoBitParticle.h"
#include "eoBreed.h"
#include "eoCellularEasyEA.h"
#include "eoCloneOps.h"
#include "eoCombinedContinue.h"
#include "eoCombinedInit.h"
#include "eoConstrictedVariableWeightVelocity.h"
#include "eoConstrictedVelocity.h"
#include "eoContinue.h"
#include "eoCounter.h"
#include "eoCtrlCContinue.h"
#include "eoDetSelect.h"
#include "eoDetTournamentSelect.h"
#include "eoDistribUpdater.h"
#include "eoDistribution.h"
#include "eoDualFitness.h"
#include "eoEDA.h"
#include "eoEasyEA.h"
#include "eoEasyPSO.h"
#include "eoEvalCmd.h"
#include "eoEvalContinue.h"
#include "eoEvalCounterThrowException.h"
#include "eoEvalDump.h"
#include "eoEvalFoundryEA.h"
#include "eoEvalFoundryFastGA.h"
#include "eoEvalFunc.h"
#include "eoEvalFuncCounter.h"
#include "eoEvalFuncPtr.h"
#include "eoEvalKeepBest.h"
#include "eoEvalNamedPipe.h"
#include "eoEvalNanThrowException.h"
#include "eoEvalUserTimeThrowException.h"
#include "eoExceptions.h"
#include "eoExtendedVelocity.h"
#include "eoFactory.h"
#include "eoFastGA.h"
#include "eoFitContinue.h"
#include "eoFitnessScalingSelect.h"
#include "eoFixedInertiaWeightedVelocity.h"
#include "eoFlOrMonOp.h"
#include "eoFlight.h"
#include "eoForge.h"
#include "eoFunctor.h"
#include "eoFunctorStore.h"
#include "eoG3Replacement.h"
#include "eoGaussRealWeightUp.h"
#include "eoGenContinue.h"
#include "eoGenOp.h"
#include "eoGeneralBreeder.h"
#include "eoInit.h"
#include "eoInitializer.h"
#include "eoInt.h"
#include "eoIntegerVelocity.h"
#include "eoInvalidateOps.h"
#include "eoLinearDecreasingWeightUp.h"
#include "eoLinearFitScaling.h"
#include "eoLinearTopology.h"
#include "eoMGGReplacement.h"
#include "eoMerge.h"
#include "eoMergeReduce.h"
#include "eoNDSorting.h"
#include "eoNeighborhood.h"
#include "eoObject.h"
#include "eoOneToOneBreeder.h"
#include "eoOp.h"
#include "eoOpContainer.h"
#include "eoOrderXover.h"
#include "eoPSO.h"
#include "eoPartiallyMappedXover.h"
#include "eoParticleBestInit.h"
#include "eoPerf2Worth.h"
#include "eoPeriodicContinue.h"
#include "eoPersistent.h"
#include "eoPop.h"
#include "eoPopEvalFunc.h"
#include "eoPopulator.h"
#include "eoPrintable.h"
#include "eoPropGAGenOp.h"
#include "eoProportionalCombinedOp.h"
#include "eoProportionalSelect.h"
#include "eoRandomRealWeightUp.h"
#include "eoRandomSelect.h"
#include "eoRankMuSelect.h"
#include "eoRanking.h"
#include "eoRankingCached.h"
#include "eoRankingSelect.h"
#include "eoRealBoundModifier.h"
#include "eoRealParticle.h"
#include "eoRealToIntInit.h"
#include "eoRealToIntMonOp.h"
#include "eoRealToIntQuadOp.h"
#include "eoReduce.h"
#include "eoReduceMerge.h"
#include "eoReduceMergeReduce.h"
#include "eoReduceSplit.h"
#include "eoReplacement.h"
#include "eoRingTopology.h"
#include "eoSGA.h"
#include "eoSGAGenOp.h"
#include "eoSGATransform.h"
#include "eoSIGContinue.h"
#include "eoSTLFunctor.h"
#include "eoScalarFitness.h"
#include "eoScalarFitnessAssembled.h"
#include "eoSecondsElapsedContinue.h"
#include "eoSelect.h"
#include "eoSelectFromWorth.h"
#include "eoSelectMany.h"
#include "eoSelectNumber.h"
#include "eoSelectOne.h"
#include "eoSelectPerc.h"
#include "eoSequentialSelect.h"
#include "eoSharing.h"
#include "eoSharingSelect.h"
#include "eoShiftMutation.h"
#include "eoSigBinaryFlight.h"
#include "eoSimpleEDA.h"
#include "eoSocialNeighborhood.h"
#include "eoStandardFlight.h"
#include "eoStandardVelocity.h"
#include "eoStarTopology.h"
#include "eoSteadyFitContinue.h"
#include "eoStochTournamentSelect.h"
#include "eoStochasticUniversalSelect.h"
#include "eoSurviveAndDie.h"
#include "eoSwapMutation.h"
#include "eoSyncEasyPSO.h"
#include "eoTimeContinue.h"
#include "eoTopology.h"
#include "eoTransform.h"
#include "eoTruncSelect.h"
#include "eoTruncatedSelectMany.h"
#include "eoTruncatedSelectOne.h"
#include "eoTwoOptMutation.h"
#include "eoVariableInertiaWeightedVelocity.h"
#include "eoVariableLengthCrossover.h"
#include "eoVariableLengthMutation.h"
#include "eoVector.h"
#include "eoVectorParticle.h"
#include "eoVelocity.h"
#include "eoVelocityInit.h"
#include "eoWeightUpdater.h"
#include "es.h"
#include "es/CMAParams.h"
#include "es/CMAState.h"
#include "es/eig.h"
#include "es/eoCMABreed.h"
#include "es/eoCMAInit.h"
#include "es/eoEsChromInit.h"
#include "es/eoEsFull.h"
#include "es/eoEsGlobalXover.h"
#include "es/eoEsMutate.h"
#include "es/eoEsMutationInit.h"
#include "es/eoEsSimple.h"
#include "es/eoEsStandardXover.h"
#include "es/eoEsStdev.h"
#include "es/eoNormalMutation.h"
#include "es/eoReal.h"
#include "es/eoRealAtomXover.h"
#include "es/eoRealInitBounded.h"
#include "es/eoRealOp.h"
#include "es/matrices.h"
#include "ga.h"
#include "ga/eoBit.h"
#include "ga/eoBitOp.h"
#include "ga/eoBitOpFactory.h"
#include "ga/eoStandardBitMutation.h"
#include "gp/eoParseTree.h"
#include "gp/eoParseTreeDepthInit.h"
#include "gp/eoParseTreeOp.h"
#include "gp/eoStParseTreeDepthInit.h"
#include "gp/node_pool.h"
#include "gp/parse_tree.h"
#include "other/eoExternalEO.h"
#include "other/eoExternalOpFunctions.h"
#include "other/eoString.h"
#include "utils/compatibility.h"
#include "utils/eoAssembledFitnessStat.h"
#include "utils/eoCheckPoint.h"
#include "utils/eoData.h"
#include "utils/eoDistance.h"
#include "utils/eoFDCStat.h"
#include "utils/eoFeasibleRatioStat.h"
#include "utils/eoFileMonitor.h"
#include "utils/eoFileSnapshot.h"
#include "utils/eoFuncPtrStat.h"
#include "utils/eoGenCounter.h"
#include "utils/eoGnuplot.h"
#include "utils/eoGnuplot1DMonitor.h"
#include "utils/eoGnuplot1DSnapshot.h"
#include "utils/eoHowMany.h"
#include "utils/eoIntBounds.h"
#include "utils/eoLogMessage.h"
#include "utils/eoLogMonitor.h"
#include "utils/eoLogger.h"
#include "utils/eoMOFitnessStat.h"
#include "utils/eoMonitor.h"
#include "utils/eoOStreamMonitor.h"
#include "utils/eoParallel.h"
#include "utils/eoParam.h"
#include "utils/eoParser.h"
#include "utils/eoPopStat.h"
#include "utils/eoRNG.h"
#include "utils/eoRealBounds.h"
#include "utils/eoRealVectorBounds.h"
#include "utils/eoRndGenerators.h"
#include "utils/eoScalarFitnessStat.h"
#include "utils/eoSignal.h"
#include "utils/eoStat.h"
#include "utils/eoState.h"
#include "utils/eoStdoutMonitor.h"
#include "utils/eoTimeCounter.h"
#include "utils/eoTimedMonitor.h"
#include "utils/eoTimer.h"
#include "utils/eoUniformInit.h"
#include "utils/eoUpdatable.h"
#include "utils/eoUpdater.h"
#include "utils/pipecom.h"
#include "utils/rnd_generators.h"
#include "utils/selectors.h"
typedef eoReal<eoMinimizingFitness> DReal; typedef eoBit<double> DBit; typedef eoInt<double> DInt; typedef eoInt<eoMinimizingFitness> DIntM;
typedef eoEsFull<double> DEsF; typedef eoEsStdev<double> DEsS; typedef eoEsSimple<double> DEs1; typedef eoRealParticle<double> DPart; typedef eoBitParticle<double> DBPart;
template class EO<>;
template class PO<double>;
template class eoAlgo<DReal>;
template class eoAlgoFoundry<DReal>;
template class eoOperatorFoundry<eoMonOp<DReal>>;
template class eoAlgoFoundryEA<DReal>;
template class eoAlgoFoundryFastGA<DReal>;
template class eoAlgoPopReset<DReal>;
template class eoAlgoReset<DReal>;
template class eoAlgoResetCombine<DReal>;
template class eoAlgoRestart<DReal>;
template class eoBinaryFlight<DPart>;
template class eoBitParticle<double>;
template class eoBreed<DReal>;
template class eoSelectTransform<DReal>;
template class eoBinCloneOp<DReal>;
template class eoMonCloneOp<DReal>;
template class eoQuadCloneOp<DReal>;
template class eoCombinedContinue<DReal>;
template class eoCombinedInit<DReal>;
template class eoConstrictedVariableWeightVelocity<DPart>;
template class eoConstrictedVelocity<DPart>;
template class eoContinue<DReal>;
template class eoCountContinue<DReal>;
template class eoDummyContinue<DReal>;
template class eoBinaryFunctorCounter<eoBF<double,double,double>>;
template class eoProcedureCounter<eoF<double>>;
template class eoCtrlCContinue<DReal>;
template class eoDetSelect<DReal>;
template class eoDetTournamentSelect<DReal>;
template class eoDistribUpdater<DReal>;
template class eoDistribution<DReal>;
template class eoDualFitness<double, std::less<double>>;
template class eoEDA<DReal>;
template class eoEasyEA<DReal>;
template class eoEasyPSO<DPart>;
template class eoEvalCmd<DReal>;
template class eoEvalContinue<DReal>;
template class eoEvalCounterThrowException<DReal>;
template class eoEvalDump<DReal>;
template class eoEvalFoundryEA<DReal, DReal>;
template class eoEvalFunc<DReal>;
template class eoEvalFuncCounter<DReal>;
template class eoEvalFuncPtr<DReal>;
template class eoEvalKeepBest<DReal>; template class eoEvalKeepBest<DBit>;
template class eoEvalNamedPipe<DReal>;
template class eoEvalNanThrowException<DReal>;
template class eoEvalPrint<DReal>;
template class eoEvalUserTimeThrowException<DReal>; template class eoEvalTimeThrowException<DBit>;
template class eoExtendedVelocity<DPart>;
template class eoFactory<DReal>;
template class eoFastGA<DReal>;
template class eoFitContinue<DReal>;
template class eoFitnessScalingSelect<DReal>;
template class eoFixedInertiaWeightedVelocity<DPart>;
template class eoFlOrAllMutation<DReal>;
template class eoFlOrKMutation<DReal>;
template class eoFlight<DPart>;
template class eoForgeInterface<eoMonOp<DReal>>;
template class eoForgeMap<eoMonOp<DReal>>;
template class eoForgeVector<eoMonOp<DReal>>;
template class eoBF<double, double, double>;
template class eoF<double>;
template class eoUF<double, double>;
template class eoG3Replacement<DReal>;
template class eoGenContinue<DReal>;
template class eoBinGenOp<DReal>;
template class eoGenOp<DReal>;
template class eoMonGenOp<DReal>;
template class eoQuadGenOp<DReal>;
template class eoSelBinGenOp<DReal>;
template class eoGeneralBreeder<DReal>;
template class eoInit<DReal>;
template class eoInitAdaptor<DReal>;
template class eoInitFixedLength<DReal>;
template class eoInitGenerator<DReal>;
template class eoInitPermutation<DReal>;
template class eoInitVariableLength<DReal>;
template class eoInitWithDim<DReal>;
template class eoInitializer<DPart>;
template class eoInitializerBase<DPart>;
template class eoInt<double>;
template class eoIntegerVelocity<DPart>;
template class eoInvalidateBinOp<DReal>;
template class eoInvalidateMonOp<DReal>;
template class eoInvalidateQuadOp<DReal>;
template class eoLinearDecreasingWeightUp<double, double>;
template class eoLinearFitScaling<DReal>;
template class eoLinearTopology<DPart>;
template class eoMGGReplacement<DReal>;
template class eoElitism<DReal>;
template class eoMerge<DReal>;
template class eoNoElitism<DReal>;
template class eoPlus<DReal>;
template class eoCommaReplacement<DReal>;
template class eoEPReplacement<DReal>;
template class eoMergeReduce<DReal>;
template class eoPlusReplacement<DReal>;
template class eoNeighborhood<DPart>;
template class eoOneToOneBreeder<DReal>;
template class eoBinOp<DReal>;
template class eoMon2QuadOp1<DReal>;
template class eoMon2QuadOp2<DReal>;
template class eoMonOp<DReal>;
template class eoOp<DReal>;
template class eoQuad2BinOp<DReal>;
template class eoQuadOp<DReal>;
template class eoOpContainer<DReal>;
template class eoProportionalOp<DReal>;
template class eoSequentialOp<DReal>;
template class eoOrderXover<DBit>;
template class eoPSO<DPart>;
template class eoPartiallyMappedXover<DBit>;
template class eoFirstIsBestInit<DPart>;
template class eoParticleBestInit<DPart>;
template class eoPerf2Worth<DReal>;
template class eoPerf2WorthCached<DReal>;
template class eoPeriodicContinue<DReal>;
template class eoPop<DReal>;
template class eoPopEvalFunc<DReal>;
template class eoPopLoopEval<DReal>;
template class eoTimeVaryingLoopEval<DReal>;
template class eoPopulator<DReal>;
template class eoSelectivePopulator<DReal>;
template class eoSeqPopulator<DReal>;
template class eoPropGAGenOp<DReal>;
template class eoPropCombinedMonOp<DReal>;
template class eoPropCombinedQuadOp<DReal>;
template class eoProportionalSelect<DReal>;
template class eoBestSelect<DReal>;
template class eoNoSelect<DReal>;
template class eoRandomSelect<DReal>;
template class eoRankMuSelect<DReal>;
template class eoRanking<DReal>;
template class eoRankingCached<DReal>;
template class eoRankingSelect<DReal>;
template class eoRealParticle<double>;
template class eoRealToIntInit<DReal>;
template class eoRealToIntMonOp<DReal>;
template class eoRealToIntQuadOp<DReal>;
template class eoDetTournamentTruncate<DReal>;
template class eoEPReduce<DReal>;
template class eoLinearTruncate<DReal>;
template class eoRandomReduce<DReal>;
template class eoReduce<DReal>;
template class eoStochTournamentTruncate<DReal>;
template class eoTruncate<DReal>;
template class eoReduceMerge<DReal>;
template class eoSSGADetTournamentReplacement<DReal>;
template class eoSSGAStochTournamentReplacement<DReal>;
template class eoSSGAWorseReplacement<DReal>;
template class eoReduceMergeReduce<DReal>;
template class eoDetTournamentTruncateSplit<DReal>;
template class eoLinearTruncateSplit<DReal>;
template class eoRandomSplit<DReal>;
template class eoLinearRandomSplit<DReal>;
template class eoReduceSplit<DReal>;
template class eoStochTournamentTruncateSplit<DReal>;
template class eoTruncateSplit<DReal>;
template class eoGenerationalReplacement<DReal>;
template class eoReplacement<DReal>;
template class eoWeakElitistReplacement<DReal>;
template class eoRingTopology<DPart>;
template class eoSGA<DReal>;
template class eoSGAGenOp<DReal>;
template class eoDynSGATransform<DReal>;
template class eoSGATransform<DReal>;
template class eoSIGContinue<DReal>;
template class eoSTLF<double>;
template class eoSTLUF<double, double>;
template class eoScalarFitness<double, std::less<double>>;
template class eoSecondsElapsedContinue<DReal>;
template class eoSelect<DReal>;
template class eoRouletteWorthSelect<DReal>;
template class eoSelectFromWorth<DReal>;
template class eoSelectMany<DReal>;
template class eoSelectNumber<DReal>;
template class eoSelectOne<DReal>;
template class eoSelectPerc<DReal>;
template class eoEliteSelect<DReal>;
template class eoEliteSequentialSelect<DReal>;
template class eoSequentialSelect<DReal>;
template class eoSharing<DReal>;
template class eoSharingSelect<DReal>;
template class eoShiftMutation<DReal>;
template class eoSigBinaryFlight<DPart>;
template class eoSimpleEDA<DReal>;
template class eoSocialNeighborhood<DPart>;
template class eoStandardFlight<DPart>;
template class eoStandardVelocity<DPart>;
template class eoStarTopology<DPart>;
template class eoSteadyFitContinue<DReal>;
template class eoStochTournamentSelect<DReal>;
template class eoStochasticUniversalSelect<DReal>;
template class eoDeterministicSaDReplacement<DReal>;
template class eoDeterministicSurviveAndDie<DReal>;
template class eoSurviveAndDie<DReal>;
template class eoSwapMutation<DReal>;
template class eoSyncEasyPSO<DPart>;
template class eoTimeContinue<DReal>;
template class eoTopology<DPart>;
template class eoTransform<DReal>;
template class eoTruncSelect<DReal>;
template class eoTruncatedSelectMany<DReal>;
template class eoTruncatedSelectOne<DReal>;
template class eoTwoOptMutation<DReal>;
template class eoVariableInertiaWeightedVelocity<DPart>;
template class eoAtomExchange<double>;
template class eoInnerExchangeQuadOp<DReal>;
template class eoUniformAtomExchange<double>;
template class eoVlAtomExchangeQuadOp<DReal>;
template class eoVlUniformBinOp<DReal>;
template class eoVlUniformQuadOp<DReal>;
template class eoGeneDelChooser<DReal>;
template class eoUniformGeneChooser<DReal>;
template class eoVlAddMutation<DReal>;
template class eoVlDelMutation<DReal>;
template class eoVector<double, double>;
template class eoVectorParticle<double, double, double>;
template class eoVelocity<DPart>;
template class eoVelocityInit<DPart>;
template class eoVelocityInitFixedLength<DPart>;
template class eoVelocityInitGenerator<DPart>;
template class eoVelocityInitVariableLength<DPart>;
template class eoWeightUpdater<double>;
template class eoCMABreed<double>;
template class eoCMAInit<double>;
template class eoEsChromInit<DReal>;
template class eoEsFull<double>;
template class eoEsMutate<DEsF>;
template class eoEsSimple<double>;
template class eoEsStandardXover<DEsF>;
template class eoEsStdev<double>;
template class eoNormalMutation<DReal>;
template class eoNormalVecMutation<DReal>;
template class eoOneFifthMutation<DReal>;
template class eoReal<double>;
template class eoRealInitBounded<DReal>;
template class eoDetUniformMutation<DReal>;
template class eoHypercubeCrossover<DReal>;
template class eoRealUXover<DReal>;
template class eoSegmentCrossover<DReal>;
template class eoUniformMutation<DReal>;
template class eoSBXCrossover<DReal>;
template class eoBit<double>;
template class eo1PtBitXover<DReal>;
template class eoBitGxOver<DReal>;
template class eoBitInversion<DReal>;
template class eoBitMutation<DReal>;
template class eoBitNext<DReal>;
template class eoBitPrev<DReal>;
template class eoDetBitFlip<DReal>;
template class eoDetSingleBitFlip<DReal>;
template class eoNPtsBitXover<DReal>;
template class eoOneBitFlip<DReal>;
template class eoUBitXover<DReal>;
template class eoBucketBitMutation<DReal>;
template class eoConditionalBitMutation<DReal>;
template class eoFastBitMutation<DReal>;
template class eoNormalBitMutation<DReal>;
template class eoShiftedBitMutation<DReal>;
template class eoStandardBitMutation<DReal>;
template class eoUniformBitMutation<DReal>;
template class gp_parse_tree::Node_alloc<double>;
template class gp_parse_tree::Standard_Node_alloc<double>;
template class gp_parse_tree::Tree_alloc<double>;
template class eoExternalEO<double, DReal>;
template class eoExternalBinOp<double, DReal>;
template class eoExternalMonOp<double, DReal>;
template class eoExternalQuadOp<double, DReal>;
template class eoString<double>;
template class eoCheckPoint<DReal>;
template class eoDistance<DReal>;
template class eoFitnessDistance<DReal>;
template class eoHammingDistance<DReal>;
template class eoL1Distance<DReal>;
template class eoQuadDistance<DReal>;
template class eoFDCFileSnapshot<DReal>;
template class eoFDCStat<DReal>;
template class eoFuncPtrStat<DReal, double>;
template class eoFunctorStat<DReal, double>;
template class eoFitnessStat<DReal>;
template class eoValueParam<double>;
template class eoPopStat<DReal>;
template class eoSortedPopStat<DReal>;
template class eoBooleanGenerator<>;
template class eoNegExpGenerator<>;
template class eoNormalGenerator<>;
template class eoRndGenerator<double>;
template class eoUniformGenerator<>;
template class eoScalarFitnessStat<DReal>;
template class eoSignal<DReal>;
template class eoAverageSizeStat<DReal>;
template class eoAverageStat<DBit>;
template class eoBestFitnessStat<DReal>;
template class eoBestIndividualStat<DReal>;
template class eoDistanceStat<DReal>;
template class eoInterquartileRangeStat<DReal>;
template class eoNthElementFitnessStat<DReal>;
template class eoNthElementStat<DReal>;
template class eoSecondMomentStats<DReal>;
template class eoSortedStat<DReal, double>;
template class eoSortedStatBase<DReal>;
template class eoStat<DReal, double>;
template class eoStatBase<DReal>;
template class eoNegExpInit<>;
template class eoNormalInit<>;
template class eoUniformInit<>;
template class eoIncrementor<double>;
template class eoIncrementorParam<double>;
template class UF_random_generator<>;
template class negexp_generator<>;
template class normal_generator<>;
template class random_generator<>;
template class uniform_generator<>;
template class eo::is_fit_check<double>;
typedef eoReal<eoMinimizingDualFitness> DDual;
struct DNode { int op; double v; DNode(int o = 0) : op(o), v(0) {} int arity() const { return op % 3; } void randomize() {}
  template <class C> void operator()(double& r, C args, const double& x) const { r = op == 0 ? x : args[0].v_; }
  bool operator==(const DNode& o) const { return op == o.op; } };
inline std::ostream& operator<<(std::ostream& o, const DNode& n) { return o << n.op; }
inline std::istream& operator>>(std::istream& i, DNode& n) { return i >> n.op; }
typedef eoParseTree<double, DNode> DTree;
template class eoParseTree<double, DNode>;
template class eoSubtreeXOver<double, DNode>;
template class eoBranchMutation<double, DNode>;
template class eoPointMutation<double, DNode>;
template class eoExpansionMutation<double, DNode>;
template class eoCollapseSubtreeMutation<double, DNode>;
template class eoHoistMutation<double, DNode>;
template class eoParseTreeDepthInit<double, DNode>;
template class eoDualPopSplit<DDual>;
template class eoFeasibleRatioStat<DDual>;
template class eoForgeOperator<eoMonOp<DReal>, eoUniformMutation<DReal>, double>;
template class eoForgeOperator<eoSelectOne<DReal>, eoRandomSelect<DReal>>;
template class eoForgeScalar<double>;
template class eoParameterFoundry<double>;
template void eoCellularEasyEA<DReal>::operator()(eoPop<DReal>&);
template class eoDualFitness<double, std::greater<double> >;
template class eoScalarFitness<double, std::greater<double> >;
template class eoPop<DBit>;
template class eoPop<DInt>;
template class eoValueParam<unsigned long>;
template class eoValueParam<std::string>;
template class eoValueParam<bool>;
