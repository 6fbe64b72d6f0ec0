// Instantiates the class templates of /repo so that their bodies can be analysed; never run.
#include <eo>
#include <ga.h>
#include <es.h>
#include <mo>
#include "acceptCrit/moAcceptanceCriterion.h"
#include "acceptCrit/moAlwaysAcceptCrit.h"
#include "acceptCrit/moBetterAcceptCrit.h"
#include "algo/eoDummyMonOp.h"
#include "algo/moDummyLS.h"
#include "algo/moFirstImprHC.h"
#include "algo/moILS.h"
#include "algo/moLocalSearch.h"
#include "algo/moMetropolisHasting.h"
#include "algo/moNeutralHC.h"
#include "algo/moRandomBestHC.h"
#include "algo/moRandomNeutralWalk.h"
#include "algo/moRandomSearch.h"
#include "algo/moRandomWalk.h"
#include "algo/moSA.h"
#include "algo/moSimpleHC.h"
#include "algo/moTS.h"
#include "algo/moVNS.h"
#include "comparator/moComparator.h"
#include "comparator/moEqualNeighborComparator.h"
#include "comparator/moEqualSolComparator.h"
#include "comparator/moEqualSolNeighborComparator.h"
#include "comparator/moNeighborComparator.h"
#include "comparator/moSolComparator.h"
#include "comparator/moSolNeighborComparator.h"
#include "continuator/moAverageFitnessNeighborStat.h"
#include "continuator/moBestFitnessStat.h"
#include "continuator/moBestNoImproveContinuator.h"
#include "continuator/moBestSoFarStat.h"
#include "continuator/moBooleanStat.h"
#include "continuator/moCheckpoint.h"
#include "continuator/moCombinedContinuator.h"
#include "continuator/moContinuator.h"
#include "continuator/moCounterMonitorSaver.h"
#include "continuator/moCounterStat.h"
#include "continuator/moDistanceStat.h"
#include "continuator/moEvalsContinuator.h"
#include "continuator/moFitContinuator.h"
#include "continuator/moFitnessStat.h"
#include "continuator/moFullEvalContinuator.h"
#include "continuator/moIterContinuator.h"
#include "continuator/moMaxNeighborStat.h"
#include "continuator/moMedianNeighborStat.h"
#include "continuator/moMinNeighborStat.h"
#include "continuator/moMinusOneCounterStat.h"
#include "continuator/moNbInfNeighborStat.h"
#include "continuator/moNbSupNeighborStat.h"
#include "continuator/moNeighborBestStat.h"
#include "continuator/moNeighborEvalContinuator.h"
#include "continuator/moNeighborFitnessStat.h"
#include "continuator/moNeighborhoodStat.h"
#include "continuator/moNeutralDegreeNeighborStat.h"
#include "continuator/moQ1NeighborStat.h"
#include "continuator/moQ3NeighborStat.h"
#include "continuator/moQuartilesNeighborStat.h"
#include "continuator/moSecondMomentNeighborStat.h"
#include "continuator/moSizeNeighborStat.h"
#include "continuator/moSolutionStat.h"
#include "continuator/moStat.h"
#include "continuator/moStatBase.h"
#include "continuator/moStatFromStat.h"
#include "continuator/moStdFitnessNeighborStat.h"
#include "continuator/moTimeContinuator.h"
#include "continuator/moTrueContinuator.h"
#include "continuator/moUnsignedStat.h"
#include "continuator/moUpdater.h"
#include "continuator/moValueParamContinuator.h"
#include "continuator/moValueStat.h"
#include "continuator/moVectorMonitor.h"
#include "coolingSchedule/moCoolingSchedule.h"
#include "coolingSchedule/moDynSpanCoolingSchedule.h"
#include "coolingSchedule/moSimpleCoolingSchedule.h"
#include "eval/moDoubleIncrEvaluation.h"
#include "eval/moDoubleIncrNeighborhoodEval.h"
#include "eval/moDummyEval.h"
#include "eval/moEval.h"
#include "eval/moEvalCounter.h"
#include "eval/moFullEvalByCopy.h"
#include "eval/moFullEvalByModif.h"
#include "eval/moNeighborhoodEvaluation.h"
#include "explorer/moDummyExplorer.h"
#include "explorer/moFirstImprHCexplorer.h"
#include "explorer/moILSexplorer.h"
#include "explorer/moMetropolisHastingExplorer.h"
#include "explorer/moNeighborhoodExplorer.h"
#include "explorer/moNeutralHCexplorer.h"
#include "explorer/moRandomBestHCexplorer.h"
#include "explorer/moRandomNeutralWalkExplorer.h"
#include "explorer/moRandomSearchExplorer.h"
#include "explorer/moRandomWalkExplorer.h"
#include "explorer/moSAexplorer.h"
#include "explorer/moSimpleHCexplorer.h"
#include "explorer/moTSexplorer.h"
#include "explorer/moVNSexplorer.h"
#include "memory/moAspiration.h"
#include "memory/moBestImprAspiration.h"
#include "memory/moCountMoveMemory.h"
#include "memory/moDiversification.h"
#include "memory/moDummyDiversification.h"
#include "memory/moDummyIntensification.h"
#include "memory/moDummyMemory.h"
#include "memory/moIndexedVectorTabuList.h"
#include "memory/moIntensification.h"
#include "memory/moMemory.h"
#include "memory/moMonOpDiversification.h"
#include "memory/moNeighborVectorTabuList.h"
#include "memory/moRndIndexedVectorTabuList.h"
#include "memory/moSolVectorTabuList.h"
#include "memory/moTabuList.h"
#include "mo.h"
#include "neighborhood/moBackableNeighbor.h"
#include "neighborhood/moBackwardVectorVNSelection.h"
#include "neighborhood/moDummyNeighbor.h"
#include "neighborhood/moDummyNeighborhood.h"
#include "neighborhood/moEvaluatedNeighborhood.h"
#include "neighborhood/moForwardVectorVNSelection.h"
#include "neighborhood/moIndexNeighbor.h"
#include "neighborhood/moIndexNeighborhood.h"
#include "neighborhood/moNeighbor.h"
#include "neighborhood/moNeighborhood.h"
#include "neighborhood/moOrderNeighborhood.h"
#include "neighborhood/moRndNeighborhood.h"
#include "neighborhood/moRndVectorVNSelection.h"
#include "neighborhood/moRndWithReplNeighborhood.h"
#include "neighborhood/moRndWithoutReplNeighborhood.h"
#include "neighborhood/moVariableNeighborhoodSelection.h"
#include "neighborhood/moVectorVNSelection.h"
#include "perturb/moLocalSearchInit.h"
#include "perturb/moMonOpPerturb.h"
#include "perturb/moNeighborhoodPerturb.h"
#include "perturb/moPerturbation.h"
#include "perturb/moRestartPerturb.h"
#include "perturb/moSolInit.h"
#include "problems/bitString/moBitFlipNeighborhood.h"
#include "problems/bitString/moBitNeighbor.h"
#include "problems/bitString/moBitsNeighbor.h"
#include "problems/bitString/moBitsNeighborhood.h"
#include "problems/bitString/moBitsWithReplNeighborhood.h"
#include "problems/bitString/moBitsWithoutReplNeighborhood.h"
#include "problems/eval/moMaxSATincrEval.h"
#include "problems/eval/moNKlandscapesBitsIncrEval.h"
#include "problems/eval/moNKlandscapesIncrEval.h"
#include "problems/eval/moOneMaxBitsIncrEval.h"
#include "problems/eval/moOneMaxIncrEval.h"
#include "problems/eval/moQAPIncrEval.h"
#include "problems/eval/moRoyalRoadIncrEval.h"
#include "problems/eval/moUBQPBitsIncrEval.h"
#include "problems/eval/moUBQPSimpleIncrEval.h"
#include "problems/partition/moBinaryPartition.h"
#include "problems/partition/moBinaryPartitionSwapNeighbor.h"
#include "problems/partition/moBinaryPartitionSwapNeighborhood.h"
#include "problems/permutation/moIndexedSwapNeighbor.h"
#include "problems/permutation/moShiftNeighbor.h"
#include "problems/permutation/moSwapNeighbor.h"
#include "problems/permutation/moSwapNeighborhood.h"
#include "problems/permutation/moTwoOptExNeighbor.h"
#include "problems/permutation/moTwoOptExNeighborhood.h"
#include "sampling/moAdaptiveWalkSampling.h"
#include "sampling/moAutocorrelationSampling.h"
#include "sampling/moDensityOfStatesSampling.h"
#include "sampling/moFDCsampling.h"
#include "sampling/moFitnessCloudSampling.h"
#include "sampling/moHillClimberSampling.h"
#include "sampling/moMHBestFitnessCloudSampling.h"
#include "sampling/moMHRndFitnessCloudSampling.h"
#include "sampling/moNeutralDegreeSampling.h"
#include "sampling/moNeutralWalkSampling.h"
#include "sampling/moRndBestFitnessCloudSampling.h"
#include "sampling/moRndRndFitnessCloudSampling.h"
#include "sampling/moSampling.h"
#include "sampling/moStatistics.h"
typedef eoBit<double> DBit; typedef eoInt<eoMinimizingFitness> DInt; typedef eoReal<eoMinimizingFitness> DReal; typedef moBitNeighbor<double> DNb; typedef moSwapNeighbor<DInt> DSwap; typedef moShiftNeighbor<DInt> DShift; typedef moIndexedSwapNeighbor<DInt> DISwap;
template class moAcceptanceCriterion<DNb>;
template class moAlwaysAcceptCrit<DNb>;
template class moBetterAcceptCrit<DNb>;
template class eoDummyMonOp<DBit>;
template class moDummyLS<DNb>;
template class moFirstImprHC<DNb>;
template class moILS<DNb>;
template class moLocalSearch<DNb>;
template class moMetropolisHasting<DNb>;
template class moNeutralHC<DNb>;
template class moRandomBestHC<DNb>;
template class moRandomNeutralWalk<DNb>;
template class moRandomSearch<DNb>;
template class moRandomWalk<DNb>;
template class moSA<DNb>;
template class moSimpleHC<DNb>;
template class moTS<DNb>;
template class moVNS<DNb>;
template class moComparator<double, double>;
template class moEqualNeighborComparator<DNb>;
template class moEqualSolComparator<DBit>;
template class moEqualSolNeighborComparator<DNb>;
template class moNeighborComparator<DNb>;
template class moSolComparator<DBit>;
template class moSolNeighborComparator<DNb>;
template class moAverageFitnessNeighborStat<DNb>;
template class moBestFitnessStat<DBit>;
template class moBestNoImproveContinuator<DNb>;
template class moBestSoFarStat<DBit>;
template class moBooleanStat<DBit>;
template class moCheckpoint<DNb>;
template class moCombinedContinuator<DNb>;
template class moContinuator<DNb>;
template class moCounterStat<DBit>;
template class moDistanceStat<DBit>;
template class moEvalsContinuator<DNb>;
template class moFitContinuator<DNb>;
template class moFitnessStat<DBit>;
template class moFullEvalContinuator<DNb>;
template class moIterContinuator<DNb>;
template class moMaxNeighborStat<DNb>;
template class moMedianNeighborStat<DNb>;
template class moMinNeighborStat<DNb>;
template class moMinusOneCounterStat<DBit>;
template class moNbInfNeighborStat<DNb>;
template class moNbSupNeighborStat<DNb>;
template class moNeighborBestStat<DNb>;
template class moNeighborEvalContinuator<DNb>;
template class moNeighborFitnessStat<DNb>;
template class moNeighborhoodStat<DNb>;
template class moNeutralDegreeNeighborStat<DNb>;
template class moQ1NeighborStat<DNb>;
template class moQ3NeighborStat<DNb>;
template class moQuartilesNeighborStat<DNb>;
template class moSecondMomentNeighborStat<DNb>;
template class moSizeNeighborStat<DNb>;
template class moSolutionStat<DBit>;
template class moStat<DBit, double>;
template class moStatBase<DBit>;
template class moStatFromStat<DBit, double>;
template class moStdFitnessNeighborStat<DNb>;
template class moTimeContinuator<DNb>;
template class moTrueContinuator<DNb>;
template class moUnsignedStat<DBit>;
template class moValueParamContinuator<DNb, double>;
template class moValueStat<DBit, double>;
template class moVectorMonitor<DBit>;
template class moCoolingSchedule<DBit>;
template class moDynSpanCoolingSchedule<DBit>;
template class moSimpleCoolingSchedule<DBit>;
template class moDoubleIncrEvaluation<DNb>;
template class moDoubleIncrNeighborhoodEval<DNb>;
template class moDummyEval<DNb>;
template class moEval<DNb>;
template class moEvalCounter<DNb>;
template class moFullEvalByCopy<DNb>;
template class moFullEvalByModif<DNb>;
template class moNeighborhoodEvaluation<DNb>;
template class moDummyExplorer<DNb>;
template class moFirstImprHCexplorer<DNb>;
template class moILSexplorer<DNb, DNb>;
template class moMetropolisHastingExplorer<DNb>;
template class moNeighborhoodExplorer<DNb>;
template class moNeutralHCexplorer<DNb>;
template class moRandomBestHCexplorer<DNb>;
template class moRandomNeutralWalkExplorer<DNb>;
template class moRandomSearchExplorer<DNb>;
template class moRandomWalkExplorer<DNb>;
template class moSAexplorer<DNb>;
template class moSimpleHCexplorer<DNb>;
template class moTSexplorer<DNb>;
template class moAspiration<DNb>;
template class moBestImprAspiration<DNb>;
template class moCountMoveMemory<DNb>;
template class moDiversification<DNb>;
template class moDummyDiversification<DNb>;
template class moDummyIntensification<DNb>;
template class moDummyMemory<DNb>;
template class moIndexedVectorTabuList<DNb>;
template class moIntensification<DNb>;
template class moMemory<DNb>;
template class moMonOpDiversification<DNb>;
template class moNeighborVectorTabuList<DNb>;
template class moRndIndexedVectorTabuList<DNb>;
template class moSolVectorTabuList<DNb>;
template class moTabuList<DNb>;
template class moBackableNeighbor<DBit>;
template class moBackwardVectorVNSelection<DBit>;
template class moDummyNeighbor<DBit>;
template class moDummyNeighborhood<DNb>;
template class moEvaluatedNeighborhood<DNb>;
template class moForwardVectorVNSelection<DBit>;
template class moIndexNeighbor<DBit>;
template class moIndexNeighborhood<DNb>;
template class moNeighbor<DBit>;
template class moNeighborhood<DNb>;
template class moOrderNeighborhood<DNb>;
template class moRndNeighborhood<DNb>;
template class moRndVectorVNSelection<DBit>;
template class moRndWithReplNeighborhood<DNb>;
template class moRndWithoutReplNeighborhood<DNb>;
template class moVariableNeighborhoodSelection<DBit>;
template class moVectorVNSelection<DBit>;
template class moLocalSearchInit<DNb>;
template class moMonOpPerturb<DNb>;
template class moNeighborhoodPerturb<DNb, DNb>;
template class moPerturbation<DNb>;
template class moRestartPerturb<DNb>;
template class moSolInit<DBit>;
template class moBitNeighbor<double>;
template class moBitsNeighbor<DBit>;
template class moBitsNeighborhood<DNb>;
template class moMaxSATincrEval<DNb>;
template class moNKlandscapesIncrEval<DNb>;
template class moOneMaxIncrEval<DNb>;
template class moQAPIncrEval<DShift>;
template class moRoyalRoadIncrEval<DNb>;
template class moUBQPSimpleIncrEval<DNb>;
template class moBinaryPartition<double>;
template class moIndexedSwapNeighbor<DInt>;
template class moShiftNeighbor<DBit>;
template class moSwapNeighbor<DBit>;
template class moSwapNeighborhood<DBit>;
template class moTwoOptExNeighbor<DInt>;
template class moTwoOptExNeighborhood<DBit>;
template class moAdaptiveWalkSampling<DNb>;
template class moAutocorrelationSampling<DNb>;
template class moDensityOfStatesSampling<DNb>;
template class moFDCsampling<DNb>;
template class moFitnessCloudSampling<DNb>;
template class moHillClimberSampling<DNb>;
template class moMHBestFitnessCloudSampling<DNb>;
template class moMHRndFitnessCloudSampling<DNb>;
template class moNeutralDegreeSampling<DNb>;
template class moNeutralWalkSampling<DNb>;
template class moRndBestFitnessCloudSampling<DNb>;
template class moRndRndFitnessCloudSampling<DNb>;
template class moSampling<DNb>;
typedef moBitsNeighbor<DBit> DBits;
template class moBitsWithoutReplNeighborhood<DBits>;
template class moBitsWithReplNeighborhood<DBits>;
template class moBitFlipNeighborhood<DBits>;
template class moOneMaxBitsIncrEval<DBits>;
template class moUBQPBitsIncrEval<DBits>;
template class moNKlandscapesBitsIncrEval<DBits>;

template void moVNSexplorer<DNb>::initParam(DBit&);
template void moVNSexplorer<DNb>::updateParam(DBit&);
template void moVNSexplorer<DNb>::terminate(DBit&);
template void moVNSexplorer<DNb>::operator()(DBit&);
template bool moVNSexplorer<DNb>::accept(DBit&);
template void moVNSexplorer<DNb>::move(DBit&);
template bool moVNSexplorer<DNb>::isContinue(DBit&);
template class moNeighborhoodExplorer<DSwap>;
template class moFullEvalByModif<DSwap>;
