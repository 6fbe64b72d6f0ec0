// Instantiates the class templates of /repo so that their bodies can be analysed; never run.
#include <eo>
#include <ga.h>
#include <mo>
#include <moeo>
#include "algo/moeoASEEA.h"
#include "algo/moeoAlgo.h"
#include "algo/moeoEA.h"
#include "algo/moeoEasyEA.h"
#include "algo/moeoIBEA.h"
#include "algo/moeoMOGA.h"
#include "algo/moeoNSGA.h"
#include "algo/moeoNSGAII.h"
#include "algo/moeoPLS1.h"
#include "algo/moeoPLS2.h"
#include "algo/moeoPopAlgo.h"
#include "algo/moeoPopLS.h"
#include "algo/moeoSEEA.h"
#include "algo/moeoSPEA2.h"
#include "algo/moeoUnifiedDominanceBasedLS.h"
#include "archive/moeo2DMinHypervolumeArchive.h"
#include "archive/moeoArchive.h"
#include "archive/moeoBoundedArchive.h"
#include "archive/moeoEpsilonHyperboxArchive.h"
#include "archive/moeoFitDivBoundedArchive.h"
#include "archive/moeoFixedSizeArchive.h"
#include "archive/moeoImprOnlyBoundedArchive.h"
#include "archive/moeoSPEA2Archive.h"
#include "archive/moeoUnboundedArchive.h"
#include "comparator/moeoAggregativeComparator.h"
#include "comparator/moeoComparator.h"
#include "comparator/moeoDiversityThenFitnessComparator.h"
#include "comparator/moeoEpsilonObjectiveVectorComparator.h"
#include "comparator/moeoFitnessComparator.h"
#include "comparator/moeoFitnessThenDiversityComparator.h"
#include "comparator/moeoGDominanceObjectiveVectorComparator.h"
#include "comparator/moeoObjectiveObjectiveVectorComparator.h"
#include "comparator/moeoObjectiveVectorComparator.h"
#include "comparator/moeoOneObjectiveComparator.h"
#include "comparator/moeoParetoDualObjectiveVectorComparator.h"
#include "comparator/moeoParetoObjectiveVectorComparator.h"
#include "comparator/moeoPtrComparator.h"
#include "comparator/moeoStrictObjectiveVectorComparator.h"
#include "comparator/moeoWeakObjectiveVectorComparator.h"
#include "continue/moeoDualHypContinue.h"
#include "continue/moeoHypContinue.h"
#include "core/MOEO.h"
#include "core/moeoBitVector.h"
#include "core/moeoDualRealObjectiveVector.h"
#include "core/moeoEvalFunc.h"
#include "core/moeoIntVector.h"
#include "core/moeoObjectiveVector.h"
#include "core/moeoObjectiveVectorTraits.h"
#include "core/moeoRealObjectiveVector.h"
#include "core/moeoRealVector.h"
#include "core/moeoScalarObjectiveVector.h"
#include "core/moeoVector.h"
#include "distance/moeoDistance.h"
#include "distance/moeoDistanceMatrix.h"
#include "distance/moeoEuclideanDistance.h"
#include "distance/moeoManhattanDistance.h"
#include "distance/moeoNormalizedDistance.h"
#include "distance/moeoObjSpaceDistance.h"
#include "diversity/moeoCrowdingDiversityAssignment.h"
#include "diversity/moeoDiversityAssignment.h"
#include "diversity/moeoDummyDiversityAssignment.h"
#include "diversity/moeoFrontByFrontCrowdingDiversityAssignment.h"
#include "diversity/moeoFrontByFrontSharingDiversityAssignment.h"
#include "diversity/moeoNearestNeighborDiversityAssignment.h"
#include "diversity/moeoSharingDiversityAssignment.h"
#include "explorer/moeoExhaustiveNeighborhoodExplorer.h"
#include "explorer/moeoFirstImprovingNeighborhoodExplorer.h"
#include "explorer/moeoNoDesimprovingNeighborhoodExplorer.h"
#include "explorer/moeoPopNeighborhoodExplorer.h"
#include "explorer/moeoSimpleSubNeighborhoodExplorer.h"
#include "explorer/moeoSubNeighborhoodExplorer.h"
#include "fitness/moeoAggregationFitnessAssignment.h"
#include "fitness/moeoBinaryIndicatorBasedFitnessAssignment.h"
#include "fitness/moeoConstraintFitnessAssignment.h"
#include "fitness/moeoCriterionBasedFitnessAssignment.h"
#include "fitness/moeoDominanceBasedFitnessAssignment.h"
#include "fitness/moeoDominanceCountFitnessAssignment.h"
#include "fitness/moeoDominanceCountRankingFitnessAssignment.h"
#include "fitness/moeoDominanceDepthFitnessAssignment.h"
#include "fitness/moeoDominanceRankFitnessAssignment.h"
#include "fitness/moeoDummyFitnessAssignment.h"
#include "fitness/moeoExpBinaryIndicatorBasedDualFitnessAssignment.h"
#include "fitness/moeoExpBinaryIndicatorBasedFitnessAssignment.h"
#include "fitness/moeoFitnessAssignment.h"
#include "fitness/moeoIndicatorBasedFitnessAssignment.h"
#include "fitness/moeoReferencePointIndicatorBasedFitnessAssignment.h"
#include "fitness/moeoScalarFitnessAssignment.h"
#include "fitness/moeoSingleObjectivization.h"
#include "fitness/moeoUnaryIndicatorBasedFitnessAssignment.h"
#include "hybridization/moeoDMLSGenUpdater.h"
#include "hybridization/moeoDMLSMonOp.h"
#include "metric/moeoAdditiveEpsilonBinaryMetric.h"
#include "metric/moeoContributionMetric.h"
#include "metric/moeoDistanceMetric.h"
#include "metric/moeoDualHyperVolumeDifferenceMetric.h"
#include "metric/moeoEntropyMetric.h"
#include "metric/moeoHyperVolumeDifferenceMetric.h"
#include "metric/moeoHyperVolumeMetric.h"
#include "metric/moeoHypervolumeBinaryMetric.h"
#include "metric/moeoMetric.h"
#include "metric/moeoNormalizedSolutionVsSolutionBinaryMetric.h"
#include "metric/moeoVecVsVecAdditiveEpsilonBinaryMetric.h"
#include "metric/moeoVecVsVecEpsilonBinaryMetric.h"
#include "metric/moeoVecVsVecMultiplicativeEpsilonBinaryMetric.h"
#include "replacement/moeoElitistReplacement.h"
#include "replacement/moeoEnvironmentalReplacement.h"
#include "replacement/moeoGenerationalReplacement.h"
#include "replacement/moeoReplacement.h"
#include "scalarStuffs/archive/moeoArchiveIndex.h"
#include "scalarStuffs/archive/moeoIndexedArchive.h"
#include "scalarStuffs/archive/moeoQuadTree.h"
#include "scalarStuffs/archive/moeoQuadTreeArchive.h"
#include "scalarStuffs/archive/moeoQuickUnboundedArchiveIndex.h"
#include "scalarStuffs/distance/moeoAchievementScalarizingFunctionDistance.h"
#include "scalarStuffs/distance/moeoAugmentedAchievementScalarizingFunctionDistance.h"
#include "scalarStuffs/distance/moeoAugmentedWeightedChebychevDistance.h"
#include "scalarStuffs/distance/moeoWeightedChebychevDistance.h"
#include "scalarStuffs/fitness/moeoAchievementFitnessAssignment.h"
#include "scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h"
#include "scalarStuffs/fitness/moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment.h"
#include "scalarStuffs/fitness/moeoAugmentedWeightedChebychevMetricFitnessAssignment.h"
#include "scalarStuffs/fitness/moeoMetricFitnessAssignment.h"
#include "scalarStuffs/fitness/moeoWeightedChebychevMetricFitnessAssignment.h"
#include "scalarStuffs/weighting/moeoAnytimeWeightStrategy.h"
#include "scalarStuffs/weighting/moeoAugmentedQexploreWeightStrategy.h"
#include "scalarStuffs/weighting/moeoDichoWeightStrategy.h"
#include "scalarStuffs/weighting/moeoDummyWeightStrategy.h"
#include "scalarStuffs/weighting/moeoFixedTimeBothDirectionWeightStrategy.h"
#include "scalarStuffs/weighting/moeoFixedTimeOneDirectionWeightStrategy.h"
#include "scalarStuffs/weighting/moeoQexploreWeightStrategy.h"
#include "scalarStuffs/weighting/moeoRandWeightStrategy.h"
#include "scalarStuffs/weighting/moeoVariableRefPointStrategy.h"
#include "scalarStuffs/weighting/moeoVariableWeightStrategy.h"
#include "selection/moeoDetArchiveSelect.h"
#include "selection/moeoDetTournamentSelect.h"
#include "selection/moeoExhaustiveUnvisitedSelect.h"
#include "selection/moeoNumberUnvisitedSelect.h"
#include "selection/moeoRandomSelect.h"
#include "selection/moeoRouletteSelect.h"
#include "selection/moeoSelectFromPopAndArch.h"
#include "selection/moeoSelectOne.h"
#include "selection/moeoSelectors.h"
#include "selection/moeoStochTournamentSelect.h"
#include "selection/moeoUnvisitedSelect.h"
#include "utils/moeoArchiveObjectiveVectorSavingUpdater.h"
#include "utils/moeoArchiveUpdater.h"
#include "utils/moeoAverageObjVecStat.h"
#include "utils/moeoBestObjVecStat.h"
#include "utils/moeoBinaryMetricSavingUpdater.h"
#include "utils/moeoBinaryMetricStat.h"
#include "utils/moeoConvertPopToObjectiveVectors.h"
#include "utils/moeoDominanceMatrix.h"
#include "utils/moeoFullEvalByCopy.h"
#include "utils/moeoObjVecStat.h"
#include "utils/moeoObjectiveVectorNormalizer.h"
typedef moeoRealObjectiveVector<moeoObjectiveVectorTraits> DOV; typedef moeoRealVector<DOV> DMR; typedef moeoBitVector<DOV> DMB; 
typedef moeoDualRealObjectiveVector<moeoObjectiveVectorTraits> DDOV; typedef moeoRealVector<DDOV> DMRD;
struct DMNb : public moIndexNeighbor<DMB, DOV> { void move(DMB& s) { s[0] = !s[0]; s.invalidate(); } void moveBack(DMB& s) { s[0] = !s[0]; } };
template class moeoASEEA<DMR>;
template class moeoEA<DMR>;
template class moeoEasyEA<DMR>;
template class moeoIBEA<DMR>;
template class moeoMOGA<DMR>;
template class moeoNSGA<DMR>;
template class moeoNSGAII<DMR>;
template class moeoPLS1<DMNb>;
template class moeoPLS2<DMNb>;
template class moeoPopAlgo<DMR>;
template class moeoSEEA<DMR>;
template class moeoSPEA2<DMR>;
template class moeoUnifiedDominanceBasedLS<DMNb>;
template class comp<DMR>;
template class moeoArchive<DMR>;
template class moeoBoundedArchive<DMR>;
template class moeoEpsilonHyperboxArchive<DMR>;
template class moeoFitDivBoundedArchive<DMR>;
template class moeoFixedSizeArchive<DMR>;
template class moeoImprOnlyBoundedArchive<DMR>;
template class moeoSPEA2Archive<DMR>;
template class moeoUnboundedArchive<DMR>;
template class moeoAggregativeComparator<DMR>;
template class moeoComparator<DMR>;
template class moeoDiversityThenFitnessComparator<DMR>;
template class moeoEpsilonObjectiveVectorComparator<DOV>;
template class moeoFitnessComparator<DMR>;
template class moeoFitnessThenDiversityComparator<DMR>;
template class moeoGDominanceObjectiveVectorComparator<DOV>;
template class moeoObjectiveObjectiveVectorComparator<DOV>;
template class moeoObjectiveVectorComparator<DOV>;
template class moeoOneObjectiveComparator<DMR>;
template class moeoParetoDualObjectiveVectorComparator<DDOV>;
template class moeoParetoObjectiveVectorComparator<DOV>;
template class moeoPtrComparator<DMR>;
template class moeoStrictObjectiveVectorComparator<DOV>;
template class moeoWeakObjectiveVectorComparator<DOV>;
template class moeoDualHypContinue<DMRD>;
template class moeoHypContinue<DMR>;
template class MOEO<DOV>;
template class moeoBitVector<DOV>;
template class moeoEvalFunc<DMR>;
template class moeoIntVector<DOV>;
template class moeoObjectiveVector<moeoObjectiveVectorTraits, double>;
template class moeoRealObjectiveVector<moeoObjectiveVectorTraits>;
template class moeoRealVector<DOV>;
template class moeoScalarObjectiveVector<moeoObjectiveVectorTraits, double>;
template class moeoVector<DOV, double>;
template class moeoDistance<DMR, double>;
template class moeoDistanceMatrix<DMR, double>;
template class moeoEuclideanDistance<DMR>;
template class moeoNormalizedDistance<DMR>;
template class moeoObjSpaceDistance<DMR>;
template class moeoCrowdingDiversityAssignment<DMR>;
template class moeoDummyDiversityAssignment<DMR>;
template class moeoFrontByFrontCrowdingDiversityAssignment<DMR>;
template class moeoFrontByFrontSharingDiversityAssignment<DMR>;
template class moeoNearestNeighborDiversityAssignment<DMR>;
template class moeoSharingDiversityAssignment<DMR>;
template class moeoExhaustiveNeighborhoodExplorer<DMNb>;
template class moeoFirstImprovingNeighborhoodExplorer<DMNb>;
template class moeoNoDesimprovingNeighborhoodExplorer<DMNb>;
template class moeoPopNeighborhoodExplorer<DMNb>;
template class moeoSimpleSubNeighborhoodExplorer<DMNb>;
template class moeoSubNeighborhoodExplorer<DMNb>;
template class moeoAggregationFitnessAssignment<DMR>;
template class moeoBinaryIndicatorBasedFitnessAssignment<DMR>;
template class moeoConstraintFitnessAssignment<DMR>;
template class moeoCriterionBasedFitnessAssignment<DMR>;
template class moeoDominanceBasedFitnessAssignment<DMR>;
template class moeoDominanceCountFitnessAssignment<DMR>;
template class moeoDominanceCountRankingFitnessAssignment<DMR>;
template class moeoDominanceDepthFitnessAssignment<DMR>;
template class moeoDominanceRankFitnessAssignment<DMR>;
template class moeoDummyFitnessAssignment<DMR>;
template class moeoExpBinaryIndicatorBasedFitnessAssignment<DMR>;
template class moeoIndicatorBasedFitnessAssignment<DMR>;
template class moeoReferencePointIndicatorBasedFitnessAssignment<DMR>;
template class moeoScalarFitnessAssignment<DMR>;
template class moeoSingleObjectivization<DMR>;
template class moeoUnaryIndicatorBasedFitnessAssignment<DMR>;
template class moeoDMLSGenUpdater<DMNb>;
template class moeoDMLSMonOp<DMNb>;
template class moeoAdditiveEpsilonBinaryMetric<DOV>;
template class moeoContributionMetric<DOV>;
template class moeoDistanceMetric<DMR>;
template class moeoDualHyperVolumeDifferenceMetric<DDOV>;
template class moeoEntropyMetric<DOV>;
template class moeoHyperVolumeDifferenceMetric<DOV>;
template class moeoHyperVolumeMetric<DOV>;
template class moeoHypervolumeBinaryMetric<DOV>;
template class moeoBinaryMetric<DMR, DMR, double>;
template class moeoSolutionUnaryMetric<DOV, double>;
template class moeoSolutionVsSolutionBinaryMetric<DOV, double>;
template class moeoUnaryMetric<double, double>;
template class moeoVectorUnaryMetric<DOV, double>;
template class moeoVectorVsVectorBinaryMetric<DOV, double>;
template class moeoNormalizedSolutionVsSolutionBinaryMetric<DOV, double>;
template class moeoVecVsVecAdditiveEpsilonBinaryMetric<DOV>;
template class moeoVecVsVecEpsilonBinaryMetric<DOV>;
template class moeoVecVsVecMultiplicativeEpsilonBinaryMetric<DOV>;
template class moeoElitistReplacement<DMR>;
template class moeoEnvironmentalReplacement<DMR>;
template class moeoGenerationalReplacement<DMR>;
template class moeoReplacement<DMR>;
template class moeoArchiveIndex<DMR>;
template class moeoIndexedArchive<DMR>;
template class moeoQuadTree<DMR>;
template class moeoQuadTreeArchive<DMR>;
template class moeoQuickUnboundedArchiveIndex<DMR>;
template class moeoAchievementScalarizingFunctionDistance<DMR>;
template class moeoAugmentedAchievementScalarizingFunctionDistance<DMR>;
template class moeoAugmentedWeightedChebychevDistance<DMR>;
template class moeoWeightedChebychevDistance<DMR>;
template class moeoAchievementFitnessAssignment<DMR>;
template class moeoAchievementScalarizingFunctionMetricFitnessAssignment<DMR>;
template class moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment<DMR>;
template class moeoAugmentedWeightedChebychevMetricFitnessAssignment<DMR>;
template class moeoMetricFitnessAssignment<DMR>;
template class moeoWeightedChebychevMetricFitnessAssignment<DMR>;
template class moeoAugmentedQexploreWeightStrategy<DMR>;
template class moeoDummyWeightStrategy<DMR>;
template class moeoFixedTimeBothDirectionWeightStrategy<DMR>;
template class moeoFixedTimeOneDirectionWeightStrategy<DMR>;
template class moeoVariableRefPointStrategy<DMR>;
template class moeoVariableWeightStrategy<DMR>;
template class moeoDetArchiveSelect<DMR>;
template class moeoDetTournamentSelect<DMR>;
template class moeoExhaustiveUnvisitedSelect<DMR>;
template class moeoNumberUnvisitedSelect<DMR>;
template class moeoRandomSelect<DMR>;
template class moeoRouletteSelect<DMR>;
template class moeoSelectFromPopAndArch<DMR>;
template class moeoSelectOne<DMR>;
template class moeoStochTournamentSelect<DMR>;
template class moeoUnvisitedSelect<DMR>;
template class moeoArchiveObjectiveVectorSavingUpdater<DMR>;
template class moeoArchiveUpdater<DMR>;
template class moeoAverageObjVecStat<DMR>;
template class moeoBestObjVecStat<DMR>;
template class moeoBinaryMetricSavingUpdater<DMR>;
template class moeoBinaryMetricStat<DMR>;
template class moeoConvertPopToObjectiveVectors<DMR>;
template class moeoDominanceMatrix<DMR>;
template class moeoFullEvalByCopy<DMNb>;
template class moeoObjVecStat<DMR>;

