// Instantiates the class templates of /repo so that their bodies can be analysed; never run.
#include <eo>
#include <ga.h>
#include <es.h>
#include <mo>
#include <edo>
#include <edoEDASA.h>
#include "edoAlgo.h"
#include "edoAlgoAdaptive.h"
#include "edoAlgoStateless.h"
#include "edoBinomial.h"
#include "edoBinomialMulti.h"
#include "edoBounder.h"
#include "edoBounderBound.h"
#include "edoBounderNo.h"
#include "edoBounderRng.h"
#include "edoBounderUniform.h"
#include "edoCombinedContinue.h"
#include "edoContAdaptiveFinite.h"
#include "edoContAdaptiveIllCovar.h"
#include "edoContinue.h"
#include "edoDistrib.h"
#include "edoDistribReset.h"
#include "edoEstimator.h"
#include "edoEstimatorAdaptive.h"
#include "edoEstimatorAdaptiveEdit.h"
#include "edoEstimatorAdaptiveReset.h"
#include "edoEstimatorBinomial.h"
#include "edoEstimatorBinomialMulti.h"
#include "edoEstimatorCombined.h"
#include "edoEstimatorNormalAdaptive.h"
#include "edoEstimatorNormalMono.h"
#include "edoEstimatorNormalMulti.h"
#include "edoEstimatorUniform.h"
#include "edoModifier.h"
#include "edoModifierDispersion.h"
#include "edoModifierMass.h"
#include "edoNormalAdaptive.h"
#include "edoNormalMono.h"
#include "edoNormalMonoCenter.h"
#include "edoNormalMulti.h"
#include "edoNormalMultiCenter.h"
#include "edoRepairer.h"
#include "edoRepairerApply.h"
#include "edoRepairerDispatcher.h"
#include "edoRepairerModulo.h"
#include "edoRepairerRound.h"
#include "edoSampler.h"
#include "edoSamplerBinomial.h"
#include "edoSamplerBinomialMulti.h"
#include "edoSamplerNormalAdaptive.h"
#include "edoSamplerNormalMono.h"
#include "edoSamplerNormalMulti.h"
#include "edoSamplerUniform.h"
#include "edoTransform.h"
#include "edoUniform.h"
#include "edoUniformCenter.h"
#include "edoVectorBounds.h"
#include "utils/edoCheckPoint.h"
#include "utils/edoCholesky.h"
#include "utils/edoFileSnapshot.h"
#include "utils/edoHyperVolume.h"
#include "utils/edoPopStat.h"
#include "utils/edoStat.h"
#include "utils/edoStatNormalMono.h"
#include "utils/edoStatNormalMulti.h"
#include "utils/edoStatUniform.h"
typedef eoReal<eoMinimizingFitness> DReal; typedef eoBit<double> DBit; typedef edoNormalMulti<DReal> DNM; typedef edoNormalMono<DReal> DN1; typedef edoUniform<DReal> DU; typedef edoBinomial<DBit> DBi; typedef edoNormalAdaptive<DReal> DNA; typedef edoBinomialMulti<DBit> DBM;
typedef moDummyNeighbor<DReal> DDNb;
template class edoAlgo<DNM>;
template class edoAlgoAdaptive<DNM>;
template class edoAlgoStateless<DNM>;
template class edoBinomial<DReal>;
template class edoBounder<DReal>;
template class edoBounderBound<DReal>;
template class edoBounderNo<DReal>;
template class edoBounderRng<DReal>;
template class edoBounderUniform<DReal>;
template class edoCombinedContinue<DNM>;
template class edoContAdaptiveFinite<DNA>;
template class edoContAdaptiveIllCovar<DNA>;
template class edoContinue<DNM>;
template class edoDummyContinue<DNM>;
template class edoDistrib<DReal>;
template class edoDistribReset<DNA>;
template class edoEDASA<DNM>;
template class edoEstimator<DNM>;
template class edoEstimatorAdaptive<DNM>;
template class edoEstimatorAdaptiveEdit<DNM>;
template class edoEstimatorAdaptiveReset<DNA>;
template class edoEstimatorBinomial<DReal>;
template class edoEstimatorCombinedAdaptive<DNM>;
template class edoEstimatorCombinedStateless<DNM>;
template class edoEstimatorNormalAdaptive<DReal>;
template class edoEstimatorNormalMono<DReal>;
template class edoEstimatorNormalMulti<DReal>;
template class edoEstimatorUniform<DReal>;
template class edoModifier<DNM>;
template class edoModifierDispersion<DNM>;
template class edoModifierMass<DNM>;
template class edoNormalAdaptive<DReal>;
template class edoNormalMono<DReal>;
template class edoNormalMonoCenter<DReal>;
template class edoNormalMulti<DReal>;
template class edoRepairer<DReal>;
template class edoRepairerApply<DReal>;
template class edoRepairerApplyBinary<DReal>;
template class edoRepairerApplyUnary<DReal>;
template class edoRepairerDispatcher<DReal>;
template class edoRepairerModulo<DReal>;
template class edoRepairerCeil<DReal>;
template class edoRepairerFloor<DReal>;
template class edoRepairerRound<DReal>;
template class edoRepairerRoundDecimals<DReal>;
template class edoSampler<DNM>;
template class edoSamplerBinomial<DReal>;
template class edoSamplerNormalAdaptive<DReal>;
template class edoSamplerNormalMono<DReal>;
template class edoSamplerNormalMulti<DReal>;
template class edoSamplerUniform<DReal>;
template class edoTransform<DNM>;
template class edoUniform<DReal>;
template class edoUniformCenter<DReal>;
template class edoVectorBounds<DReal>;
template class edoCheckPoint<DNM>;
template class edoHyperVolume<DReal>;
template class edoPopStat<DReal>;
template class edoDistribStat<DNM>;
template class edoStat<DNM, double>;
template class edoStatBase<DNM>;
template class edoStatNormalMulti<DReal>;

