// Instantiates the class templates of /repo so that their bodies can be analysed; never run.
#include <eo>
#include <es.h>
#include <ga.h>
#include <smp>
#include "MWAlgo/MWAlgo.h"
#include "MWModel.h"
#include "PPExpander.h"
#include "abstractIsland.h"
#include "algoDispatching.h"
#include "bimap.h"
#include "contDispatching.h"
#include "contWrapper.h"
#include "intPolicy.h"
#include "island.h"
#include "islandModel.h"
#include "islandModelWrapper.h"
#include "islandNotifier.h"
#include "migPolicy.h"
#include "notifier.h"
#include "policiesDispatching.h"
#include "policyElement.h"
#include "scheduler.h"
#include "sharedFitContinue.h"
#include "smp.h"
#include "topology/abstractTopology.h"
#include "topology/complete.h"
#include "topology/customBooleanTopology.h"
#include "topology/customStochasticTopology.h"
#include "topology/hypercubic.h"
#include "topology/mesh.h"
#include "topology/ring.h"
#include "topology/star.h"
#include "topology/topology.h"
#include "topology/topologyBuilder.h"
typedef eoReal<eoMinimizingFitness> DReal; typedef eoBit<double> DBit;
using namespace paradiseo::smp;
typedef eoRealParticle<double> DPart;
template class paradiseo::smp::Scheduler<DReal, paradiseo::smp::LinearPolicy>;
template class paradiseo::smp::Scheduler<DReal, paradiseo::smp::ProgressivePolicy>;
inline void drv_pe(eoSelect<DReal>& s, eoContinue<DReal>& c, eoPop<DReal>& p) { PolicyElement<DReal> pe(s, c); pe(p); pe.getSelect(); }
template class paradiseo::smp::AIsland<DReal>;
template class paradiseo::smp::IslandModel<DReal>;
template class paradiseo::smp::IslandNotifier<DReal>;
template class paradiseo::smp::ContWrapper<DReal, DReal>;
template class paradiseo::smp::SharedFitContinue<DReal>;
inline void drv_bimap(Bimap<unsigned, AIsland<DReal>*>& b, AIsland<DReal>* i) { unsigned k = 0; b.add(k, i); b.getLeft(); b.getRight(); b.size(); b.empty(); }
template class paradiseo::smp::Topology<paradiseo::smp::Complete>;
template class paradiseo::smp::Topology<paradiseo::smp::Ring>;
template class paradiseo::smp::Topology<paradiseo::smp::Star>;
template class paradiseo::smp::Topology<paradiseo::smp::Mesh>;
template class paradiseo::smp::Topology<paradiseo::smp::Hypercubic>;
inline void drv_mw_ea(eoContinue<DReal>& c, eoEvalFunc<DReal>& e, eoSelect<DReal>& s, eoTransform<DReal>& t, eoReplacement<DReal>& r, eoPop<DReal>& p)
{ MWModel<eoEasyEA, DReal> mw(c, e, s, t, r); mw(p); mw.evaluate(p); MWModel<eoEasyEA, DReal, ProgressivePolicy> mp(2, c, e, s, t, r); mp(p); }
inline void drv_mw_pso(eoContinue<DPart>& c, eoEvalFunc<DPart>& e, eoVelocity<DPart>& v, eoFlight<DPart>& f, eoPop<DPart>& p)
{ MWModel<eoSyncEasyPSO, DPart> m(c, e, v, f); m(p); MWModel<eoEasyPSO, DPart> m2(c, e, v, f); m2(p); }
inline void drv_island(eoContinue<DReal>& c, eoEvalFunc<DReal>& e, eoSelect<DReal>& s, eoTransform<DReal>& t, eoReplacement<DReal>& r, eoPop<DReal>& p, eoReplacement<DReal>& ip, MigPolicy<DReal>& mp)
{ Island<eoEasyEA, DReal> i(p, ip, mp, c, e, s, t, r); i(); i.setRunning(); i.isStopped(); i.getPop(); i.update(eoPop<DReal>()); }
