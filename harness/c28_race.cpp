// The planner thread measures distances to a workspace goal while the goal sampling thread checks validity: every schedule of the scratch memory accesses.
// VARIANT: sched
// LIBS: planning
// XF: -I/usr/include/ompl-1.5
// EXTRA: vsched.cpp?-std=c++17 @REPO@/src/mem.c?CLANG
#include "vsched.hpp"
#include "amino.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_planning.h"
#include "amino/rx/ompl/scene_state_space.h"
#include "amino/rx/ompl/scene_state_validity_checker.h"
#include "amino/rx/ompl/scene_workspace_goal.h"
#include "amino/rx/ompl/scene_ompl_internal.h"
#include <ompl/util/Console.h>
using mc::choose;
static const double Q[][2]={{-.8,-.6},{.1,.1},{.5,.9},{0,0}};
static void sp(){ ompl::msg::setLogLevel(ompl::msg::LOG_NONE); bool T_=mc::thorough(); int a=choose(4,"first"),b=choose(4,"second"),m=1+choose(2,"distances"); mc::split(); double ex[3]={1,0,0},ey[3]={0,1,0},q0[4]={0,0,0,1};
    vs::begin(T_?3:2,vs::ACCESS);
    struct aa_rx_sg*sg=NULL; struct aa_rx_sg_sub*sub=NULL; struct aa_rx_mp*mp=NULL; vs::spawn([&]{ sg=aa_rx_sg_create(); struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); aa_rx_sg_add_frame_prismatic(sg,"","x",q0,NULL,"qx",ex,0); aa_rx_sg_add_frame_prismatic(sg,"x","y",q0,NULL,"qy",ey,0); aa_rx_sg_set_limit_pos(sg,"qx",-1,1); aa_rx_sg_set_limit_pos(sg,"qy",-1,1); aa_rx_geom_attach(sg,"y",aa_rx_geom_sphere(o,.1)); aa_rx_sg_add_frame_fixed(sg,"","o",q0,NULL); aa_rx_geom_attach(sg,"o",aa_rx_geom_sphere(o,.3)); aa_rx_geom_opt_destroy(o); aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg);
    sub=aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"y")); mp=aa_rx_mp_create(sub); double s0[2]={-.9,-.9},E[7]={0,0,0,1,.5,.5,0}; aa_rx_mp_set_start(mp,2,s0); aa_rx_mp_set_wsgoal(mp,1,NULL,E,7); mp->lazy_samples->setStart(2,s0); }); vs::run();
    auto si=mp->space_information; auto*sa=si->allocTypedState(),*sb=si->allocTypedState(); for(int i=0;i<2;i++){ sa->values[i]=Q[a][i]; sb->values[i]=Q[b][i]; }
    double dref=hypot(Q[b][0]-.5,Q[b][1]-.5); bool vref=hypot(Q[a][0],Q[a][1])>.4; double d[2]={-1,-1}; int v[2]={-1,-1};
    vs::spawn([&]{ v[0]=si->isValid(sa); v[1]=si->isValid(sa); }); vs::spawn([&]{ for(int i=0;i<m;i++) d[i]=mp->lazy_samples->distanceGoal(sb); }); vs::run(); mc::step();
    for(int i=0;i<m;i++) CHECK(fabs(d[i]-dref)<1e-12,"distance to the goal %g, expected %g",d[i],dref); for(int i=0;i<2;i++) CHECK(v[i]==(int)vref,"validity %d, expected %d",v[i],vref); mc::nontrivial(mc::Hash()(a)(b)(m)(vs::preemptions()));
    si->freeState(sa); si->freeState(sb); si.reset(); vs::spawn([&]{ aa_rx_mp_destroy(mp); aa_rx_sg_sub_destroy(sub); aa_rx_sg_destroy(sg); }); vs::run(); vs::end(); }
int main(int c,char**v){ return mc::run(c,v,"C28",{{"distance and validity",sp}}); }
