// Motion plans and plan sequences.  The planners' sampled states are enumerated, the scene has an exact clearance function.
// LIBS: planning
// XF: -I/usr/include/ompl-1.5
#include "mc.hpp"
#include <cmath>
#include <cfloat>
#include <functional>
#include "amino.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_planning.h"
#include "amino/rx/mp_seq.h"
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/util/RandomNumbers.h>
#include <ompl/util/Console.h>
#include "amino/rx/ompl/scene_ompl.h"
using mc::choose; typedef std::vector<double> V; namespace ob=ompl::base;
extern "C" const char*__lsan_default_suppressions(){ return "leak:libompl\n"; }
/* A point moves in the plane: three sliding joints x, y, z (z only a little) carry a ball of radius RB; a third joint, which is not planned for, moves a ball of radius RO. */
static const double RB=.1,RO=.3,ZL=.05;
enum { FREE, BALL, GAP, WALL, NLAY };
struct Scene { struct aa_rx_sg*sg; struct aa_rx_sg_sub*sub; int layout,order; int cx,cy,cz,cm; aa_rx_frame_id fb,fo,fw[2]; double lo[2],hi[2]; size_t n;
    struct Box { double x0,x1,y0,y1; }; std::vector<Box> box; };
static Scene mk(int layout,int order,int lim){ Scene s; s.layout=layout; s.order=order; s.sg=aa_rx_sg_create(); double ex[3]={1,0,0},ey[3]={0,1,0}; double q0[4]={0,0,0,1};
    s.lo[0]=s.lo[1]=-1; s.hi[0]=1; s.hi[1]= lim? .5:1; struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o,1);
    const char*mn= order==1?"m":"zz"; auto mover=[&]{ aa_rx_sg_add_frame_prismatic(s.sg,"",mn,q0,NULL,"qm",ey,0); }; /* frames are numbered by name */
    if(order==1) mover();
    aa_rx_sg_add_frame_prismatic(s.sg,"","x",q0,NULL,"qx",ex,0); aa_rx_sg_add_frame_prismatic(s.sg,"x","y",q0,NULL,"qy",ey,0); double ez[3]={0,0,1}; aa_rx_sg_add_frame_prismatic(s.sg,"y","z",q0,NULL,"qz",ez,0); aa_rx_sg_set_limit_pos(s.sg,"qz",-ZL,ZL); if(order!=1) mover();
    aa_rx_sg_set_limit_pos(s.sg,"qx",s.lo[0],s.hi[0]); aa_rx_sg_set_limit_pos(s.sg,"qy",s.lo[1],s.hi[1]); aa_rx_sg_set_limit_pos(s.sg,"qm",-3,3);
    aa_rx_geom_attach(s.sg,"z",aa_rx_geom_sphere(o,RB)); if(layout==BALL) aa_rx_geom_attach(s.sg,mn,aa_rx_geom_sphere(o,RO));
    if(layout==GAP||layout==WALL){ double h= layout==WALL?2.:.7; for(int i=0;i<(layout==WALL?1:2);i++){ double c= layout==WALL?0:(i?.85:-.85); double t[3]={.25,c,0}; char nm[8]; snprintf(nm,8,"w%d",i); aa_rx_sg_add_frame_fixed(s.sg,"",nm,q0,t); double d[3]={.2,h*2,1}; if(layout==GAP) d[1]=1.1; aa_rx_geom_attach(s.sg,nm,aa_rx_geom_box(o,d)); s.box.push_back({.15,.35,c-d[1]/2,c+d[1]/2}); } }
    aa_rx_geom_opt_destroy(o); aa_rx_sg_init(s.sg); aa_rx_sg_cl_init(s.sg); s.n=aa_rx_sg_config_count(s.sg); s.cx=aa_rx_sg_config_id(s.sg,"qx"); s.cy=aa_rx_sg_config_id(s.sg,"qy"); s.cz=aa_rx_sg_config_id(s.sg,"qz"); s.cm=aa_rx_sg_config_id(s.sg,"qm"); s.fb=aa_rx_sg_frame_id(s.sg,"z"); s.fo=aa_rx_sg_frame_id(s.sg,mn); s.fw[0]=aa_rx_sg_frame_id(s.sg,"w0"); s.fw[1]=aa_rx_sg_frame_id(s.sg,"w1");
    s.sub=aa_rx_sg_chain_create(s.sg,AA_RX_FRAME_ROOT,s.fb); return s; }
static void rm(Scene&s){ aa_rx_sg_sub_destroy(s.sub); aa_rx_sg_destroy(s.sg); }
/* signed clearance of the ball to each obstacle: 0,1 boxes; 2 the other ball */
static double clear_of(const Scene&s,int k,double x,double y,double m,double z=0){ if(k==2) return s.layout==BALL? hypot(hypot(x,y-m),z)-RO-RB : 1e9; if(k>=(int)s.box.size()) return 1e9; auto&b=s.box[k]; double dx=std::max({b.x0-x,x-b.x1,0.}),dy=std::max({b.y0-y,y-b.y1,0.}); if(dx>0||dy>0) return hypot(dx,dy)-RB; return -RB-std::min({x-b.x0,b.x1-x,y-b.y0,b.y1-y}); }
static double clear(const Scene&s,unsigned allowed,double x,double y,double m,double z=0){ double c=1e9; for(int k=0;k<3;k++) if(!(allowed>>k&1)) c=std::min(c,clear_of(s,k,x,y,m,z)); return c; }
static aa_rx_frame_id frame_of(const Scene&s,int k){ return k==2?s.fo:s.fw[k]; }
/* enumerated sampler: the first samples are chosen, the others follow a fixed sequence */
static int g_free,g_used; static unsigned long g_seq;
static double rnd(){ g_seq^=g_seq<<13; g_seq^=g_seq>>7; g_seq^=g_seq<<17; return (double)(g_seq>>11)/9007199254740992.; }
struct Samp : public ob::StateSampler { Samp(const ob::StateSpace*s):ob::StateSampler(s){}
    void put(ob::State*st,double a,double b,bool clampto){ auto*rs=static_cast<const ob::RealVectorStateSpace*>(space_); auto&bd=rs->getBounds(); double*v=st->as<ob::RealVectorStateSpace::StateType>()->values; v[0]=bd.low[0]+a*(bd.high[0]-bd.low[0]); v[1]=bd.low[1]+b*(bd.high[1]-bd.low[1]); v[2]=.5*(bd.high[2]+bd.low[2])+(rnd()-.5)*(bd.high[2]-bd.low[2]); (void)clampto; }
    void next(double*a,double*b){ static const double G[][2]={{.5,.5},{.05,.95},{.95,.05},{.62,.5}}; if(g_used<g_free){ int k=choose(4,"sample"); g_used++; *a=G[k][0]; *b=G[k][1]; } else { *a=rnd(); *b=rnd(); } }
    void sampleUniform(ob::State*st) override { double a,b; next(&a,&b); put(st,a,b,false); }
    void sampleUniformNear(ob::State*st,const ob::State*near,double d) override { auto*rs=static_cast<const ob::RealVectorStateSpace*>(space_); const double*n=near->as<ob::RealVectorStateSpace::StateType>()->values; double*v=st->as<ob::RealVectorStateSpace::StateType>()->values; double a,b; next(&a,&b); v[0]=n[0]+(2*a-1)*d; v[1]=n[1]+(2*b-1)*d; v[2]=n[2]+(2*rnd()-1)*d; rs->enforceBounds(st); }
    void sampleGaussian(ob::State*st,const ob::State*m,double d) override { sampleUniformNear(st,m,2*d); } };
static struct aa_rx_mp*create(const Scene&s,int nfree){ ompl::msg::setLogLevel(ompl::msg::LOG_NONE); ompl::RNG::setSeed(7); g_free=nfree; g_used=0; g_seq=88172645463325252ul; struct aa_rx_mp*mp=aa_rx_mp_create(s.sub); aa_rx_mp_get_space_information(mp)->getStateSpace()->setStateSamplerAllocator([](const ob::StateSpace*q){ return ob::StateSamplerPtr(new Samp(q)); }); return mp; }
static const char*PN[]={"default","rrt-connect","rrt","sbl","kpiece"};
static void planner(struct aa_rx_mp*mp,int k){ if(k==1){ aa_rx_mp_set_rrt(mp,NULL); } else if(k==2){ struct aa_rx_mp_rrt_attr*a=aa_rx_mp_rrt_attr_create(); aa_rx_mp_rrt_attr_set_bidirectional(a,0); aa_rx_mp_set_rrt(mp,a); aa_rx_mp_rrt_attr_destroy(a); } else if(k==3){ struct aa_rx_mp_sbl_attr*a=aa_rx_mp_sbl_attr_create(); aa_rx_mp_set_sbl(mp,a); aa_rx_mp_sbl_attr_destroy(a); } else if(k==4){ struct aa_rx_mp_kpiece_attr*a=aa_rx_mp_kpiece_attr_create(); aa_rx_mp_set_kpiece(mp,a); aa_rx_mp_kpiece_attr_destroy(a); } }
/* reference state of the context */
struct Ref { V start; bool has_start=false; unsigned allowed=0; double goal[2]; bool has_goal=false; int wsg=0; bool simp=false; };
static const double STEP=.01*2.83; /* the planner examines motions in steps of one percent of the space's extent */
static void check_path(const Scene&s,const Ref&R,size_t np,double*P,int pl){ CHECK(np>=1&&P,"a plan without points"); const double*a=P,*e=P+(np-1)*s.n;
    for(size_t i=0;i<s.n;i++) CHECK(a[i]==R.start[i],"%s: the plan begins at %g,%g,%g instead of %g,%g,%g",PN[pl],a[s.cx],a[s.cy],a[s.cm],R.start[s.cx],R.start[s.cy],R.start[s.cm]);
    double tol= R.wsg?2e-2:(pl==2||1)?1e-9:0; CHECK(fabs(e[s.cx]-R.goal[0])<=tol&&fabs(e[s.cy]-R.goal[1])<=tol&&fabs(e[s.cz])<=tol,"%s: the plan ends at %g,%g instead of %g,%g",PN[pl],e[s.cx],e[s.cy],R.goal[0],R.goal[1]);
    for(size_t i=0;i<np;i++){ const double*q=P+i*s.n; CHECK(q[s.cm]==R.start[s.cm],"point %zu moves a joint that is not planned for: %g, start %g",i,q[s.cm],R.start[s.cm]); CHECK(q[s.cx]>=s.lo[0]-1e-9&&q[s.cx]<=s.hi[0]+1e-9&&q[s.cy]>=s.lo[1]-1e-9&&q[s.cy]<=s.hi[1]+1e-9&&fabs(q[s.cz])<=ZL+1e-9,"point %zu (%g,%g) lies outside the limits",i,q[s.cx],q[s.cy]); CHECK(clear(s,R.allowed,q[s.cx],q[s.cy],q[s.cm],q[s.cz])>(R.simp?-STEP:-1e-6),"%s: point %zu (%g,%g) collides",PN[pl],i,q[s.cx],q[s.cy]);
        if(i){ const double*p=q-s.n; double d=hypot(q[s.cx]-p[s.cx],q[s.cy]-p[s.cy]); int n=(int)(d/.01)+1; for(int k=1;k<n;k++){ double u=(double)k/n,c=clear(s,R.allowed,p[s.cx]+u*(q[s.cx]-p[s.cx]),p[s.cy]+u*(q[s.cy]-p[s.cy]),q[s.cm],p[s.cz]+u*(q[s.cz]-p[s.cz])); CHECK(c>-STEP,"%s: the motion from point %zu (%g,%g) to (%g,%g) goes %g into an obstacle",PN[pl],i-1,p[s.cx],p[s.cy],q[s.cx],q[s.cy],-c); } } }
    mc::state(mc::Hash()(np)(pl)); }
static V full(const Scene&s,double x,double y,double m){ V q(s.n); q[s.cx]=x; q[s.cy]=y; q[s.cm]=m; return q; }
static void set_start(struct aa_rx_mp*mp,const Scene&s,Ref&R,double x,double y,double m){ V q=full(s,x,y,m); aa_rx_mp_set_start(mp,s.n,q.data()); R.start=q; R.has_start=true; for(int k=0;k<3;k++) if(clear_of(s,k,x,y,m)<0) R.allowed|=1u<<k; }
static bool inside(const Scene&s,double x,double y){ return x>=s.lo[0]&&x<=s.hi[0]&&y>=s.lo[1]&&y<=s.hi[1]; }
static bool set_goal(struct aa_rx_mp*mp,const Scene&s,Ref&R,double x,double y){ double g[3]={x,y,0}; double m= R.has_start?R.start[s.cm]:0; int r=aa_rx_mp_set_goal(mp,3,g); bool bad=clear(s,R.allowed,x,y,m)<0; if(!inside(s,x,y)&&r==AA_RX_INVALID_STATE) return false; if(!R.has_start&&s.layout==BALL) bad=r!=AA_RX_OK; if(bad) CHECK(r==AA_RX_INVALID_STATE,"a goal in collision (%g,%g) is accepted (%d)",x,y,r); else { CHECK(r==AA_RX_OK,"a free goal (%g,%g) is rejected (%d)",x,y,r); R.goal[0]=x; R.goal[1]=y; R.has_goal=true; R.wsg=0; } return !bad; }
/* is the goal reachable for sure / unreachable for sure: 1, -1, otherwise 0 */
static int reach(const Scene&s,const Ref&R){ double x=R.start[s.cx],y=R.start[s.cy],m=R.start[s.cm]; (void)m; if(!inside(s,x,y)||!inside(s,R.goal[0],R.goal[1])) return -1; if(s.layout==WALL&&!(R.allowed&1)&&(x<.25)!=(R.goal[0]<.25)) return -1; return 1; }
static void plan(struct aa_rx_mp*mp,const Scene&s,const Ref&R,int pl){ bool ok= R.has_start&&R.has_goal; int rc= ok? reach(s,R):-1; if(rc>0&&(clear(s,R.allowed,R.goal[0],R.goal[1],R.start[s.cm])<0||clear(s,R.allowed,R.start[s.cx],R.start[s.cy],R.start[s.cm])<0)) rc=-1; size_t np=9; double*P=(double*)1; mc::step(); int r=aa_rx_mp_plan(mp,rc<0?.03:20,&np,&P); if(rc<0) CHECK(r!=AA_RX_OK&&np==0&&!P,"%s: a plan (%zu points) where there is none",PN[pl],np); if(rc>0) CHECK(r==AA_RX_OK,"%s: no plan (%d) for a simple problem",PN[pl],r); if(r==AA_RX_OK) check_path(s,R,np,P,pl); else CHECK(np==0&&!P,"a failed plan leaves points"); if(r==AA_RX_OK){ mc::nontrivial(mc::Hash()(np).bytes(P,np*s.n*sizeof(double))); free(P); } }
static const double SX[][2]={{-.8,-.6},{-.8,.4},{0,0},{.8,.3},{1.5,0},{-1,-1}};
static const double GX[][2]={{.8,-.5},{-.7,.45},{0,.1},{.25,.3},{1,.5},{1.2,0},{.25,0}};
/* one problem: all planners, layouts, starts and goals, with the first samples enumerated */
static void sp_one(){ bool T_=mc::thorough(); int lay=choose(NLAY,"layout"),order=choose(2,"joint order"); mc::split(); int pl=choose(5,"planner"),lim=choose(2,"limits"); int st=choose(6,"start"),go=choose(7,"goal"); double m= lay==BALL?(choose(2,"other joint")?1.:0.):.7; int simp=choose(2,"simplify"); Scene s=mk(lay,order,lim); { struct aa_rx_mp*mp=create(s,T_?2:1); struct D { struct aa_rx_mp*m; ~D(){ aa_rx_mp_destroy(m); } } d{mp}; Ref R; planner(mp,pl); if(simp){ aa_rx_mp_set_simplify(mp,1); R.simp=true; } set_start(mp,s,R,SX[st][0],SX[st][1],m); set_goal(mp,s,R,GX[go][0],GX[go][1]); plan(mp,s,R,pl); } rm(s); }
/* goals in the workspace, alone and mixed with goals in joint space */
static void set_ws(struct aa_rx_mp*mp,const Scene&s,Ref&R,int k){ static const double G[][3]={{.8,-.5,0},{-.7,.45,0},{.25,.3,0},{0,1.9,0},{.6,-.2,1}}; double E[7]={0,0,sin(G[k][2]/2),cos(G[k][2]/2),G[k][0],G[k][1],0}; aa_rx_frame_id f=s.fb; int r=aa_rx_mp_set_wsgoal(mp,1,k<2?&f:NULL,E,7); CHECK(r==AA_RX_OK,"workspace goal rejected"); R.goal[0]=G[k][0]; R.goal[1]= k==4?99:G[k][1]; R.has_goal=true; R.wsg=1; }
static void sp_ws(){ bool T_=mc::thorough(); int lay=choose(4,"layout"),pl=(int[]){0,1,3}[choose(3,"planner")],n=1+choose(T_?3:2,"operations"); mc::split(); Scene s=mk(lay,lay&1,0); { struct aa_rx_mp*mp=create(s,0); struct D { struct aa_rx_mp*m; ~D(){ aa_rx_mp_destroy(m); } } d{mp}; Ref R; planner(mp,pl); double m=lay==BALL?0:.7; if(choose(2,"start")) set_start(mp,s,R,-.8,-.6,m);
    for(int i=0;i<n;i++){ int k=choose(8,"operation"); if(k<5) set_ws(mp,s,R,k); else if(k==5) set_goal(mp,s,R,.8,-.5); else if(k==6) plan(mp,s,R,pl); else set_start(mp,s,R,.8,.3,lay==BALL?1.:m); } if(choose(2,"plan")) plan(mp,s,R,pl); } rm(s); }
/* plan sequences */
static void sp_seq(){ int n=choose(mc::thorough()?7:6,"plans"); struct aa_rx_sg*sg[3]; for(int i=0;i<3;i++){ sg[i]=aa_rx_sg_create(); for(int k=0;k<i+1;k++){ char b[8]; snprintf(b,8,"f%d",k); double e[3]={0,0,1}; aa_rx_sg_add_frame_revolute(sg[i],k?"f0":"",b,NULL,NULL,NULL,e,0); } aa_rx_sg_init(sg[i]); }
    struct E { int g; V p; size_t n; }; std::vector<E> ref; struct aa_rx_mp_seq*q=aa_rx_mp_seq_create(); size_t tot=0; auto same=[&]{ mc::step(); CHECK(aa_rx_mp_seq_count(q)==ref.size(),"%zu plans, expected %zu",aa_rx_mp_seq_count(q),ref.size()); CHECK(aa_rx_mp_seq_point_count(q)==tot,"%zu points, expected %zu",aa_rx_mp_seq_point_count(q),tot); for(size_t i=0;i<ref.size()+2;i++){ const struct aa_rx_sg*g=sg[0]; size_t np=77; const double*p=(double*)1; aa_rx_mp_seq_elt(q,i,&g,&np,&p); if(i>=ref.size()){ CHECK(!g&&!np&&!p,"a plan after the last"); continue; } CHECK(g==sg[ref[i].g],"plan %zu has another scene",i); CHECK(np==ref[i].n,"plan %zu has %zu points, expected %zu",i,np,ref[i].n); for(size_t k=0;k<ref[i].p.size();k++) CHECK(p[k]==ref[i].p[k],"plan %zu differs at %zu",i,k); } };
    same(); for(int i=0;i<n;i++){ int k=choose(9,"plan"); if(i==0) mc::split(); int g=k%3; size_t np= k/3==2?3:(size_t)(k/3); V p((g+1)*np); for(size_t j=0;j<p.size();j++) p[j]=100*i+(double)j+.5; ref.push_back({g,p,np}); aa_rx_mp_seq_append_all(q,sg[g],np,p.data()); tot+=np; for(auto&x:p) x=-1; same(); } mc::nontrivial(mc::Hash()(n)(tot)); aa_rx_mp_seq_destroy(q); for(auto g:sg) aa_rx_sg_destroy(g); }
/* histories on one context */
static void sp_hist(){ bool T_=mc::thorough(); int lay=choose(3,"layout"); int pl=choose(5,"planner"); int n=1+choose(4,"operations"); mc::split(); Scene s=mk(lay,lay&1,0); { struct aa_rx_mp*mp=create(s,0); struct D { struct aa_rx_mp*m; ~D(){ aa_rx_mp_destroy(m); } } d{mp}; Ref R; planner(mp,pl); double m=lay==BALL?0:.7;
    for(int i=0;i<n;i++){ switch(choose(T_?11:9,"operation")){ case 0: set_start(mp,s,R,-.8,-.6,m); break; case 1: set_start(mp,s,R,.8,.3,lay==BALL?1.:m); break; case 2: set_goal(mp,s,R,.8,-.5); break; case 3: set_goal(mp,s,R,0,.1); break; case 4: set_goal(mp,s,R,.25,.3); break;
        case 5: case 6: plan(mp,s,R,pl); break;
        case 7: { int k= lay==BALL?2:0; if(s.layout==FREE) break; aa_rx_mp_allow_collision(mp,s.fb,frame_of(s,k),1); R.allowed|=1u<<k; break; }
        case 8: { int k= lay==BALL?2:0; if(s.layout==FREE) break; aa_rx_mp_allow_collision(mp,frame_of(s,k),s.fb,0); R.allowed&=~(1u<<k); break; }
        case 9: planner(mp,pl=1+pl%4); break; case 10: set_start(mp,s,R,0,.1,m); break; } }
    plan(mp,s,R,pl); } rm(s); }
/* what is allowed and what is tracked: configurations declared valid do not move the joints that are not planned for */
static unsigned pairs(const Scene&s,const struct aa_rx_cl_set*c,const char*what){ unsigned m=0; aa_rx_frame_id nf=(aa_rx_frame_id)aa_rx_sg_frame_count(s.sg); for(aa_rx_frame_id i=0;i<nf;i++) for(aa_rx_frame_id j=0;j<i;j++) if(aa_rx_cl_set_get(c,i,j)){ int k=-1; for(int o=0;o<3;o++) if(o<(int)s.box.size()||(o==2&&s.layout==BALL)) if((i==s.fb&&j==frame_of(s,o))||(j==s.fb&&i==frame_of(s,o))) k=o; CHECK(k>=0,"%s holds frames %d and %d, which never touch",what,i,j); m|=1u<<k; } return m; }
static void sp_allow(){ bool T_=mc::thorough(); int lay=1+choose(2,"layout"); int n=1+choose(T_?5:4,"operations"),pl=choose(2,"planner"); mc::split(); Scene s=mk(lay,lay&1,0); { struct aa_rx_mp*mp=create(s,0); struct D { struct aa_rx_mp*m; ~D(){ aa_rx_mp_destroy(m); } } d{mp}; Ref R; planner(mp,pl); double m=lay==BALL?0:.7; bool track=false; unsigned maybe=0; int k= lay==BALL?2:0;
    auto conf=[&](double x,double y,double mm){ V q=full(s,x,y,mm); mc::step(); aa_rx_mp_allow_config(mp,s.n,q.data()); for(int o=0;o<3;o++) if(clear_of(s,o,x,y,mm)<0) R.allowed|=1u<<o; };
    for(int i=0;i<=n;i++){ switch(i==n?0:choose(11,"operation")){ case 0: { maybe=0; plan(mp,s,R,pl); maybe=~R.allowed; break; } case 1: set_start(mp,s,R,-.8,-.6,m); break; case 2: set_start(mp,s,R,.8,.3,lay==BALL?1.:m); break; case 3: set_goal(mp,s,R,.8,-.5); break; case 4: case 5: { double gx=i&1?.25:0,gy=i&1?.3:.1; bool had=track; unsigned hit=0; if(R.has_start) for(int o=0;o<3;o++) if(!(R.allowed>>o&1)&&clear_of(s,o,gx,gy,R.start[s.cm])<0) hit|=1u<<o; set_goal(mp,s,R,gx,gy); maybe|=~R.allowed; if(had&&hit) CHECK((pairs(s,aa_rx_mp_get_collisions(mp),"the tracked set")&hit)==hit,"a rejected goal's collision is not tracked"); break; }
        case 6: conf(-.8,.8,.5); break; case 7: conf(0,.1,0); break; case 8: conf(.8,-.5,-.5); break; case 9: track=!track; aa_rx_mp_set_track_collisions(mp,track); maybe=0; break;
        case 10: { int v=choose(2,"allow"); aa_rx_mp_allow_collision(mp,s.fb,frame_of(s,k),v); R.allowed=v?R.allowed|1u<<k:R.allowed&~(1u<<k); break; } }
        if(i<n||track){ const struct aa_rx_cl_set*c=aa_rx_mp_get_collisions(mp); CHECK(!c==!track,"collisions are %stracked but a set is %sgiven",track?"":"not ",c?"":"not "); if(c){ unsigned g=pairs(s,c,"the tracked set"); CHECK(!(g&~maybe),"tracked collisions %x with %x allowed",g,R.allowed); } }
        CHECK(pairs(s,aa_rx_mp_get_allowed(mp),"the allowed set")==R.allowed,"allowed pairs are %x, expected %x",pairs(s,aa_rx_mp_get_allowed(mp),""),R.allowed); }
    } rm(s); }
int main(int c,char**v){ return mc::run(c,v,"C28",{{"single problems",sp_one},{"histories",sp_hist},{"allowances",sp_allow},{"workspace goals",sp_ws},{"plan sequences",sp_seq}}); }
