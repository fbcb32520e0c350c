// Collision and distance queries against certified distances of reference shapes.
// LIBS: collision
#include "shapemodel.hpp"
#include "amino/rx/scene_collision.h"
#include <cfloat>
#include <array>
using mc::choose;
typedef std::vector<double> V;
static const double CR[][3]={{0,0,0},{.4,-.9,.5},{0,1.5707963267948966,0},{3,.2,-.1},{0,0,.7853981633974483}};
static const double CT[][3]={{.05,.02,.03},{.7,.1,.05},{-.1,1.1,.2},{.3,-.2,-1.3},{2.5,1.5,-.7},{-.55,-.3,.35},{.2,.1,.75},{.9,.75,.6},{-1.05,.15,.1},{.1,-.6,-.1}};
struct Ctx { struct aa_rx_cl*cl; struct aa_rx_fk*fk; struct aa_rx_cl_dist*D; Ctx(struct aa_rx_sg*sg){ cl=aa_rx_cl_create(sg); fk=aa_rx_fk_malloc(sg); D=aa_rx_cl_dist_create(cl); } ~Ctx(){ aa_rx_cl_dist_destroy(D); aa_rx_fk_destroy(fk); aa_rx_cl_destroy(cl); } };
struct Body { std::string name; Solid s; };        /* frames with everything that collides on them */
struct World { Scene S; std::vector<Body> b; };
/* one configuration: all entry points against the reference. returns false if too close to call */
static bool judge(const World&W,struct aa_rx_sg*sg,Ctx&X,const Conf&c,int order){ size_t nf=aa_rx_sg_frame_count(sg),n=W.b.size(); V q=qvec(sg,c),A(9*nf),R(7*nf),E(7*nf); aa_rx_sg_tf(sg,q.size(),q.data(),nf,R.data(),7,E.data(),7); for(size_t i=0;i<nf;i++) for(int k=0;k<9;k++) A[9*i+(size_t)k]=k<7?E[7*i+(size_t)k]:99; struct aa_dvec d={q.size(),q.data(),1}; aa_rx_fk_all(X.fk,&d);
    std::vector<Pose> P; std::vector<int> id; for(auto&b:W.b){ P.push_back(W.S.abs(W.S.find(b.name),c)); id.push_back((int)aa_rx_sg_frame_id(sg,b.name.c_str())); } std::vector<Dist> D(n*n); std::vector<int> O(n*n); bool any=false; for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++){ D[i*n+j]=sdist(W.b[i].s,P[i],W.b[j].s,P[j]); int o=W.b[i].s.empty()||W.b[j].s.empty()?0:overlap(W.b[i].s,P[i],W.b[j].s,P[j],D[i*n+j]); if(o<0) return false; O[i*n+j]=o; any|=o; }
    auto check=[&](int way){ struct aa_rx_cl_set*S=aa_rx_cl_set_create(sg); mc::step(2); int r0=way?aa_rx_cl_check_fk(X.cl,X.fk,NULL):aa_rx_cl_check(X.cl,nf,A.data(),9,NULL),r=way?aa_rx_cl_check_fk(X.cl,X.fk,S):aa_rx_cl_check(X.cl,nf,A.data(),9,S); CHECK(!!r==any&&!!r0==any,"collision reported as %d and %d, expected %d",r0,r,any); size_t total=0,e=0; for(size_t i=0;i<nf;i++) for(size_t j=0;j<=i;j++) total+=!!aa_rx_cl_set_get(S,(int)i,(int)j); for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++){ int g=!!aa_rx_cl_set_get(S,id[i],id[j]); CHECK(g==O[i*n+j],"frames %s and %s: collision %d, expected %d (distance %Lg..%Lg)",W.b[i].name.c_str(),W.b[j].name.c_str(),g,O[i*n+j],D[i*n+j].lo,D[i*n+j].hi); e+=(size_t)O[i*n+j]; } CHECK(total==e,"%zu pairs reported, %zu expected",total,e); aa_rx_cl_set_destroy(S); };
    auto dist=[&]{ mc::step(); int r=aa_rx_cl_dist_check(X.D,X.fk); CHECK(!!r==any,"distance check reports collision %d, expected %d",r,any); for(size_t i=0;i<n;i++){ double best=DBL_MAX; int bi=-1; for(size_t j=0;j<n;j++) if(i!=j){ size_t a=std::max(i,j),b=std::min(i,j); const Dist&d=D[a*n+b]; double g=aa_rx_cl_dist_get_dist(X.D,id[i],id[j]); double p0[3],p1[3]; double g2=aa_rx_cl_dist_get_points(X.D,id[i],id[j],p0,p1); CHECK(g==g2,"distance of the points differs"); if(W.b[i].s.empty()||W.b[j].s.empty()){ CHECK(g==DBL_MAX,"distance %g of a frame without shapes",g); continue; } if(g<best){ best=g; bi=(int)j; } const char*na=W.b[i].name.c_str(),*nb=W.b[j].name.c_str(); if(O[a*n+b]){ CHECK(g<=0,"distance %g of overlapping frames %s, %s",g,na,nb); continue; }
                /* FCL 0.7 (libccd) overestimates the distance of a box to boxes and meshes with parallel features */ auto box=[&](size_t k){ for(auto&p:W.b[k].s) if(p.kind==0) return true; return false; }; bool loose=false; if(box(i)||box(j)){ M3 Q=tr(P[i].R)*P[j].R; for(auto&r:Q.a) for(LD x:r) loose|=fabsl(x)>.99L; } CHECK(g>=(double)d.lo-2e-3*(1+g)&&g<=(double)d.hi+2e-2*(1+g)+(loose?.5:0),"frames %s, %s: distance %.9g, expected %.9Lg",na,nb,g,d.hi); V3 x=from3(p0),y=from3(p1); LD tol=1e-3L; /* FCL places points on parallel features of boxes loosely */ for(size_t k:{i,j}) for(auto&p:W.b[k].s) if(p.kind==0) tol=.35L; CHECK(fabsl(nrm(x-y)-g)<2e-2L*(1+g)+(tol>.1L?tol:0),"frames %s, %s: closest points are %Lg apart, not %g",na,nb,nrm(x-y),g); CHECK(todist(W.b[i].s,P[i],x)<tol&&todist(W.b[j].s,P[j],y)<tol,"frames %s, %s: closest points are %Lg and %Lg off their shapes",na,nb,todist(W.b[i].s,P[i],x),todist(W.b[j].s,P[j],y)); }
            aa_rx_frame_id w=-7; double pts[6]; double m=aa_rx_cl_dist_get_min_dist(X.D,id[i],&w,pts),m2=aa_rx_cl_dist_get_min_dist(X.D,id[i],NULL,NULL); CHECK(m==best&&m2==best,"minimum distance %g of %s, expected %g",m,W.b[i].name.c_str(),best); if(bi>=0){ CHECK(aa_rx_cl_dist_get_dist(X.D,id[i],w)==best,"closest frame"); double p0[3],p1[3]; aa_rx_cl_dist_get_points(X.D,id[i],w,p0,p1); CHECK(!memcmp(pts,p0,24)&&!memcmp(pts+3,p1,24),"points of the closest frame"); } } };
    if(order&1){ dist(); check(0); check(1); } else { check(order>>1&1); dist(); check(!(order>>1&1)); } if(any||n>1) mc::state(mc::Hash().bytes(A.data(),8*A.size())(any)); return true; }
static void attach(World&W,struct aa_rx_sg*sg,const std::vector<std::array<int,3>>&gs){ /* frame, shape, collision flag */ struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); for(auto&g:gs){ Body&b=W.b[(size_t)g[0]]; aa_rx_geom_opt_set_collision(o,g[2]); aa_rx_geom_attach(sg,b.name.c_str(),geometry(g[1],o)); if(g[2]) for(auto&p:solid(g[1])) b.s.push_back(p); } aa_rx_geom_opt_destroy(o); aa_rx_sg_init(sg); aa_rx_sg_cl_init(sg); }
static const JT SLIDE={AA_RX_FRAME_PRISMATIC,{1,0,0},0,NULL},TURN={AA_RX_FRAME_REVOLUTE,{0,.6,.8},0,NULL},FIX={AA_RX_FRAME_FIXED,{0,0,0},0,NULL};
static void sp_pairs(){ bool T_=mc::thorough(); int a=choose(NSHAPE,"shape"),b=choose(NSHAPE,"shape"); mc::split(); int r=choose(5,"rotation"),g_=T_?6:4,t=choose(10+g_*g_*g_,"translation"),w=choose(T_?4:3,"frames"); double ct[3]; for(int k=0;k<3;k++) ct[k]=t<10?CT[t][k]:(double[]){-1.13,-.37,.29,.83,-.71,1.37}[(k==0?t-10:k==1?(t-10)/g_:(t-10)/g_/g_)%g_]+.01*k; World W; double br[3]={.3,.2,-.6},bt[3]={1,-2,.5}; W.S.add("base","",FIX,br,bt); const char*n0=w&1?"z":"p",*n1=w&1?"c":"q"; W.S.add(n0,"base",SLIDE,CR[r],ct); W.S.add(n1,w&2?n0:"base",SLIDE,NULL,NULL); if(w&2){ W.S.f.pop_back(); Pose I=inv(W.S.abs(1,{{n0,0}})); (void)I; W.S.add(n1,n0,SLIDE,CR[(r+1)%5],CT[(t+3)%10]); } W.b={{n0,{}},{n1,{}}}; SG sg(W.S.make()); attach(W,sg,{{0,a,1},{1,b,1}}); Ctx X(sg); bool ok=false; for(double x:{0.,.15,-.4}) ok|=judge(W,sg,X,{{n0,x},{n1,-.3*x}},r+t); if(ok) mc::nontrivial(mc::Hash()(a)(b)(r)(t)(w)); }
/* several shapes per frame, shapes that do not collide, empty frames; moving frames and interleaved contexts */
static void sp_many(){ bool T_=mc::thorough(); static const int SH[][6]={{0,1,2,3,7,8},{2,2,5,1,4,6},{7,7,7,1,1,3},{8,3,0,4,2,5}}; int set=choose(4,"shapes"),flags=choose(T_?64:16,"collision flags"); mc::split(); int top=choose(3,"topology"),lay=choose(4,"layout"); World W; const char*N[]={"s","e","k"}; for(int i=0;i<3;i++){ const char*par= top==0||i==0?"":top==1?N[i-1]:N[0]; W.S.add(N[i],par,i==1?TURN:SLIDE,CR[(lay+i)%5],CT[(2*lay+3*i)%10]); } W.S.add("none",N[2],FIX,NULL,CT[1]); W.b={{N[0],{}},{N[1],{}},{N[2],{}},{"none",{}}}; SG sg(W.S.make()); std::vector<std::array<int,3>> gs; for(int i=0;i<6;i++) gs.push_back({i%3,SH[set][i],T_?flags>>i&1:i<4?flags>>i&1:1}); attach(W,sg,gs); Ctx X(sg),Y(sg); static const double QQ[][3]={{0,0,0},{.8,1.2,-.5},{-1.5,2.5,.7},{.2,-.6,1.1}}; int k=0; bool ok=false; for(int i:{0,1,2,1,3,0,3,3,2}){ Conf c={{N[0],QQ[i][0]},{N[1],QQ[i][1]},{N[2],QQ[i][2]}}; ok|=judge(W,sg,k%3==2?Y:X,c,k); k++; } if(ok) mc::nontrivial(mc::Hash()(set)(flags)(top)(lay)); }
int main(int c,char**v){ return mc::run(c,v,"C25",{{"pairs of shapes",sp_pairs},{"many shapes",sp_many}}); }
