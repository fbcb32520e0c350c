// Collision pair sets and allowed pairs: closure of all set states under all operations; filtering of collisions and distances.
// LIBS: collision
#include "scenemodel.hpp"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include <cfloat>
using mc::choose;
typedef std::vector<double> V; typedef unsigned long long u64;
static int bit(int i,int j){ if(i<j) std::swap(i,j); return i*(i+1)/2+j; }
static struct aa_rx_sg*fixedscene(int n){ struct aa_rx_sg*sg=aa_rx_sg_create(); for(int i=0;i<n;i++) aa_rx_sg_add_frame_fixed(sg,"",std::string(1,(char)('a'+i)).c_str(),NULL,NULL); aa_rx_sg_init(sg); return sg; }
struct Set { struct aa_rx_cl_set*p; Set(const struct aa_rx_sg*sg):p(aa_rx_cl_set_create(sg)){} ~Set(){ aa_rx_cl_set_destroy(p); } Set(const Set&)=delete; };
static u64 mask(const struct aa_rx_cl_set*s,int n){ u64 m=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int v=aa_rx_cl_set_get(s,i,j); CHECK(v==0||v==1||v!=0,"value"); CHECK(!v==!aa_rx_cl_set_get(s,j,i),"pair (%d,%d) is in the set but (%d,%d) is not",i,j,j,i); if(v) m|=1ull<<bit(i,j); } return m; }
static void load(struct aa_rx_cl_set*s,int n,u64 m,int flip){ for(int i=0;i<n;i++) for(int j=0;j<=i;j++) if(m>>bit(i,j)&1){ if(flip) aa_rx_cl_set_set(s,j,i,5); else aa_rx_cl_set_set(s,i,j,1); } }
/* every state of two sets over n frames, every operation: together this covers all histories */
static void sp_sets(){ bool T_=mc::thorough(); int n=choose(T_?5:4,"frames"),np=n*(n+1)/2; int op=choose(4,"operation"); int i=0,j=0,v=0,self=choose(2,"same set"); if(op==0){ if(n==0) mc::skip(); i=choose(n,"i"); j=choose(n,"j"); v=choose(3,"value")-1; if(self) mc::skip(); } if(op==1&&self) mc::skip(); SG sg(fixedscene(n)); u64 N=1ull<<np; bool unary=op<2||self;
    if(!unary&&N*N>(1ull<<16)){ /* entries are independent; two arbitrary sets of 4 frames: all values of dst, src from all one- and two-pair sets and their complements */ std::vector<u64> src; for(int a=0;a<np;a++) for(int b=0;b<=a;b++){ u64 m=(1ull<<a)|(1ull<<b); src.push_back(m); src.push_back((N-1)&~m); } for(u64 b:src){ for(u64 a=0;a<N;a++){ Set A(sg),B(sg); load(A.p,n,a,0); load(B.p,n,b,1); mc::step(); if(op==2) aa_rx_cl_set_fill(A.p,B.p); else aa_rx_cl_set_merge(A.p,B.p); CHECK(mask(A.p,n)==(a|b)&&mask(B.p,n)==b,"%s of %llx into %llx gives %llx",op==2?"fill":"merge",b,a,mask(A.p,n)); } mc::state(mc::Hash()(n)(op)(b)); } mc::nontrivial(mc::Hash()(n)(op)); return; }
    for(u64 a=0;a<N;a++) for(u64 b=0;b<(unary?1:N);b++){ Set A(sg),B(sg); load(A.p,n,a,(int)(a&1)); load(B.p,n,b,(int)(b&1)); CHECK(mask(A.p,n)==a&&mask(B.p,n)==b,"set %llx reads as %llx",a,mask(A.p,n)); mc::step(); u64 e=a; struct aa_rx_cl_set*o=self?A.p:B.p; switch(op){ case 0: aa_rx_cl_set_set(A.p,i,j,v); e=v?a|1ull<<bit(i,j):a&~(1ull<<bit(i,j)); break; case 1: aa_rx_cl_set_clear(A.p); e=0; break; case 2: aa_rx_cl_set_fill(A.p,o); e=self?a:a|b; break; case 3: aa_rx_cl_set_merge(A.p,o); e=self?a:a|b; break; } u64 g=mask(A.p,n); CHECK(g==e,"operation %d on %llx and %llx gives %llx, not %llx",op,a,b,g,e); CHECK(mask(B.p,n)==b,"operation %d changed its source",op); mc::state(mc::Hash()(n)(a)(b)); } mc::nontrivial(mc::Hash()(n)(op)(i)(j)(v)(self)); }
/* filtering: frames z..w on prismatic joints, all inside one another at 0, apart at 10*(k+1) */
static const char*FN[]={"m","b","x","a"}; static const JT SLIDE={AA_RX_FRAME_PRISMATIC,{1,0,0},0,NULL};
struct Filt { int n; struct aa_rx_sg*sg; struct aa_rx_cl*cl; u64 sgm,clm; int id[4]; ~Filt(){ if(cl) aa_rx_cl_destroy(cl); if(sg) aa_rx_sg_destroy(sg); } };
static void geom(struct aa_rx_sg*sg,int k){ struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); double d[3]={1,1,1}; aa_rx_geom_attach(sg,FN[k],k%2?aa_rx_geom_box(o,d):aa_rx_geom_sphere(o,.5)); if(k==0) aa_rx_geom_attach(sg,FN[k],aa_rx_geom_sphere(o,.4)); aa_rx_geom_opt_destroy(o); }
static void ids(Filt&F){ for(int k=0;k<F.n;k++) F.id[k]=aa_rx_sg_frame_id(F.sg,FN[k]); }
static void recreate(Filt&F){ if(F.cl) aa_rx_cl_destroy(F.cl); aa_rx_sg_cl_init(F.sg); F.cl=aa_rx_cl_create(F.sg); F.clm=F.sgm; }
static u64 pairbit(int i,int j){ if(i<j) std::swap(i,j); return 1ull<<(i*(i-1)/2+j); }
static void verify(Filt&F,bool all){ int n=F.n; size_t nf=aa_rx_sg_frame_count(F.sg); for(int cm=0;cm<(1<<n);cm++){ if(!all&&cm!=(1<<n)-1&&cm!=3) continue; Conf c; for(int k=0;k<n;k++) c[FN[k]]=(cm>>k&1)?.05*k:10*(k+1); V q=qvec(F.sg,c),A(7*nf),R(7*nf); aa_rx_sg_tf(F.sg,q.size(),q.data(),nf,R.data(),7,A.data(),7); u64 hit=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if((cm>>i&1)&&(cm>>j&1)) hit|=pairbit(i,j); u64 e=hit&~F.clm; struct aa_rx_fk*fk=aa_rx_fk_malloc(F.sg); aa_rx_fk_all(fk,[&]{ static struct aa_dvec d; d.len=q.size(); d.data=q.data(); d.inc=1; return &d; }());
        for(int way=0;way<2;way++){ Set S(F.sg); mc::step(2); int r=way?aa_rx_cl_check_fk(F.cl,fk,S.p):aa_rx_cl_check(F.cl,nf,A.data(),7,S.p),r0=way?aa_rx_cl_check_fk(F.cl,fk,NULL):aa_rx_cl_check(F.cl,nf,A.data(),7,NULL); CHECK(!!r==!!e&&!!r0==!!e,"frames %x in one place, pairs %llx allowed: reported %d/%d",cm,F.clm,r,r0); u64 g=0; size_t total=0; for(size_t i=0;i<nf;i++) for(size_t j=0;j<=i;j++) total+=!!aa_rx_cl_set_get(S.p,(int)i,(int)j); for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(aa_rx_cl_set_get(S.p,F.id[i],F.id[j])) g|=pairbit(i,j); CHECK(g==e&&total==(size_t)__builtin_popcountll(e),"colliding pairs %llx reported, expected %llx (allowed %llx)",g,e,F.clm); mc::state(mc::Hash()(n)(cm)(F.clm)(F.sgm)); }
        struct aa_rx_cl_dist*D=aa_rx_cl_dist_create(F.cl); int r=aa_rx_cl_dist_check(D,fk); CHECK(!!r==!!e,"distance check reports %d for %llx",r,e); for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double d=aa_rx_cl_dist_get_dist(D,F.id[i],F.id[j]); CHECK(d==aa_rx_cl_dist_get_dist(D,F.id[j],F.id[i]),"distance is not symmetric"); if(F.clm&pairbit(i,j)) CHECK(d==DBL_MAX,"distance %g of an allowed pair",d); else CHECK((d<=0)==!!(hit&pairbit(i,j))&&d<DBL_MAX,"distance %g of pair %d %d",d,i,j); } aa_rx_cl_dist_destroy(D);
        if(cm==(1<<n)-1||all){ aa_rx_sg_cl_init(F.sg); Set S(F.sg); mc::step(); aa_rx_sg_get_collision(F.sg,q.size(),q.data(),S.p); u64 g=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(aa_rx_cl_set_get(S.p,F.id[i],F.id[j])) g|=pairbit(i,j); CHECK(g==(hit&~F.sgm),"aa_rx_sg_get_collision: %llx, expected %llx",g,hit&~F.sgm); } aa_rx_fk_destroy(fk); }
    aa_rx_sg_cl_init(F.sg); Set S(F.sg); aa_rx_sg_cl_set_copy(F.sg,S.p); u64 g=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(aa_rx_cl_set_get(S.p,F.id[i],F.id[j])) g|=pairbit(i,j); CHECK(g==F.sgm,"allowed pairs of the scene read as %llx, not %llx",g,F.sgm); }
static void sp_filter(){ bool T_=mc::thorough(); Filt F; F.cl=NULL; F.sg=NULL; F.n=2+choose(3,"frames"); int n=F.n,np=n*(n-1)/2; bool nest=choose(2,"nested"); u64 sgm,clm; if(np<=3||T_){ sgm=(u64)choose(1<<np,"scene pairs"); mc::split(); clm=(u64)choose(1<<np,"context pairs"); } else { sgm=(u64)choose(1<<np,"scene pairs"); mc::split(); clm=sgm^(u64)(choose(2,"differs")?21:0); }
    struct aa_rx_sg*sg=aa_rx_sg_create(); double z[3]={0,0,0}; if(nest) aa_rx_sg_add_frame_fixed(sg,"","k",NULL,z); for(int k=0;k<n;k++) aa_rx_sg_add_frame_prismatic(sg,nest?"k":"",FN[k],NULL,NULL,NULL,SLIDE.axis,0); for(int k=0;k<n;k++) geom(sg,k); aa_rx_sg_init(sg); F.sg=sg; F.sgm=0; ids(F); recreate(F); int w=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(sgm&pairbit(i,j)){ switch(w++%4){ case 0: aa_rx_sg_allow_collision_name(sg,FN[i],FN[j],1); break; case 1: aa_rx_sg_allow_collision_name(sg,FN[j],FN[i],1); break; case 2: aa_rx_sg_allow_collision(sg,F.id[i],F.id[j],1); break; case 3: aa_rx_sg_allow_collision(sg,F.id[j],F.id[i],1); break; } } F.sgm=sgm; recreate(F); for(int i=0;i<n;i++) for(int j=0;j<i;j++){ u64 b=pairbit(i,j); int v=!!(clm&b); if(v==!!(F.clm&b)) continue; switch(w++%4){ case 0: aa_rx_cl_allow(F.cl,F.id[i],F.id[j],v); break; case 1: aa_rx_cl_allow(F.cl,F.id[j],F.id[i],v); break; case 2: aa_rx_cl_allow_name(F.cl,FN[i],FN[j],v); break; case 3: aa_rx_cl_allow_name(F.cl,FN[j],FN[i],v); break; } } F.clm=clm;
    verify(F,true); int op=choose(6,"operation"); mc::step(); switch(op){ case 0: break; case 1: { u64 m=(u64)choose(T_&&np<=3?1<<np:4,"set"); if(!(T_&&np<=3)) m=m==0?0:m==1?1:m==2?(1ull<<np)-1:5&((1ull<<np)-1); Set S(sg); for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(m&pairbit(i,j)) aa_rx_cl_set_set(S.p,F.id[j],F.id[i],1); aa_rx_cl_allow_set(F.cl,S.p); F.clm|=m; break; } case 2: { int i=1+choose(n-1,"i"),j=choose(i,"j"),v=choose(2,"value"); aa_rx_sg_allow_collision(sg,F.id[j],F.id[i],v); F.sgm=v?F.sgm|pairbit(i,j):F.sgm&~pairbit(i,j); if(choose(2,"recreate")) recreate(F); break; } case 3: { struct aa_rx_sg*c=aa_rx_sg_copy(sg); if(F.cl){ aa_rx_cl_destroy(F.cl); F.cl=NULL; } aa_rx_sg_destroy(sg); F.sg=c; ids(F); recreate(F); break; }
        case 4: { int cm=choose(1<<n,"place"); aa_rx_sg_cl_init(sg); Conf c; for(int k=0;k<n;k++) c[FN[k]]=(cm>>k&1)?.05*k:10*(k+1); V q=qvec(sg,c); aa_rx_sg_allow_config(sg,q.size(),q.data()); for(int i=0;i<n;i++) for(int j=0;j<i;j++) if((cm>>i&1)&&(cm>>j&1)) F.sgm|=pairbit(i,j); recreate(F); break; } case 5: { int i=1+choose(n-1,"i"),j=choose(i,"j"),v=choose(2,"value"); aa_rx_cl_allow_name(F.cl,FN[j],FN[i],v); F.clm=v?F.clm|pairbit(i,j):F.clm&~pairbit(i,j); break; } } verify(F,false); mc::nontrivial(mc::Hash()(n)(nest)(sgm)(clm)(op)); }
int main(int c,char**v){ return mc::run(c,v,"C24",{{"sets",sp_sets},{"filtering",sp_filter}}); }
