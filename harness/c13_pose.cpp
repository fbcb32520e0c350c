// Rigid transforms: matrices, quaternion-translation pairs and dual quaternions agree with a reference pose under every operation.
#include "posemodel.hpp"
#include "amino.h"
#include "amino/mat.h"
extern "C" { void aa_tf_tfmat2qv(const double*,double*,double*); void aa_tf_qv_chainnorm(const double*,const double*,const double*,const double*,double*,double*); void aa_tf_duqu_vnorm(const double*,double*,double*); }
using mc::choose;
static const double T9=1e-9;
static V3 trs(int n,const char*l){ return from3(TRS[choose(n,l)]); }
static void one(const Rep&r){ const Pose&P=r.P; double o[4],o2[4]; Rep c=r;
    for(auto&p:PTS){ V3 e=P*from3(p); aa_tf_12(r.T,p,o); sameV(o,e,T9,"12"); aa_tf_93(r.T,r.T+9,p,o); sameV(o,e,T9,"93"); aa_tf_tfmat_tf(r.T,p,o); sameV(o,e,T9,"tfmat_tf"); aa_tf_tfmat2_tf(r.T,r.T+9,p,o); sameV(o,e,T9,"tfmat2_tf"); aa_tf_tf_qv(r.E,r.E+4,p,o); sameV(o,e,T9,"tf_qv"); aa_tf_qutr_tf(r.E,p,o); sameV(o,e,T9,"qutr_tf"); aa_tf_tf_duqu(r.S,p,o); sameV(o,e,T9,"tf_duqu"); aa_tf_duqu_tf(r.S,p,o); sameV(o,e,T9,"duqu_tf"); }
    double T[12],E[7],S[8];
    aa_tf_qutr2tfmat(r.E,T); sameT(T,P,T9,"qutr2tfmat"); aa_tf_qutr2duqu(r.E,S); sameS(S,P,T9,"qutr2duqu"); aa_tf_tfmat2qutr(r.T,E); sameE(E,P,1e-7,"tfmat2qutr"); aa_tf_tfmat2duqu(r.T,S); sameS(S,P,1e-7,"tfmat2duqu"); aa_tf_duqu2qutr(r.S,E); sameE(E,P,T9,"duqu2qutr"); aa_tf_duqu2tfmat(r.S,T); sameT(T,P,T9,"duqu2tfmat"); aa_tf_duqu2qv(r.S,o,o2); sameQV(o,o2,P,T9,"duqu2qv"); aa_tf_qv2duqu(r.E,r.E+4,S); sameS(S,P,T9,"qv2duqu"); aa_tf_qv2tfmat(r.E,r.E+4,T); sameT(T,P,T9,"qv2tfmat"); aa_tf_tfmat2qv(r.T,o,o2); sameQV(o,o2,P,1e-7,"tfmat2qv"); aa_tf_duqu_trans(r.S,o); sameV(o,P.t,T9,"duqu_trans");
    Pose I=inv(P); aa_tf_12inv(r.T,T); sameT(T,I,T9,"12inv"); aa_tf_93inv(r.T,r.T+9,T,T+9); sameT(T,I,T9,"93inv"); aa_tf_tfmat_inv2(r.T,T); sameT(T,I,T9,"tfmat_inv2"); memcpy(T,r.T,96); aa_tf_tfmat_inv1(T); sameT(T,I,T9,"tfmat_inv1"); aa_tf_qv_conj(r.E,r.E+4,o,o2); sameQV(o,o2,I,T9,"qv_conj"); aa_tf_qutr_conj(r.E,E); sameE(E,I,T9,"qutr_conj"); aa_tf_duqu_conj(r.S,S); sameS(S,I,T9,"duqu_conj"); memcpy(S,r.S,64); aa_tf_duqu_conj1(S); sameS(S,I,T9,"duqu_conj1");
    memcpy(S,r.S,64); aa_tf_duqu_minimize(S); sameS(S,P,T9,"duqu_minimize"); CHECK(S[3]>=0,"duqu_minimize: real scalar part %g",S[3]);
    CHECK(!memcmp(&c.T,&r.T,sizeof c.T)&&!memcmp(&c.E,&r.E,sizeof c.E)&&!memcmp(&c.S,&r.S,sizeof c.S),"an input was changed"); }
static void sp_one(){ V3 w=pick_rv(); mc::split(); Rep r=rep(w,trs(7,"translation"),choose(2,"sign")); mc::step(30); one(r); mc::nontrivial(mc::Hash().bytes(r.S,64)); mc::state(mc::Hash().bytes(r.T,96)); }
static void sp_pair(){ V3 w1=pick_rvs("first"); mc::split(); V3 w2=pick_rvs("second"); int n=mc::thorough()?7:4; V3 t1=trs(n,"t1"),t2=trs(n,"t2"); int sg=choose(mc::thorough()?4:2,"signs"); Rep a=rep(w1,t1,sg&1),b=rep(w2,t2,sg?sg>>1:0); Rep a0=a,b0=b; Pose C=a.P*b.P,D=inv(a.P)*b.P,F=a.P*inv(b.P); double T[12],E[7],S[8]; mc::step(16);
    aa_tf_12chain(a.T,b.T,T); sameT(T,C,T9,"12chain"); aa_tf_93chain(a.T,a.T+9,b.T,b.T+9,T,T+9); sameT(T,C,T9,"93chain"); aa_tf_tfmat_mul(a.T,b.T,T); sameT(T,C,T9,"tfmat_mul"); aa_tf_tfmat2_mul(a.T,a.T+9,b.T,b.T+9,T,T+9); sameT(T,C,T9,"tfmat2_mul"); aa_tf_qv_chain(a.E,a.E+4,b.E,b.E+4,E,E+4); sameE(E,C,T9,"qv_chain"); aa_tf_qv_chainnorm(a.E,a.E+4,b.E,b.E+4,E,E+4); sameE(E,C,T9,"qv_chainnorm"); aa_tf_qutr_mul(a.E,b.E,E); sameE(E,C,T9,"qutr_mul"); aa_tf_qutr_mulnorm(a.E,b.E,E); sameE(E,C,T9,"qutr_mulnorm"); aa_tf_duqu_mul(a.S,b.S,S); sameS(S,C,T9,"duqu_mul");
    aa_tf_93rel(a.T,a.T+9,b.T,b.T+9,T,T+9); sameT(T,D,T9,"93rel"); aa_tf_12rel(a.T,b.T,T); sameT(T,D,T9,"12rel"); aa_tf_qutr_cmul(a.E,b.E,E); sameE(E,D,T9,"qutr_cmul"); aa_tf_duqu_cmul(a.S,b.S,S); sameS(S,D,T9,"duqu_cmul"); aa_tf_qutr_mulc(a.E,b.E,E); sameE(E,F,T9,"qutr_mulc"); aa_tf_duqu_mulc(a.S,b.S,S); sameS(S,F,T9,"duqu_mulc");
    aa_tf_v12chain(T,a.T,b.T,NULL); sameT(T,C,T9,"v12chain"); aa_tf_v12chain(T,a.T,b.T,a.T,NULL); sameT(T,C*a.P,T9,"v12chain of three"); aa_tf_v12chain(T,b.T,a.T,b.T,b.T,NULL); sameT(T,b.P*C*b.P,T9,"v12chain of four");
    CHECK(!memcmp(a.T,a0.T,96)&&!memcmp(a.E,a0.E,56)&&!memcmp(a.S,a0.S,64)&&!memcmp(b.T,b0.T,96)&&!memcmp(b.E,b0.E,56)&&!memcmp(b.S,b0.S,64),"an input was changed");
    mc::nontrivial(mc::Hash().bytes(a.S,64).bytes(b.S,64)); }
/* words of operations: the three representations are driven by the same operations and conversions */
static void sp_words(){ int depth=mc::thorough()?5:4; V3 w=pick_rvs("start"); mc::split(); Rep r=rep(w,trs(3,"translation"),0); Rep k1=rep(v3(.3L,-.2L,2.1L),v3(1,2,3),0),k2=rep(v3(-PI_L+.01L,0,0),v3(-.5L,0,4),1); 
    for(int i=0;i<depth;i++){ int op=choose(7,"op"); mc::step(3); double T[12],E[7],S[8]; const Rep&k=op&1?k1:k2; switch(op){ case 0: case 1: aa_tf_tfmat_mul(r.T,k.T,T); aa_tf_qutr_mul(r.E,k.E,E); aa_tf_duqu_mul(r.S,k.S,S); r.P=r.P*k.P; break; case 2: case 3: aa_tf_tfmat_mul(k.T,r.T,T); aa_tf_qutr_mulnorm(k.E,r.E,E); aa_tf_duqu_mul(k.S,r.S,S); r.P=k.P*r.P; break; case 4: aa_tf_tfmat_inv2(r.T,T); aa_tf_qutr_conj(r.E,E); aa_tf_duqu_conj(r.S,S); r.P=inv(r.P); break; case 5: aa_tf_qutr2tfmat(r.E,T); aa_tf_duqu2qutr(r.S,E); aa_tf_tfmat2duqu(r.T,S); break; default: aa_tf_duqu2tfmat(r.S,T); aa_tf_tfmat2qutr(r.T,E); aa_tf_qutr2duqu(r.E,S); }
        memcpy(r.T,T,96); memcpy(r.E,E,56); memcpy(r.S,S,64); sameT(r.T,r.P,1e-7,"matrix"); properR(r.T,1e-7,"matrix"); sameE(r.E,r.P,1e-7,"quaternion-translation"); sameS(r.S,r.P,1e-7,"dual quaternion"); mc::state(mc::Hash().bytes(r.T,96)); }
    mc::nontrivial(mc::Hash().bytes(r.T,96)); }
/* dual quaternion algebra on arbitrary values */
static const double DA[][8]={{0,0,0,1,0,0,0,0},{1,0,0,0,0,2,0,0},{0,0,0,2,1,2,3,4},{1,2,3,4,5,6,7,8},{-1,.5,0,2,.25,-3,1,0},{.1,-.2,.3,-.4,4,3,2,1},{10,-20,30,1,.5,.5,-.5,2}};
struct D8 { Q4 r,d; }; static D8 d8(const double*p){ return {fromq(p),fromq(p+4)}; } static D8 operator*(D8 a,D8 b){ return {a.r*b.r,a.r*b.d+a.d*b.r}; } static D8 cj(D8 a){ return {qc(a.r),qc(a.d)}; }
static void same8(const double*p,D8 e,double tol,const char*w){ sameQ(p,e.r,tol,w); sameQ(p+4,e.d,tol,w); }
static void sp_alg(){ const auto&a=DA[choose(7,"a")]; mc::split(); const auto&b=DA[choose(7,"b")]; size_t ld=8+(size_t)choose(2,"pad"); D8 A=d8(a),B=d8(b); double c[8]; mc::step(12); const double t=1e-12;
    aa_tf_duqu_mul(a,b,c); same8(c,A*B,t,"duqu_mul"); aa_tf_duqu_cmul(a,b,c); same8(c,cj(A)*B,t,"duqu_cmul"); aa_tf_duqu_mulc(a,b,c); same8(c,A*cj(B),t,"duqu_mulc"); aa_tf_duqu_add(a,b,c); same8(c,{A.r+B.r,A.d+B.d},t,"duqu_add"); aa_tf_duqu_sub(a,b,c); same8(c,{A.r+(-1)*B.r,A.d+(-1)*B.d},t,"duqu_sub"); aa_tf_duqu_smul(-1.5,a,c); same8(c,{-1.5L*A.r,-1.5L*A.d},t,"duqu_smul"); aa_tf_duqu_conj(a,c); same8(c,cj(A),t,"duqu_conj");
    std::vector<double> M(7*ld+9); for(int l=0;l<2;l++) for(int k=0;k<2;k++){ for(auto&x:M) x=77; if(k==0) (l?aa_tf_duqu_matrix_l:aa_tf_duqu_matrix_r)(a,M.data(),ld); else { aa_dmat D=AA_DMAT_INIT(8,8,M.data(),ld); (l?aa_tf_duqu_mat_l:aa_tf_duqu_mat_r)(a,&D); } D8 e=l? A*B:B*A; for(size_t i=0;i<8;i++){ double s=0; for(size_t j=0;j<8;j++) s+=M[j*ld+i]*b[j]; LD x=i<4?e.r[(int)i]:e.d[(int)i-4]; NEAR(s,(double)x,1e-11,"dual quaternion product matrix"); } if(ld>8) for(size_t j=0;j<8;j++) CHECK(M[j*ld+8]==77,"wrote outside the matrix"); }
    { double J[64]; aa_dmat D=AA_DMAT_INIT(8,8,J,8); aa_tf_duqu_conj_jac(&D); for(int i=0;i<8;i++){ double s=0; for(int j=0;j<8;j++) s+=J[j*8+i]*a[j]; NEAR(s,(i%4==3?1:-1)*a[i],t,"conjugate matrix"); } }
    double nr,nd; LD rn=qn(A.r); LD rd=A.r[0]*A.d[0]+A.r[1]*A.d[1]+A.r[2]*A.d[2]+A.r[3]*A.d[3]; aa_tf_duqu_norm(a,&nr,&nd); NEAR(nr,(double)rn,t,"real norm"); NEAR(nd,(double)(rd/rn),t,"dual norm"); memcpy(c,a,64); aa_tf_duqu_normalize(c); sameQ(c,(1/rn)*A.r,t,"duqu_normalize"); sameQ(c+4,(1/rn)*A.d+(-rd/(rn*rn*rn))*A.r,t,"duqu_normalize: dual part");
    LD vn=nrm(v3(a[0],a[1],a[2])); if(vn>0){ aa_tf_duqu_vnorm(a,&nr,&nd); NEAR(nr,(double)vn,t,"real norm of the vector part"); NEAR(nd,(double)(dot(v3(a[0],a[1],a[2]),v3(a[4],a[5],a[6]))/vn),t,"dual norm of the vector part"); }
    double p[6]; aa_tf_duqu2pure(a,p); CHECK(!memcmp(p+AA_TF_DX_W,a,24)&&!memcmp(p+AA_TF_DX_V,a+4,24),"duqu2pure"); aa_tf_pure2duqu(p,c); CHECK(!memcmp(c,a,24)&&c[3]==0&&!memcmp(c+4,a+4,24)&&c[7]==0,"pure2duqu"); mc::nontrivial(mc::Hash().bytes(a,64).bytes(b,64)(ld)); }
/* a scaled or drifted dual quaternion normalises to a proper pose */
static void sp_norm(){ V3 w=pick_rv(); mc::split(); Rep r=rep(w,trs(7,"translation"),choose(2,"sign")); double k=mc::pick({1.,.5,3.,1e3},"scale"),g=mc::pick({0.,.3,-2.},"dual drift"); double S[8]; for(int i=0;i<8;i++) S[i]=k*r.S[i]; for(int i=0;i<4;i++) S[4+i]+=g*r.S[i]; mc::step(); aa_tf_duqu_normalize(S); sameS(S,r.P,T9,"duqu_normalize"); mc::nontrivial(mc::Hash().bytes(S,64)(k)(g)); }
static const LD DHA[]={0,PI_L/2,-PI_L/2,PI_L,.3L,-2,5}, DHL[]={0,1,-.5L,3};
static void sp_dh(){ LD al=mc::pick(DHA,"alpha"),ph=mc::pick(DHA,"phi"); mc::split(); LD a=mc::pick(DHL,"a"),d=mc::pick(DHL,"d"); Pose X={rexp(v3(al,0,0)),v3(a,0,0)},Z={rexp(v3(0,0,ph)),v3(0,0,d)}; Pose px=X*Z,ds=Z*X; double T[12],E[7],S[8],q[4],v[3]; double A=(double)al,L=(double)a,D=(double)d,F=(double)ph; mc::step(8);
    aa_tf_dhprox2tfmat(A,L,D,F,T); sameT(T,px,T9,"dhprox2tfmat"); aa_tf_dhprox2duqu(A,L,D,F,S); sameS(S,px,T9,"dhprox2duqu"); aa_tf_dhprox2qutr(A,L,D,F,E); sameE(E,px,T9,"dhprox2qutr"); aa_tf_dhprox2qv(A,L,D,F,q,v); sameQV(q,v,px,T9,"dhprox2qv");
    aa_tf_dhdist2tfmat(A,L,D,F,T); sameT(T,ds,T9,"dhdist2tfmat"); aa_tf_dhdist2duqu(A,L,D,F,S); sameS(S,ds,T9,"dhdist2duqu"); aa_tf_dhdist2qutr(A,L,D,F,E); sameE(E,ds,T9,"dhdist2qutr"); aa_tf_dhdist2qv(A,L,D,F,q,v); sameQV(q,v,ds,T9,"dhdist2qv");
    double x=(double)a,y=(double)d,z=1.5; aa_tf_xyz2duqu(x,y,z,S); sameS(S,{m3eye(),v3(x,y,z)},T9,"xyz2duqu"); aa_tf_xxyz2duqu(F,x,y,z,S); sameS(S,{rexp(v3(F,0,0)),v3(x,y,z)},T9,"xxyz2duqu"); aa_tf_yxyz2duqu(F,x,y,z,S); sameS(S,{rexp(v3(0,F,0)),v3(x,y,z)},T9,"yxyz2duqu"); aa_tf_zxyz2duqu(F,x,y,z,S); sameS(S,{rexp(v3(0,0,F)),v3(x,y,z)},T9,"zxyz2duqu"); mc::nontrivial(mc::Hash()(A)(L)(D)(F)); }
int main(int c,char**v){ return mc::run(c,v,"C13",{{"single",sp_one},{"pairs",sp_pair},{"words",sp_words},{"algebra",sp_alg},{"normalise",sp_norm},{"dh",sp_dh}}); }
