// Rotation representations: every conversion, product, inverse and action over a rotation alphabet against an independent long double model.
#include "rotmodel.hpp"
#include "amino.h"
extern "C" { void aa_tf_qmulc_v(const double*,const double*,double*); void aa_tf_qmul_a(const double*,const double*,double*); void aa_tf_qmul_qv_v(const double*,const double*,double*); void aa_tf_normalize2(const double*,double*); double aa_tf_qvnorm(const double*); void aa_tf_skew_sym(const double*,double*); void aa_tf_skew_sym1(double,const double*,double*); void aa_tf_unskewsym_scal(double,const double*,double*); void aa_tf_unskewsym(const double*,double*); void aa_tf_rotmat_angle(const double*,double*,double*,double*); void aa_tf_axang_permute2(const double*,double*,double*); void aa_tf_relx(size_t,const double*,const double*,size_t,const double*,size_t,double*,size_t); }
using mc::choose;
static void keep(const double*p,const double*o,size_t n,const char*w){ CHECK(!memcmp(p,o,n*8),"%s: input changed",w); }
static M3 axmat(const double*a){ return rexp((LD)a[3]*from3(a)); }
/* one rotation through every conversion */
static void sp_conv(){
    V3 w=pick_rv(); mc::split(); int sgn=choose(2,"sign"); Q4 Q=qexp(w); if(sgn) Q=(-1)*Q; LD th=nrm(w); M3 R=rexp(w); const double T=1e-9; mc::step(20);
    double q[4],q0[4],m[9],m0[9],a[4],r[3],q2[4],m2[9]; toq(Q,q); memcpy(q0,q,32); tom(R,m); memcpy(m0,m,72);
    double rv[3]; to3(w,rv);
    aa_tf_quat2rotmat(q,m2); sameR(m2,R,T,"quat2rotmat"); properR(m2,T,"quat2rotmat");
    aa_tf_quat2axang(q,a); sameR(axmat(a),R,T,"quat2axang"); if(th>1e-200L){ LD n=nrm(from3(a)); CHECK(fabsl(n-1)<1e-9||a[3]==0,"quat2axang: axis length %Lg",n); } if(!sgn) NEAR(a[3],(double)th,1e-7,"quat2axang angle");
    aa_tf_quat2rotvec(q,r); sameR(rexp(from3(r)),R,T,"quat2rotvec"); if(!sgn) sameV(r,w,1e-7,"quat2rotvec");
    keep(q,q0,4,"quaternion");
    aa_tf_rotmat2quat(m,q2); sameQR(q2,R,1e-8,"rotmat2quat"); aa_tf_rotmat2axang(m,a); sameR(axmat(a),R,1e-8,"rotmat2axang"); CHECK(a[3]>=0&&a[3]<=M_PI+1e-9,"rotmat2axang angle %g",a[3]);
    aa_tf_rotmat2rotvec(m,r); sameR(rexp(from3(r)),R,1e-8,"rotmat2rotvec"); CHECK(nrm(from3(r))<=PI_L+1e-7,"rotmat2rotvec longer than a half turn");
    double s,c,t; aa_tf_rotmat_sincos(m,&s,&c); NEAR(s,(double)sinl(th),1e-9,"rotmat sine"); NEAR(c,(double)cosl(th),1e-9,"rotmat cosine"); aa_tf_rotmat_angle(m,&c,&s,&t); NEAR(t,(double)th,1e-9,"rotmat angle");
    CHECK(aa_tf_isrotmat(m)==1,"isrotmat"); keep(m,m0,9,"matrix");
    int ax=choose(2,"axis sign"); V3 u= th>0? (1/th)*w: v3(1,0,0); double aa[4]; to3((ax?-1:1)*u,aa); aa[3]=(double)(ax?-th:th); double aa0[4]; memcpy(aa0,aa,32);
    aa_tf_axang2quat(aa,q2); sameQ(q2,qexp(w),1e-12,"axang2quat"); aa_tf_axang2quat2(aa,aa[3],q2); sameQ(q2,qexp(w),1e-12,"axang2quat2"); aa_tf_axang2rotmat(aa,m2); sameR(m2,R,T,"axang2rotmat"); aa_tf_axang2rotmat2(aa,aa[3],m2); sameR(m2,R,T,"axang2rotmat2"); aa_tf_rotmat_exp_aa(aa,m2); sameR(m2,R,T,"rotmat_exp_aa"); aa_tf_axang2rotvec(aa,r); sameV(r,w,1e-12,"axang2rotvec"); keep(aa,aa0,4,"axis-angle");
    aa_tf_rotvec2quat(rv,q2); sameQ(q2,qexp(w),1e-10,"rotvec2quat"); aa_tf_rotvec2rotmat(rv,m2); sameR(m2,R,1e-10,"rotvec2rotmat"); properR(m2,1e-10,"rotvec2rotmat"); aa_tf_rotvec2axang(rv,a); sameR(axmat(a),R,1e-10,"rotvec2axang"); CHECK(a[3]>=0,"rotvec2axang angle"); sameV(rv,w,1e-15,"rotation vector");
    for(auto &p:PTS){ double o[3],p1[3]; memcpy(p1,p,24); V3 e=R*from3(p); aa_tf_qrot(q,p,o); sameV(o,e,T,"qrot"); aa_tf_qrot1(q,p1); sameV(p1,e,T,"qrot1"); double o4[4]; aa_tf_9(m,p,o4); sameV(o4,e,T,"9"); aa_tf_9rot(m,p,o); sameV(o,e,T,"9rot"); aa_tf_rotmat_rot(m,p,o); sameV(o,e,T,"rotmat_rot"); aa_tf_axang_rot(aa,p,o); sameV(o,e,T,"axang_rot"); }
    aa_tf_qconj(q,q2); sameQ(q2,qc(Q),1e-15,"qconj"); memcpy(q2,q,32); aa_tf_qconj1(q2); sameQ(q2,qc(Q),1e-15,"qconj1"); aa_tf_qinv(q,q2); sameQ(q2,qc(Q),1e-12,"qinv"); aa_tf_rotmat_inv2(m,m2); sameR(m2,tr(R),T,"rotmat_inv2"); memcpy(m2,m,72); aa_tf_rotmat_inv1(m2); sameR(m2,tr(R),T,"rotmat_inv1");
    memcpy(q2,q,32); aa_tf_qminimize(q2); sameQR(q2,R,T,"qminimize"); CHECK(q2[3]>=0,"qminimize: scalar part %g",q2[3]); aa_tf_qminimize2(q,q2); sameQR(q2,R,T,"qminimize2"); CHECK(q2[3]>=0,"qminimize2: scalar part %g",q2[3]);
    NEAR(aa_tf_qangle(q),(double)(sgn?PI_L-th/2:th/2),1e-9,"qangle"); NEAR(aa_tf_qnorm(q),1,1e-12,"qnorm"); NEAR(aa_tf_qvnorm(q),(double)sinl(th/2),1e-9,"qvnorm");
    mc::nontrivial(mc::Hash()(rv[0])(rv[1])(rv[2])(sgn)(ax)); mc::state(mc::Hash()(m[0])(m[1])(m[2])(m[3])(m[4])); }
/* normal forms and multiples of a turn */
static void sp_norm(){
    V3 w=pick_rv(); mc::split(); double k=mc::pick({.25,1.,3.,1e-3,1e6},"scale"); M3 R=rexp(w); Q4 Q=qexp(w); double q[4],q2[4]; toq(k*Q,q); mc::step(8);
    aa_tf_qnormalize2(q,q2); sameQ(q2,Q,1e-12,"qnormalize2"); aa_tf_normalize2(q,q2); sameQ(q2,Q,1e-12,"normalize2"); aa_tf_qinv(q,q2); sameQ(q2,(1/(LD)k)*qc(Q),1e-12,"qinv"); memcpy(q2,q,32); aa_tf_qnormalize(q2); sameQ(q2,Q,1e-12,"qnormalize");
    double m[9]; tom((LD)k*R,m); aa_tf_rotmat_normalize(m); sameR(m,R,1e-9,"rotmat_normalize of a scaled matrix"); properR(m,1e-12,"rotmat_normalize");
    { double T[12]; tom(R,T); for(int i=0;i<9;i++) T[i]+=1e-7*((i*7)%5-2); T[9]=1;T[10]=2;T[11]=3; aa_tf_tfmat_normalize(T); sameR(T,R,1e-6,"tfmat_normalize"); properR(T,1e-12,"tfmat_normalize"); CHECK(T[9]==1&&T[10]==2&&T[11]==3,"tfmat_normalize changed the translation"); }
    LD th=nrm(w); V3 u= th>0?(1/th)*w:v3(0,1,0); int turns=choose(7,"turns")-3; double ang=(double)(th+2*PI_L*turns); double a[4]; aa_tf_axang_make((double)(k*u[0]),(double)(k*u[1]),(double)(k*u[2]),ang,a); sameR(axmat(a),R,1e-8,"axang_make"); CHECK(fabsl(nrm(from3(a))-1)<1e-12,"axang_make: axis length"); CHECK(a[3]>=0&&a[3]<=M_PI+1e-12,"axang_make: angle %g",a[3]);
    double b[4]={(double)(-k*u[0]),(double)(-k*u[1]),(double)(-k*u[2]),-ang}; aa_tf_axang_normalize(b); sameR(axmat(b),R,1e-8,"axang_normalize"); CHECK(b[3]>=0&&b[3]<=M_PI+1e-12,"axang_normalize: angle %g",b[3]);
    double c[4]={(double)u[0],(double)u[1],(double)u[2],(double)th},d[4],e[4]; aa_tf_axang_permute(c,turns,d); sameR(axmat(d),R,1e-9,"axang_permute"); NEAR(d[3],ang,1e-12,"axang_permute angle"); aa_tf_axang_permute2(c,d,e); NEAR(d[3],(double)(th+2*PI_L),1e-12,"permute2"); NEAR(e[3],(double)(th-2*PI_L),1e-12,"permute2"); sameR(axmat(e),R,1e-9,"permute2");
    if(th>1e-6L){ double rv[3],rp[3],rn[3]; to3(w,rv); aa_tf_rotvec_permute(rv,turns,rp); sameR(rexp(from3(rp)),R,1e-8,"rotvec_permute"); NEAR((double)nrm(from3(rp)),fabs(ang),1e-8,"rotvec_permute length"); V3 nr=(1+2*PI_L*turns/th)*w+v3(.1L,-.1L,.05L); double near_[3]; to3(nr,near_); aa_tf_rotvec_near(rv,near_,rn); sameR(rexp(from3(rn)),R,1e-8,"rotvec_near"); sameV(rn,(1+2*PI_L*turns/th)*w,1e-7,"rotvec_near is the nearest equivalent"); toq(choose(2,"sign")? (-1)*Q:Q,q); if(abs(turns)<3){ aa_tf_quat2rotvec_near(q,near_,rn); sameR(rexp(from3(rn)),R,1e-7,"quat2rotvec_near"); sameV(rn,(1+2*PI_L*turns/th)*w,1e-6,"quat2rotvec_near is the nearest equivalent"); } }
    mc::nontrivial(mc::Hash()(q[0])(q[1])(q[2])(q[3])(k)(turns)); }
/* Euler angles, all twelve orders */
#define E(x) {#x,aa_tf_euler##x##2rotmat,aa_tf_euler##x##2quat}
static const struct { const char*nm; void(*m)(double,double,double,double*); void(*q)(double,double,double,double*); } EU[]={E(xyz),E(xzy),E(yxz),E(yzx),E(zyx),E(zxy),E(xyx),E(xzx),E(yxy),E(yzy),E(zxz),E(zyz)};
static const LD EA[]={0,PI_L/2,-PI_L/2,PI_L,-PI_L/4,1,2.5L,-3,1e-9L,PI_L/2-1e-9L,-PI_L/2+1e-7L,7};
static M3 el(char c,LD t){ return rexp(c=='x'?v3(t,0,0):c=='y'?v3(0,t,0):v3(0,0,t)); }
static void sp_euler(){ int o=choose(12,"order"); LD a=mc::pick(EA,"e1"); mc::split(); LD b=mc::pick(EA,"e2"),c=mc::pick(EA,"e3"); double A=(double)a,B=(double)b,C=(double)c; M3 R=el(EU[o].nm[0],A)*el(EU[o].nm[1],B)*el(EU[o].nm[2],C); double m[9],q[4],e[3]; mc::step(4); EU[o].m(A,B,C,m); sameR(m,R,1e-12,EU[o].nm); EU[o].q(A,B,C,q); sameQR(q,R,1e-12,EU[o].nm);
    if(o==4){ tom(R,m); aa_tf_rotmat2eulerzyx(m,e); sameR(el('z',e[0])*el('y',e[1])*el('x',e[2]),R,1e-6,"rotmat2eulerzyx"); aa_tf_quat2eulerzyx(q,e); sameR(el('z',e[0])*el('y',e[1])*el('x',e[2]),R,1e-6,"quat2eulerzyx"); for(double&x:q) x*=-2; aa_tf_quat2eulerzyx(q,e); sameR(el('z',e[0])*el('y',e[1])*el('x',e[2]),R,1e-6,"quat2eulerzyx of a scaled, negated quaternion"); }
    if(o<3){ const char ch="xyz"[o]; double t=A+B; M3 X=el(ch,t); void(*fm[])(double,double*)={aa_tf_xangle2rotmat,aa_tf_yangle2rotmat,aa_tf_zangle2rotmat}; void(*fq[])(double,double*)={aa_tf_xangle2quat,aa_tf_yangle2quat,aa_tf_zangle2quat}; void(*fa[])(double,double*)={aa_tf_xangle2axang,aa_tf_yangle2axang,aa_tf_zangle2axang}; fm[o](t,m); sameR(m,X,1e-12,"angle2rotmat"); fq[o](t,q); sameQR(q,X,1e-12,"angle2quat"); double aa[4]; fa[o](t,aa); sameR(axmat(aa),X,1e-12,"angle2axang"); }
    mc::nontrivial(mc::Hash()(o)(A)(B)(C)); }
/* Euler extraction over the rotation alphabet */
static void sp_euler2(){ V3 w=pick_rv(); mc::split(); int sgn=choose(2,"sign"); M3 R=rexp(w); double m[9],q[4],e[3]; mc::step(2); tom(R,m); aa_tf_rotmat2eulerzyx(m,e); sameR(el('z',e[0])*el('y',e[1])*el('x',e[2]),R,1e-6,"rotmat2eulerzyx"); toq(sgn?(-1)*qexp(w):qexp(w),q); aa_tf_quat2eulerzyx(q,e); sameR(el('z',e[0])*el('y',e[1])*el('x',e[2]),R,1e-6,"quat2eulerzyx"); mc::nontrivial(mc::Hash()(m[0])(m[1])(m[5])(m[6])(sgn)); }
/* pairs */
static void sp_pair(){ V3 w1=pick_rvs("first"); mc::split(); V3 w2=pick_rvs("second"); int sg=choose(4,"signs"); Q4 A=qexp(w1),B=qexp(w2); if(sg&1) A=(-1)*A; if(sg&2) B=(-1)*B; M3 R1=rexp(w1),R2=rexp(w2); double a[4],b[4],c[4],m1[9],m2[9],m[9]; toq(A,a);toq(B,b);tom(R1,m1);tom(R2,m2); mc::step(14); const double T=1e-12;
    aa_tf_qmul(a,b,c); sameQ(c,A*B,T,"qmul"); aa_tf_qmulnorm(a,b,c); sameQ(c,A*B,T,"qmulnorm"); aa_tf_qcmul(a,b,c); sameQ(c,qc(A)*B,T,"qcmul"); aa_tf_qmulc(a,b,c); sameQ(c,A*qc(B),T,"qmulc"); double v[3]; aa_tf_qmulc_v(a,b,v); Q4 mc_=A*qc(B); sameV(v,v3(mc_[0],mc_[1],mc_[2]),T,"qmulc_v"); aa_tf_qrel(a,b,c); sameQ(c,A*qc(B),T,"qrel"); double acc[4]={1,2,3,4}; aa_tf_qmul_a(a,b,acc); sameQ(acc,A*B+q4(1,2,3,4),T,"qmul_a");
    aa_tf_rotmat_mul(m1,m2,m); sameR(m,R1*R2,T,"rotmat_mul"); aa_tf_9mul(m1,m2,m); sameR(m,R1*R2,T,"9mul"); aa_tf_9rel(m1,m2,m); sameR(m,R1*tr(R2),T,"9rel"); double n0[9]; aa_tf_v9mul(m,m1,m2,NULL); sameR(m,R1*R2,T,"v9mul"); aa_tf_v9mul(m,m1,m2,m2,NULL); sameR(m,R1*R2*R2,T,"v9mul of three"); aa_tf_v9mul(n0,m2,m1,m1,m2,NULL); sameR(n0,R2*R1*R1*R2,T,"v9mul of four");
    M3 D=tr(R1)*R2; LD s=0,cc=(D(0,0)+D(1,1)+D(2,2)-1)/2; V3 u=v3(D(2,1)-D(1,2),D(0,2)-D(2,0),D(1,0)-D(0,1)); s=nrm(u)/2; LD ang=atan2l(s,cc); NEAR(aa_tf_qangle_rel(a,b),(double)(ang/2),1e-9,"qangle_rel"); Q4 df=A+(-1)*B,sm=A+B; NEAR(aa_tf_quhypangle2(a,b),(double)(2*atan2l(qn(df),qn(sm))),1e-9,"quhypangle2"); NEAR(aa_tf_qdot(a,b),(double)(A[0]*B[0]+A[1]*B[1]+A[2]*B[2]+A[3]*B[3]),T,"qdot");
    mc::nontrivial(mc::Hash()(a[0])(a[1])(a[2])(a[3])(b[0])(b[1])(b[2])(b[3])); }
/* quaternion and vector algebra on arbitrary values */
static const double QA[][4]={{0,0,0,1},{0,0,0,-2},{1,0,0,0},{0,-3,0,0},{0,0,.5,0},{1,2,3,4},{-1,.5,0,2},{.1,-.2,.3,-.4},{10,-20,30,1},{1,1,1,1}};
static void sp_alg(){ const auto&a=QA[choose(10,"a")]; mc::split(); const auto&b=QA[choose(10,"b")]; size_t ld=4+(size_t)choose(2,"pad"); double c[4]; Q4 A=fromq(a),B=fromq(b); V3 av=v3(a[0],a[1],a[2]),bv=v3(b[0],b[1],b[2]); mc::step(20); const double T=1e-12;
    aa_tf_qmul(a,b,c); sameQ(c,A*B,T,"qmul"); aa_tf_qcmul(a,b,c); sameQ(c,qc(A)*B,T,"qcmul"); aa_tf_qmulc(a,b,c); sameQ(c,A*qc(B),T,"qmulc"); aa_tf_qadd(a,b,c); sameQ(c,A+B,T,"qadd"); aa_tf_qsub(a,b,c); sameQ(c,A+(-1)*B,T,"qsub"); memcpy(c,a,32); aa_tf_qiadd(c,b); sameQ(c,A+B,T,"qiadd"); memcpy(c,a,32); aa_tf_qisub(c,b); sameQ(c,A+(-1)*B,T,"qisub"); memcpy(c,a,32); aa_tf_qscal(c,-1.5); sameQ(c,-1.5L*A,T,"qscal");
    Q4 Av=q4(a[0],a[1],a[2],0),Bv=q4(b[0],b[1],b[2],0); aa_tf_qmul_vq(a,b,c); sameQ(c,Av*B,T,"qmul_vq"); aa_tf_qmul_qv(a,b,c); sameQ(c,A*Bv,T,"qmul_qv"); double v[3]; aa_tf_qmul_qv_v(a,b,v); Q4 p=A*Bv; sameV(v,v3(p[0],p[1],p[2]),T,"qmul_qv_v"); aa_tf_qinv(a,c); sameQ(c,(1/(qn(A)*qn(A)))*qc(A),T,"qinv"); aa_tf_qrel(a,b,c); sameQ(c,A*((1/(qn(B)*qn(B)))*qc(B)),T,"qrel"); NEAR(aa_tf_qnorm(a),(double)qn(A),T,"qnorm");
    std::vector<double> M(3*ld+4); for(int l=0;l<2;l++) for(int k=0;k<2;k++){ for(auto&x:M) x=77; if(k==0){ (l?aa_tf_qmatrix_l:aa_tf_qmatrix_r)(a,M.data(),ld); } else { aa_dmat D=AA_DMAT_INIT(4,4,M.data(),ld); (l?aa_tf_qmat_l:aa_tf_qmat_r)(a,&D); } Q4 e=l? A*B:B*A; for(size_t i=0;i<4;i++){ double s=0; for(size_t j=0;j<4;j++) s+=M[j*ld+i]*b[j]; NEAR(s,(double)e[(int)i],T,"quaternion product matrix"); } if(ld>4) for(size_t j=0;j<3;j++) CHECK(M[j*ld+4]==77,"wrote outside the matrix"); }
    /* vectors */
    NEAR(aa_tf_vdot(a,b),(double)dot(av,bv),T,"vdot"); NEAR(aa_tf_vnorm(a),(double)nrm(av),T,"vnorm"); aa_tf_cross(a,b,v); sameV(v,cross(av,bv),T,"cross"); double w[3]={1,2,3}; aa_tf_cross_a(a,b,w); sameV(w,v3(1,2,3)+cross(av,bv),T,"cross_a"); float fa[3],fb[3],fc[3]; for(int i=0;i<3;i++){ fa[i]=(float)a[i]; fb[i]=(float)b[i]; } aa_tf_crossf(fa,fb,fc); double dc[3]={fc[0],fc[1],fc[2]}; sameV(dc,cross(av,bv),1e-5,"crossf"); NEAR(aa_tf_vdotf(fa,fb),(double)dot(av,bv),1e-5,"vdotf");
    std::vector<double> C(2*ld+3); for(int l=0;l<2;l++){ aa_dmat D=AA_DMAT_INIT(3,3,C.data(),ld); (l?aa_tf_cross_mat_l:aa_tf_cross_mat_r)(a,&D); V3 e=l?cross(av,bv):cross(bv,av); for(size_t i=0;i<3;i++){ double s=0; for(size_t j=0;j<3;j++) s+=C[j*ld+i]*b[j]; NEAR(s,(double)e[(int)i],T,"cross product matrix"); } }
    double K[9]; aa_tf_skew_sym(a,K); sameR(K,skew(av),T,"skew_sym"); aa_tf_skew_sym1(2.5,a,K); sameR(K,skew(2.5L*av),T,"skew_sym1"); aa_tf_unskewsym_scal(.5,K,v); sameV(v,2.5L*av,T,"unskewsym_scal"); aa_tf_skewsym_scal2(.3,-.7,a,K); sameR(K,m3eye()+.3L*skew(av)+(-.7L)*(skew(av)*skew(av)),1e-11*(1+(double)dot(av,av)),"skewsym_scal2");
    if(nrm(bv)>0){ aa_tf_proj(a,b,v); V3 e=(dot(av,bv)/dot(bv,bv))*bv; sameV(v,e,T,"proj"); aa_tf_proj_orth(a,b,v); sameV(v,av-e,T,"proj_orth"); memcpy(v,b,24); aa_tf_vnormalize(v); sameV(v,unit(bv),T,"vnormalize"); aa_tf_vnormalizef(fb); double d[3]={fb[0],fb[1],fb[2]}; sameV(d,unit(bv),1e-6,"vnormalizef"); }
    mc::nontrivial(mc::Hash()(a[0])(a[1])(a[3])(b[0])(b[1])(b[3])(ld)); }
/* rotations given by directions */
static void sp_dirs(){ int i=choose(27,"u"); mc::split(); if(i==13) mc::skip(); V3 u=v3(i/9-1,i/3%3-1,i%3-1); int k=choose(40,"v"); V3 v; if(k<27){ if(k==13) mc::skip(); v=v3(k/9-1,k/3%3-1,k%3-1); } else { static const LD dl[]={1e-12L,1e-9L,1e-7L,1e-5L,1e-4L,1e-3L}; int e=k-27; if(e==12){ v=-1.5L*u; } else { V3 o=fabsl(u[0])<fabsl(u[1])+.5L? cross(u,v3(1,0,0)):cross(u,v3(0,1,0)); v=(e<6?1:-1)*u+dl[e%6]*unit(o); } } LD su=mc::pick({1.,.01,30.},"scale u"),sv=mc::pick({1.,.02,50.},"scale v"); u=su*u; v=sv*v; double a[3],b[3],q[4],o[3]; to3(u,a); to3(v,b); mc::step(); aa_tf_vecs2quat(a,b,q); NEAR((double)qn(fromq(q)),1,1e-9,"vecs2quat: length of the quaternion"); V3 r=qmat(fromq(q))*unit(from3(a)); sameV(r,unit(from3(b)),1e-7,"vecs2quat does not rotate the first direction to the second"); (void)o; mc::nontrivial(mc::Hash()(a[0])(a[1])(a[2])(b[0])(b[1])(b[2])); }
static void sp_frames(){ V3 w=pick_rv(); mc::split(); M3 R=rexp(w); double s1=mc::pick({1.,.1,7.},"s1"),s2=mc::pick({1.,3.},"s2"); double x[3],y[3],z[3],m[9]; to3((LD)s1*v3(R(0,0),R(1,0),R(2,0)),x); to3((LD)s2*v3(R(0,1),R(1,1),R(2,1)),y); to3((LD)s1*v3(R(0,2),R(1,2),R(2,2)),z); mc::step(6); aa_tf_rotmat_xy(x,y,m); sameR(m,R,1e-9,"rotmat_xy"); aa_tf_rotmat_yz(y,z,m); sameR(m,R,1e-9,"rotmat_yz"); aa_tf_rotmat_zx(z,x,m); sameR(m,R,1e-9,"rotmat_zx");
    /* look-at: -z points at the target, up stays in the y half plane */ const auto&e=TRS[choose(4,"eye")]; V3 eye=from3(e); V3 tgt=eye-(LD)s1*v3(R(0,2),R(1,2),R(2,2)); V3 up=(LD)s2*v3(R(0,1),R(1,1),R(2,1))+.25L*(LD)choose(2,"tilt")*v3(R(0,2),R(1,2),R(2,2)); double t[3],u[3]; to3(tgt,t); to3(up,u); aa_tf_rotmat_mzlook(e,t,u,m); sameR(m,R,1e-9,"rotmat_mzlook"); properR(m,1e-9,"rotmat_mzlook"); double T[12],q[4],v[3],E7[7]; aa_tf_tfmat_mzlook(e,t,u,T); sameR(T,R,1e-9,"tfmat_mzlook"); sameV(T+9,eye,0,"tfmat_mzlook"); aa_tf_qmzlook(e,t,u,q); sameQR(q,R,1e-7,"qmzlook"); aa_tf_qv_mzlook(e,t,u,q,v); sameQR(q,R,1e-7,"qv_mzlook"); sameV(v,eye,0,"qv_mzlook"); aa_tf_qutr_mzlook(e,t,u,E7); sameQR(E7,R,1e-7,"qutr_mzlook"); sameV(E7+4,eye,0,"qutr_mzlook"); mc::nontrivial(mc::Hash()(x[0])(x[1])(x[2])(y[0])(y[1])(e[0])(e[1])); }
static void sp_isrot(){ V3 w=pick_rvs(); mc::split(); int i=choose(9,"element"); double d=mc::pick({0.,1e-2,-.5,2.},"change"); double m[9]; tom(rexp(w),m); m[i]+=d; M3 M=fromm(m); bool ok=mdist(M*tr(M),m3eye())<1e-3&&fabsl(det(M)-1)<1e-3; bool bad=mdist(M*tr(M),m3eye())>5e-3; if(!ok&&!bad) mc::skip(); mc::step(); if(fabsl(det(M))>1e-9) CHECK(aa_tf_isrotmat(m)==(ok?1:0),"isrotmat says %d",aa_tf_isrotmat(m)); double n[9]; tom(rexp(w),n); for(int k=0;k<3;k++) n[3*(i%3)+k]*=-1; CHECK(aa_tf_isrotmat(n)==0,"isrotmat accepts a reflection"); mc::nontrivial(mc::Hash()(m[0])(m[1])(m[4])(m[5])(d)(i)); }
/* relative points */
static void sp_relx(){ V3 w=pick_rvs(); mc::split(); size_t n=1+(size_t)choose(4,"n"),ldx=3+(size_t)choose(2,"ldx"),ldy=3+(size_t)choose(2,"ldy"),ldz=3+(size_t)choose(2,"ldz"); std::vector<double> X((n-1)*ldx+3),Y((n-1)*ldy+3),Z((n-1)*ldz+3,77.); M3 R=rexp(w); double m[9]; tom(R,m); for(size_t j=0;j<n;j++) for(size_t i=0;i<3;i++){ X[j*ldx+i]=PTS[j%5][i]; Y[j*ldy+i]=PTS[(j+2)%5][i]*2; } auto X0=X,Y0=Y; mc::step(3); aa_tf_relx(n,m,X.data(),ldx,Y.data(),ldy,Z.data(),ldz); std::vector<LD> col[3]; for(size_t j=0;j<n;j++){ V3 e=from3(&Y[j*ldy])-R*from3(&X[j*ldx]); sameV(&Z[j*ldz],e,1e-12,"relx"); for(int i=0;i<3;i++) col[i].push_back(e[i]); if(ldz>3&&j+1<n) CHECK(Z[j*ldz+3]==77,"relx wrote outside"); } double r[3]; aa_tf_relx_mean(n,m,X.data(),ldx,Y.data(),ldy,r); V3 mean; V3 med; for(int i=0;i<3;i++){ LD s=0; for(LD x:col[i]) s+=x; mean[i]=s/n; std::sort(col[i].begin(),col[i].end()); med[i]=(col[i][(n-1)/2]+col[i][n/2])/2; } sameV(r,mean,1e-12,"relx_mean"); aa_tf_relx_median(n,m,X.data(),ldx,Y.data(),ldy,r); sameV(r,med,1e-12,"relx_median"); CHECK(X==X0&&Y==Y0,"inputs changed"); mc::nontrivial(mc::Hash()(m[0])(m[1])(m[5])(n)(ldx)(ldy)(ldz)); }
int main(int c,char**v){ return mc::run(c,v,"C12",{{"convert",sp_conv},{"normalize",sp_norm},{"euler",sp_euler},{"euler-extract",sp_euler2},{"product",sp_pair},{"algebra",sp_alg},{"directions",sp_dirs},{"frames",sp_frames},{"is-rotation",sp_isrot},{"relative-points",sp_relx}}); }
