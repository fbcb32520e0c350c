// Exponential and logarithm: every routine against long double closed forms over tangents from zero through the series thresholds to a half turn.
#include "posemodel.hpp"
#include "amino.h"
extern "C" { void aa_tf_qexp_n(const double*,double*); void aa_tf_qpexp(const double*,double*); void aa_tf_qpow(const double*,double,double*); void aa_tf_qv_expv(const double*,const double*,double*,double*); void aa_tf_qutr_expv(const double*,double*); void aa_tf_qv_lnv(const double*,const double*,double*,double*); void aa_tf_qutr_lnv(const double*,double*); }
using mc::choose;
static const double T=1e-9;
static Pose exp6(V3 v,V3 w){ return {rexp(w),rvmat(w)*v}; }
static V3 vec4(const double*q){ return from3(q); }
/* rotation tangents up to a half turn */
static void sp_rot(){ V3 w=pick_rv(); mc::split(); int sg=choose(2,"sign"); LD th=nrm(w); Q4 Q=qexp(w); double q[4],p[4]={0,0,0,0},R[9],l[4],e[4],rv[3]; to3(w,rv); to3((LD).5*w,p); mc::step(9);
    aa_tf_qexp(p,e); sameQ(e,Q,1e-12,"qexp"); aa_tf_qexp_n(p,e); sameQ(e,Q,1e-12,"qexp_n"); aa_tf_qpexp(p,e); sameQ(e,Q,1e-12,"qpexp"); aa_tf_rotmat_expv(rv,R); sameR(R,rexp(w),1e-12,"rotmat_expv"); properR(R,1e-12,"rotmat_expv");
    tom(rexp(w),R); aa_tf_rotmat_lnv(R,l); if(th<PI_L-1e-9L) sameV(l,w,th>3.1L?1e-6:1e-8,"rotmat_lnv"); sameR(rexp(from3(l)),rexp(w),1e-8,"exp(rotmat_lnv)"); CHECK(nrm(from3(l))<=PI_L*(1+1e-12L),"rotmat_lnv is longer than a half turn");
    aa_tf_rotmat_expv(l,R); sameR(R,rexp(w),1e-8,"rotmat_expv(rotmat_lnv)");
    Q4 S=sg?(-1)*Q:Q; toq(S,q); aa_tf_qln(q,l); NEAR(l[3],0,1e-12,"scalar part of the logarithm of a unit quaternion"); CHECK(nrm(vec4(l))<=PI_L*(1+1e-12L),"qln is longer than pi"); sameQ(l,{},1e9,"qln is finite"); aa_tf_qexp(l,e); sameQ(e,S,1e-9,"qexp(qln)"); if(!sg) sameV(l,(LD).5*w,1e-12,"qln"); else if(th>1e-3L) sameV(l,(-(PI_L-th/2)/th)*w,1e-9,"qln of the negated quaternion"); aa_tf_qexp_n(l,e); sameQ(e,S,1e-9,"qexp_n(qln)");
    mc::nontrivial(mc::Hash()(rv[0])(rv[1])(rv[2])(sg)); mc::state(mc::Hash()(q[0])(q[1])(q[2])(q[3])); }
/* quaternions of any length */
static const double SC[]={0,-3,.5,2,1e-9,20,-20};
static void sp_gen(){ V3 w=pick_rv(); mc::split(); double s=mc::pick(SC,"scalar"); double p[4],e[4],l[4]; to3((LD).5*w,p); p[3]=s; LD k=expl(s); Q4 Q=k*qexp(w); double t=(double)k*1e-11; mc::step(4); aa_tf_qexp(p,e); for(int i=0;i<4;i++) NEAR(e[i],(double)Q[i],t,"qexp of a quaternion with scalar part"); aa_tf_qexp_n(p,e); for(int i=0;i<4;i++) NEAR(e[i],(double)Q[i],t,"qexp_n of a quaternion with scalar part"); double q[4]; toq(Q,q); aa_tf_qln(q,l); sameV(l,(LD).5*w,1e-11,"qln"); NEAR(l[3],s,1e-11,"qln: scalar part");
    double a=mc::pick({0.,1.,-1.,.5,2.,.333},"power"); aa_tf_qpow(q,a,e); LD kp=expl(s*a); Q4 P=kp*qexp((LD)a*w); for(int i=0;i<4;i++) NEAR(e[i],(double)P[i],(double)kp*1e-10,"qpow"); mc::nontrivial(mc::Hash()(p[0])(p[1])(p[2])(s)(a)); }
/* poses */
static void chkE(const double*E,Pose P,double t,const char*w){ sameE(E,P,t,w); }
static void sp_pose(){ V3 w=pick_rv(); mc::split(); V3 v=from3(TRS[choose(7,"v")]); LD th=nrm(w); Pose P=exp6(v,w); double x[6],h[6],M[12],E[7],S[8],s[8]={0},l[8]; to3(v,x); to3(w,x+3); to3((LD).5*v,h); to3((LD).5*w,h+3); to3((LD).5*w,s); to3((LD).5*v,s+4); LD L=1+nrm(v); double tv=(double)(1e-9L*L); mc::step(10);
    aa_tf_tfmat_expv(x,M); sameT(M,P,1e-10,"tfmat_expv"); aa_tf_qutr_expv(h,E); chkE(E,P,1e-10,"qutr_expv"); aa_tf_qv_expv(h+3,h,E,E+4); chkE(E,P,1e-10,"qv_expv"); aa_tf_duqu_exp(s,S); sameS(S,P,1e-10,"duqu_exp");
    bool below=th<PI_L-1e-7L; double far=th>3.1L?1e-5:1e-8;
    tom(P.R,M); to3(P.t,M+9); aa_tf_tfmat_lnv(M,l); if(below){ sameV(l+3,w,far,"tfmat_lnv: rotation"); sameV(l,v,far,"tfmat_lnv: translation"); } CHECK(nrm(from3(l+3))<=PI_L*(1+1e-12L),"tfmat_lnv is longer than a half turn"); { Pose B=exp6(from3(l),from3(l+3)); sameR(B.R,P.R,1e-8,"exp(tfmat_lnv)"); CHECK(vdist(B.t,P.t)<=tv*10,"exp(tfmat_lnv): translation off by %Lg",vdist(B.t,P.t)); } double M2[12]; aa_tf_tfmat_expv(l,M2); sameT(M2,P,1e-7,"tfmat_expv(tfmat_lnv)");
    Rep r=rep(w,P.t,0); aa_tf_qutr_lnv(r.E,l); sameV(l+3,(LD).5*w,1e-10,"qutr_lnv: rotation"); sameV(l,(LD).5*v,1e-9,"qutr_lnv: translation"); aa_tf_qv_lnv(r.E,r.E+4,l+3,l); sameV(l+3,(LD).5*w,1e-10,"qv_lnv"); sameV(l,(LD).5*v,1e-9,"qv_lnv"); aa_tf_duqu_ln(r.S,l); sameV(l,(LD).5*w,1e-10,"duqu_ln: rotation"); sameV(l+4,(LD).5*v,1e-9,"duqu_ln: translation"); NEAR(l[3],0,1e-12,"duqu_ln: scalar"); NEAR(l[7],0,tv,"duqu_ln: dual scalar"); aa_tf_duqu_lnv(r.S,l); sameV(l+3,(LD).5*w,1e-10,"duqu_lnv"); sameV(l,(LD).5*v,1e-9,"duqu_lnv");
    mc::nontrivial(mc::Hash().bytes(x,48)); mc::state(mc::Hash().bytes(M,96)); }
/* the other sign of the quaternion: logarithm and exponential still invert each other */
static void sp_neg(){ V3 w=pick_rv(); mc::split(); V3 t=from3(TRS[choose(7,"t")]); LD th=nrm(w); if(th>0&&th<1e-3L) mc::skip(); Rep r=rep(w,t,1); double l[8],E[7],S[8]; mc::step(4); LD tol= th>0? 1e-9L/std::min(th,(LD)1):1e-12L; aa_tf_qutr_lnv(r.E,l); aa_tf_qutr_expv(l,E); sameQ(E,fromq(r.E),(double)tol,"qutr_expv(qutr_lnv)"); sameV(E+4,t,(double)tol*10,"qutr_expv(qutr_lnv): translation"); aa_tf_duqu_ln(r.S,l); aa_tf_duqu_exp(l,S); sameQ(S,fromq(r.S),(double)tol,"duqu_exp(duqu_ln)"); sameQ(S+4,fromq(r.S+4),(double)tol*10,"duqu_exp(duqu_ln): dual part"); mc::nontrivial(mc::Hash().bytes(r.S,64)); }
/* dual quaternions with scalar parts */
static void sp_dual(){ V3 w=pick_rvs(); mc::split(); V3 v=from3(TRS[choose(6,"v")]); double s=mc::pick({0.,.7,-1.5},"s"),d=mc::pick({0.,.5,-2.},"dual s"); double p[8],e[8],l[8]; to3((LD).5*w,p); p[3]=s; to3((LD).5*v,p+4); p[7]=d; Pose P=exp6(v,w); double b[8]; dq(qexp(w),P.t,b); mc::step(2); LD k=expl(s); double x[8]; for(int i=0;i<4;i++){ x[i]=(double)(k*b[i]); x[4+i]=(double)(k*(b[4+i]+d*b[i])); } aa_tf_duqu_exp(p,e); for(int i=0;i<8;i++) NEAR(e[i],x[i],1e-8,"duqu_exp with scalar parts"); aa_tf_duqu_ln(x,l); for(int i=0;i<8;i++) NEAR(l[i],p[i],1e-7,"duqu_ln with scalar parts"); mc::nontrivial(mc::Hash().bytes(p,64)); }
/* tangents longer than a half turn */
static void sp_big(){ int a=choose(NAX,"axis"); mc::split(); LD th=mc::pick({PI_L+1e-9L,PI_L+1e-3L,3.5L,4.5L,2*PI_L-1e-3L,2*PI_L,2*PI_L+1e-6L,7.L,12.L,50.L},"angle"); V3 w=th*axis_(a),v=from3(TRS[choose(5,"v")]); Pose P=exp6(v,w); double x[6],h[6],M[12],E[7],s[8]={0},S[8],l[6],R[9]; to3(v,x); to3(w,x+3); to3((LD).5*v,h); to3((LD).5*w,h+3); to3((LD).5*w,s); to3((LD).5*v,s+4); mc::step(6); aa_tf_rotmat_expv(x+3,R); sameR(R,P.R,1e-10,"rotmat_expv"); aa_tf_tfmat_expv(x,M); sameT(M,P,1e-10,"tfmat_expv"); aa_tf_qutr_expv(h,E); chkE(E,P,1e-10,"qutr_expv"); aa_tf_duqu_exp(s,S); sameS(S,P,1e-10,"duqu_exp"); aa_tf_rotmat_lnv(R,l); sameR(rexp(from3(l)),P.R,1e-7,"exp(rotmat_lnv)"); CHECK(nrm(from3(l))<=PI_L*(1+1e-12L),"rotmat_lnv is longer than a half turn"); aa_tf_tfmat_lnv(M,l); Pose B=exp6(from3(l),from3(l+3)); sameR(B.R,P.R,1e-7,"exp(tfmat_lnv)"); sameV(B.t,P.t,1e-7,"exp(tfmat_lnv)"); CHECK(nrm(from3(l+3))<=PI_L*(1+1e-12L),"tfmat_lnv is longer than a half turn"); mc::nontrivial(mc::Hash().bytes(x,48)); }
int main(int c,char**v){ return mc::run(c,v,"C14",{{"rotation",sp_rot},{"general",sp_gen},{"pose",sp_pose},{"negated",sp_neg},{"dual-scalar",sp_dual},{"long",sp_big}}); }
