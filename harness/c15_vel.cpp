// Velocities, twists, derivatives, integrators and partial derivatives against the actual motion of a reference pose.
#include "posemodel.hpp"
#include "amino.h"
#include "amino/mat.h"
#include <quadmath.h>
extern "C" { void aa_tf_tfmat_vel2diff(const double*,const double*,double*); void aa_tf_tfmat_diff2vel(const double*,const double*,double*); void aa_tf_qv_svel(const double*,const double*,const double*,const double*,double,double*,double*); void aa_tf_qv_sdiff(const double*,const double*,const double*,const double*,double,double*,double*); void aa_tf_rotvec_diff2qdiff(const double*,const double*,double*); void aa_tf_rotvec_qjac(const double*,double*); }
using mc::choose;
static const double T9=1e-9;
static const double WS[][3]={{0,0,0},{1,0,0},{0,0,-2},{.5,-1,3},{1e-9,0,1e-9},{-20,10,5},{0,-1e-4,0}}, VS[][3]={{0,0,0},{1,0,0},{-2,.5,10},{0,1e-6,-1e-6}};
static const LD H=1e-6L;
/* the pose along the motion whose velocity at time zero is (w,dv) in world axes */
struct St { LD T[12],E[7],S[8]; };
static St at(Q4 q0,V3 p0,V3 w,V3 dv,LD t){ St s; Q4 q=qexp(t*w)*q0; V3 p=p0+t*dv; M3 R=qmat(q); for(int j=0;j<3;j++)for(int i=0;i<3;i++) s.T[3*j+i]=R(i,j); Q4 d=.5L*(q4(p[0],p[1],p[2],0)*q); for(int i=0;i<3;i++) s.T[9+i]=s.E[4+i]=p[i]; for(int i=0;i<4;i++){ s.E[i]=s.S[i]=q[i]; s.S[4+i]=d[i]; } return s; }
static St der(Q4 q0,V3 p0,V3 w,V3 dv){ LD h=H/std::max((LD)1,nrm(w)); St a=at(q0,p0,w,dv,h),b=at(q0,p0,w,dv,-h),r; for(int i=0;i<12;i++) r.T[i]=(a.T[i]-b.T[i])/(2*h); for(int i=0;i<7;i++) r.E[i]=(a.E[i]-b.E[i])/(2*h); for(int i=0;i<8;i++) r.S[i]=(a.S[i]-b.S[i])/(2*h); return r; }
static void cmp(const double*x,const LD*e,int n,double tol,const char*w){ LD s=1; for(int i=0;i<n;i++) s=std::max(s,fabsl(e[i])); for(int i=0;i<n;i++) CHECK(fabsl(x[i]-e[i])<=tol*s,"%s: element %d is %.15g, expected %.15Lg",w,i,x[i],e[i]); }
static void dn(const LD*a,int n,double*o){ for(int i=0;i<n;i++) o[i]=(double)a[i]; }
static void sp_diff(){ V3 rv=pick_rv(); mc::split(); Rep r=rep(rv,from3(TRS[choose(7,"translation")]),choose(2,"sign")); V3 w=from3(WS[choose(7,"w")]),dv=from3(VS[choose(4,"v")]); Q4 q0=fromq(r.E); St d=der(q0,r.P.t,w,dv); double dx[6]; to3(dv,dx); to3(w,dx+3); double o[12],dT[12],dE[7],dS[8]; dn(d.T,12,dT); dn(d.E,7,dE); dn(d.S,8,dS); mc::step(20); LD DX[6]={dv[0],dv[1],dv[2],w[0],w[1],w[2]}; V3 tv=dv+cross(r.P.t,w); LD TW[8]={w[0],w[1],w[2],0,tv[0],tv[1],tv[2],0};
    double wd[3]; to3(w,wd); aa_tf_qvel2diff(r.E,wd,o); cmp(o,d.E,4,T9,"qvel2diff"); aa_tf_qdiff2vel(r.E,dE,o); cmp(o,DX+3,3,T9,"qdiff2vel"); aa_tf_rotmat_vel2diff(r.T,wd,o); cmp(o,d.T,9,T9,"rotmat_vel2diff"); aa_tf_rotmat_diff2vel(r.T,dT,o); cmp(o,DX+3,3,T9,"rotmat_diff2vel");
    aa_tf_tfmat_vel2diff(r.T,dx,o); cmp(o,d.T,12,T9,"tfmat_vel2diff"); aa_tf_tfmat_diff2vel(r.T,dT,o); cmp(o,DX,6,T9,"tfmat_diff2vel"); aa_tf_qutr_vel2diff(r.E,dx,o); cmp(o,d.E,7,T9,"qutr_vel2diff"); aa_tf_qutr_diff2vel(r.E,dE,o); cmp(o,DX,6,T9,"qutr_diff2vel");
    aa_tf_duqu_vel2diff(r.S,dx,o); cmp(o,d.S,8,T9,"duqu_vel2diff"); aa_tf_duqu_diff2vel(r.S,dS,o); cmp(o,DX,6,T9,"duqu_diff2vel"); aa_tf_duqu_vel2twist(r.S,dx,o); cmp(o,TW,8,T9,"duqu_vel2twist"); double tw[8]; dn(TW,8,tw); aa_tf_duqu_twist2vel(r.S,tw,o); cmp(o,DX,6,T9,"duqu_twist2vel"); aa_tf_duqu_twist2diff(r.S,tw,o); cmp(o,d.S,8,T9,"duqu_twist2diff"); aa_tf_duqu_diff2twist(r.S,dS,o); cmp(o,TW,8,T9,"duqu_diff2twist");
    double a[3],b[3]; aa_tf_qv_vel2twist(r.E,r.E+4,wd,dx,a,b); cmp(a,TW,3,T9,"qv_vel2twist"); cmp(b,TW+4,3,T9,"qv_vel2twist"); aa_tf_qv_twist2vel(r.E,r.E+4,tw,tw+4,a,b); cmp(a,DX+3,3,T9,"qv_twist2vel"); cmp(b,DX,3,T9,"qv_twist2vel"); double t6[6]; memcpy(t6,tw+4,24); memcpy(t6+3,tw,24); aa_tf_qutr_twist2vel(r.E,t6,o); cmp(o,DX,6,T9,"qutr_twist2vel");
    mc::nontrivial(mc::Hash().bytes(r.S,64).bytes(dx,48)); }
/* integration of a constant twist */
static const double DTS[]={0,1,.1,-.5,1e-9,3};
static void sp_int(){ V3 rv=pick_rvs(); mc::split(); Rep r=rep(rv,from3(TRS[choose(7,"translation")]),choose(2,"sign")); V3 w=from3(WS[choose(7,"w")]),dv=from3(VS[choose(4,"v")]); double dt=mc::pick(DTS,"dt"); V3 tv=dv+cross(r.P.t,w); Pose X={rexp((LD)dt*w),rvmat((LD)dt*w)*((LD)dt*tv)}; Pose e=X*r.P; St d=der(fromq(r.E),r.P.t,w,dv); double dx[6],wd[3],dE[7],dS[8],o[12],o2[3]; to3(dv,dx); to3(w,dx+3); to3(w,wd); dn(d.E,7,dE); dn(d.S,8,dS); mc::step(10); const double t=1e-8;
    aa_tf_qsvel(r.E,wd,dt,o); sameQR(o,e.R,t,"qsvel"); aa_tf_qsdiff(r.E,dE,dt,o); sameQR(o,e.R,t,"qsdiff"); aa_tf_rotmat_svel(r.T,wd,dt,o); sameR(o,e.R,t,"rotmat_svel"); aa_tf_tfmat_svel(r.T,dx,dt,o); sameT(o,e,t,"tfmat_svel"); aa_tf_qutr_svel(r.E,dx,dt,o); sameE(o,e,t,"qutr_svel"); aa_tf_qutr_sdiff(r.E,dE,dt,o); sameE(o,e,t,"qutr_sdiff"); aa_tf_duqu_svel(r.S,dx,dt,o); sameS(o,e,t,"duqu_svel"); aa_tf_duqu_sdiff(r.S,dS,dt,o); sameS(o,e,t,"duqu_sdiff"); double tw[8]={wd[0],wd[1],wd[2],0,(double)tv[0],(double)tv[1],(double)tv[2],0}; aa_tf_duqu_stwist(r.S,tw,dt,o); sameS(o,e,t,"duqu_stwist"); aa_tf_qv_svel(r.E,r.E+4,wd,dx,dt,o,o2); sameQV(o,o2,e,t,"qv_svel"); aa_tf_qv_sdiff(r.E,r.E+4,dE,dE+4,dt,o,o2); sameQV(o,o2,e,t,"qv_sdiff");
    /* explicit Runge-Kutta steps of q' = w q / 2 */
    Q4 q=fromq(r.E),W=q4(w[0],w[1],w[2],0); auto f=[&](Q4 x){ return .5L*(W*x); }; LD hh=dt; Q4 k1=f(q),k2=f(q+(hh/2)*k1),k3=f(q+(hh/2)*k2),k4=f(q+hh*k3); aa_tf_qvelrk1(r.E,wd,dt,o); sameQ(o,q+hh*k1,T9,"qvelrk1"); aa_tf_qrk1(r.E,dE,dt,o); sameQ(o,q+hh*fromq(dE),T9,"qrk1"); aa_tf_qvelrk4(r.E,wd,dt,o); sameQ(o,q+(hh/6)*(k1+2*k2+2*k3+k4),T9,"qvelrk4");
    mc::nontrivial(mc::Hash().bytes(r.S,64).bytes(dx,48)(dt)); }
/* acceleration about the velocity axis has an exact solution */
static void sp_acc(){ V3 ax=axis_(choose(NAX,"axis")); mc::split(); Rep r=rep(.7L*axis_(choose(NAX,"pose")),v3(0,0,0),0); LD v=mc::pick({(LD)0,(LD)1,(LD)-2},"v"),a=mc::pick({(LD)0,(LD)1,(LD)-.5L},"a"); double dt=mc::pick({0.,.5,2.},"dt"); double vd[3],ad[3],o[4]; to3(v*ax,vd); to3(a*ax,ad); M3 e=rexp((v*dt+a*dt*dt/2)*ax)*r.P.R; mc::step(2); aa_tf_qsacc(r.E,vd,ad,dt,o); sameQR(o,e,T9,"qsacc"); aa_tf_qsacc_rk(r.E,vd,ad,dt,o); sameQR(o,e,1e-3,"qsacc_rk"); mc::nontrivial(mc::Hash().bytes(vd,24).bytes(ad,24).bytes(r.E,32)(dt)); }
/* ---- partial derivatives, in quadruple precision ---- */
typedef __float128 F; struct Fq { F v[4]; };
static F vnorm(const Fq&q){ return sqrtq(q.v[0]*q.v[0]+q.v[1]*q.v[1]+q.v[2]*q.v[2]); }
static Fq fexp(const Fq&q){ F n=vnorm(q),s= n<(F)1e-12L? 1-n*n/6 : sinq(n)/n,E=expq(q.v[3]); return {{E*s*q.v[0],E*s*q.v[1],E*s*q.v[2],E*cosq(n)}}; }
static Fq fln(const Fq&q){ F n=vnorm(q),w=q.v[3],N=sqrtq(n*n+w*w); F k; if(n<(F)1e-12L*fabsq(w)&&w>0){ F x=n/w; k=(1-x*x/3)/w; } else k=atan2q(n,w)/n; return {{k*q.v[0],k*q.v[1],k*q.v[2],logq(N)}}; }
static Fq fadd(const Fq&a,F k,const Fq&b){ Fq r; for(int i=0;i<4;i++) r.v[i]=a.v[i]+k*b.v[i]; return r; }
static Fq unitv(int j){ Fq r={{0,0,0,0}}; r.v[j]=1; return r; }
static Fq ff(const double*p){ return {{p[0],p[1],p[2],p[3]}}; }
template<class G> static Fq fd(G g,const Fq&q,const Fq&d,F h=(F)1e-9L){ Fq a=g(fadd(q,h,d)),b=g(fadd(q,-h,d)),r; for(int i=0;i<4;i++) r.v[i]=(a.v[i]-b.v[i])/(2*h); return r; }
static const double SC[]={1,.5,3};
static void chk(double x,F e,F sc,double tol,const char*w,int i,int j){ F s=sc>1?sc:1; CHECK(fabsq(x-e)<=tol*s,"%s: entry (%d,%d) is %.12g, expected %.12g",w,i,j,x,(double)e); }
static void sp_qlnjac(){ V3 rv=pick_rv(); mc::split(); double sc=mc::pick(SC,"scale"); size_t ld=4+(size_t)choose(2,"pad"); Q4 q=qexp(rv); if(choose(2,"sign")) q=(-1)*q; double Q[4]; toq((LD)sc*q,Q); LD vn=nrm(v3(Q[0],Q[1],Q[2])); if(Q[3]<0&&vn<1e-3L*sc) mc::skip();   /* not differentiable at a whole turn */
    std::vector<double> M(4*ld,7); aa_dmat J=AA_DMAT_INIT(4,4,M.data(),ld); mc::step(); aa_tf_qln_jac(Q,&J); for(int j=0;j<4;j++){ Fq e=fd(fln,ff(Q),unitv(j)); F m=0; for(int i=0;i<4;i++) if(fabsq(e.v[i])>m) m=fabsq(e.v[i]); for(int i=0;i<4;i++) chk(M[j*ld+i],e.v[i],m,1e-7,"qln_jac",i,j); if(ld>4) CHECK(M[j*ld+4]==7,"wrote outside the matrix"); } mc::nontrivial(mc::Hash().bytes(Q,32)(ld)); }
static const double DU[][4]={{0,0,0,0},{1,0,0,0},{0,0,0,1},{.5,-2,3,0},{1,2,-3,4},{-10,0,.1,-2}};
static void sp_dlnjac(){ V3 rv=pick_rv(); mc::split(); double sc=mc::pick(SC,"scale"); const auto&d=DU[choose(6,"dual")]; size_t ld=8+(size_t)choose(2,"pad"); Q4 q=qexp(rv); double S[8]; toq((LD)sc*q,S); memcpy(S+4,d,32); LD vn=nrm(v3(S[0],S[1],S[2])); if(S[3]<0&&vn<1e-2L*sc) mc::skip();
    std::vector<double> M(8*ld,7); aa_dmat J=AA_DMAT_INIT(8,8,M.data(),ld); mc::step(); aa_tf_duqu_ln_jac(S,&J); Fq D=ff(d),Q=ff(S); auto dir=[&](const Fq&x){ return fd(fln,x,D,(F)1e-7L); };
    for(int j=0;j<4;j++){ Fq e=fd(fln,Q,unitv(j)),g=fd(dir,Q,unitv(j),(F)1e-7L); F m=0,n=0; for(int i=0;i<4;i++){ if(fabsq(e.v[i])>m) m=fabsq(e.v[i]); if(fabsq(g.v[i])>n) n=fabsq(g.v[i]); } for(int i=0;i<4;i++){ chk(M[j*ld+i],e.v[i],m,1e-7,"duqu_ln_jac rr",i,j); chk(M[(j+4)*ld+i+4],e.v[i],m,1e-7,"duqu_ln_jac dd",i,j); chk(M[(j+4)*ld+i],0,0,0,"duqu_ln_jac rd",i,j); chk(M[j*ld+i+4],g.v[i],n,1e-6,"duqu_ln_jac dr",i,j); } }
    if(ld>8) for(size_t j=0;j<8;j++) CHECK(M[j*ld+8]==7,"wrote outside the matrix"); mc::nontrivial(mc::Hash().bytes(S,64)(ld)); }
/* directional derivatives of exponential, logarithm and rotation vectors along an actual motion */
static void sp_dir(){ V3 rv=pick_rv(); mc::split(); V3 w=from3(WS[choose(7,"w")]); mc::step(7); double e[3],de[3],o[4],G[12]; to3(.5L*rv,e); to3(w,de); Fq E={{e[0],e[1],e[2],0}},DE={{de[0],de[1],de[2],0}}; Fq x=fd(fexp,E,DE); F m=0; for(F y:x.v) if(fabsq(y)>m) m=fabsq(y);
    aa_tf_qdpexp(e,de,o); for(int i=0;i<4;i++) chk(o[i],x.v[i],m,T9,"qdpexp",i,0); aa_tf_qdpexpj(e,de,o); for(int i=0;i<4;i++) chk(o[i],x.v[i],m,T9,"qdpexpj",i,0);
    double v[3]; to3(rv,v); Fq V2={{v[0]/2,v[1]/2,v[2]/2,0}},DV2={{de[0]/2,de[1]/2,de[2]/2,0}}; x=fd(fexp,V2,DV2); m=0; for(F y:x.v) if(fabsq(y)>m) m=fabsq(y); aa_tf_rotvec_diff2qdiff(v,de,o); for(int i=0;i<4;i++) chk(o[i],x.v[i],m,T9,"rotvec_diff2qdiff",i,0);
    LD n=nrm(rv); if(n==0||n>1e-9L){ aa_tf_rotvec_qjac(v,G); for(int i=0;i<4;i++){ double s=0; for(int j=0;j<3;j++) s+=G[4*j+i]*de[j]; chk(s,x.v[i],m,1e-7,"rotvec_qjac",i,0); } }
    { V3 V=from3(v),W=rvmat(V)*w; double ow[3]; aa_tf_rotvec_diff2vel(v,de,ow); sameV(ow,W,1e-8,"rotvec_diff2vel"); }
    if(n<PI_L*2-.5L){ /* logarithm of a unit quaternion moving with angular velocity w */ Q4 q=qexp(rv),dq=.5L*(q4(w[0],w[1],w[2],0)*q); double qd[4],dd[4]; toq(q,qd); toq(dq,dd); x=fd(fln,ff(qd),ff(dd)); m=0; for(F y:x.v) if(fabsq(y)>m) m=fabsq(y); aa_tf_qduln(qd,dd,o); for(int i=0;i<3;i++) chk(o[i],x.v[i],m,1e-8,"qduln",i,0); aa_tf_qdulnj(qd,dd,o); for(int i=0;i<3;i++) chk(o[i],x.v[i],m,1e-8,"qdulnj",i,0); }
    mc::nontrivial(mc::Hash().bytes(v,24).bytes(de,24)); }
/* the velocity Jacobian's columns */
static void sp_jac(){ V3 rv=pick_rvs(); mc::split(); Rep r=rep(rv,from3(TRS[choose(7,"translation")]),choose(2,"sign")); size_t n=mc::pick({(size_t)1,(size_t)2,(size_t)7},"columns"),l1=6+(size_t)choose(2,"pad"),l2=8+(size_t)choose(2,"pad out"); std::vector<double> A(n*l1),B(n*l2,7); for(size_t j=0;j<n;j++){ for(size_t i=0;i<l1;i++) A[j*l1+i]=7; for(int i=0;i<3;i++){ A[j*l1+(size_t)i]=VS[(j+1)%4][i]; A[j*l1+3+(size_t)i]=WS[(j+3)%7][i]; } } aa_dmat J=AA_DMAT_INIT(6,n,A.data(),l1),K=AA_DMAT_INIT(8,n,B.data(),l2); void*p0=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(); aa_tf_duqu_jac_vel2diff(r.S,&J,&K); CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==p0,"temporary memory was not released");
    for(size_t j=0;j<n;j++){ St d=der(fromq(r.E),r.P.t,from3(&A[j*l1+3]),from3(&A[j*l1])); cmp(&B[j*l2],d.S,8,T9,"duqu_jac_vel2diff"); if(l2>8) CHECK(B[j*l2+8]==7,"wrote outside the matrix"); } mc::nontrivial(mc::Hash().bytes(r.S,64)(n)(l1)(l2)); }
int main(int c,char**v){ return mc::run(c,v,"C15",{{"conversions",sp_diff},{"integration",sp_int},{"acceleration",sp_acc},{"qln_jac",sp_qlnjac},{"duqu_ln_jac",sp_dlnjac},{"directional",sp_dir},{"vel2diff",sp_jac}}); }
