// The C++ interface: transform classes, planar classes, expression templates, region containers; oracles are the long double rotation model,
// the dense reference matrices and the standard containers.
#include "amino.h"
#include "amino/mem.hpp"
#include "amino/tf.hpp"
#include "amino/mat.hpp"
#include <list>
#include <map>
#define T9 1e-9
#include "posemodel.hpp"
#include "lamodel.hpp"
using mc::choose; namespace am=amino; using amino::operator*; using amino::operator+; using amino::operator/;
/* ---------- spatial ---------- */
static void q3(const aa_tf_vec3&v,V3 e,const char*w){ sameV(v.data,e,T9,w); }
static void qR(const aa_tf_quat&q,const M3&R,const char*w,double t=T9){ sameQR(q.data,R,t,w); }
static void mR(const aa_tf_rotmat&q,const M3&R,const char*w){ sameR(q.data,R,T9,w); }
static void aR(const aa_tf_axang&a,const M3&R,const char*w,double t=1e-7){ V3 x=from3(a.axis.data); if(fabs(sin(a.angle/2))>1e-6) CHECK(fabsl(nrm(x)-1)<1e-6L,"%s: axis of length %Lg",w,nrm(x)); sameR(rexp((LD)a.angle*x),R,t,w); }
static void tE(const aa_tf_qv&e,const Pose&P,const char*w,double t=T9){ sameQV(e.r.data,e.v.data,P,t,w); }
static void tS(const aa_tf_duqu&s,const Pose&P,const char*w,double t=T9){ sameS(s.data,P,t,w); }
static void tT(const aa_tf_tfmat&m,const Pose&P,const char*w){ sameT(m.data,P,T9,w); }
template<class T> static T mk(const double*p){ T x; memcpy(&x,p,sizeof x); return x; }
static void sp_orient(){ V3 w=pick_rv(); mc::split(); LD th=nrm(w); int neg=choose(2,"sign"); M3 R=rexp(w); Q4 q0=qexp(w); if(neg) q0=(-1)*q0; double q[4],m[9],a[4],rv[3]; toq(q0,q); tom(R,m); to3(w,rv); V3 ax= th>0? (1/th)*w : v3(0,0,1); to3(ax,a); a[3]=(double)th;
    aa_tf_quat cq=mk<aa_tf_quat>(q); aa_tf_rotmat cm=mk<aa_tf_rotmat>(m); aa_tf_axang ca=mk<aa_tf_axang>(a); mc::step(24);
    for(int k=0;k<2;k++){ qR(k?am::Quat(&cq):am::Quat(cq),R,"Quat(quat)"); qR(k?am::Quat(&cm):am::Quat(cm),R,"Quat(rotmat)",1e-7); qR(k?am::Quat(&ca):am::Quat(ca),R,"Quat(axang)"); mR(k?am::RotMat(&cq):am::RotMat(cq),R,"RotMat(quat)"); mR(k?am::RotMat(&cm):am::RotMat(cm),R,"RotMat(rotmat)"); mR(k?am::RotMat(&ca):am::RotMat(ca),R,"RotMat(axang)"); aR(k?am::AxisAngle(&cq):am::AxisAngle(cq),R,"AxisAngle(quat)"); aR(k?am::AxisAngle(&cm):am::AxisAngle(cm),R,"AxisAngle(rotmat)",1e-6); aR(k?am::AxisAngle(&ca):am::AxisAngle(ca),R,"AxisAngle(axang)"); }
    CHECK(!memcmp(am::Quat(cq).data,q,32),"Quat(quat) changed the numbers"); qR(am::Quat::from_axang(a,a[3]),R,"Quat::from_axang"); qR(am::Quat::from_rotvec(rv),R,"Quat::from_rotvec"); qR(am::Quat::from_xyzw(q[0],q[1],q[2],q[3]),R,"Quat::from_xyzw"); mR(am::RotMat::from_rotvec(rv),R,"RotMat::from_rotvec"); mR(am::RotMat(m[0],m[3],m[6],m[1],m[4],m[7],m[2],m[5],m[8]),R,"RotMat of nine numbers"); aR(am::AxisAngle::from_rotvec(rv),R,"AxisAngle::from_rotvec"); aR(am::AxisAngle(3*a[0],3*a[1],3*a[2],a[3]),R,"AxisAngle(x,y,z,theta)"); aR(am::AxisAngle(a,a[3]),R,"AxisAngle(axis,theta)");
    for(auto&p:PTS){ am::Vec3 v(p),o; am::Quat(cq).rotate(&v,&o); q3(o,R*from3(p),"Quat::rotate"); q3(am::Quat(cq).rotate(v),R*from3(p),"Quat::rotate"); q3(cm*v,R*from3(p),"rotmat * vec3"); q3(v+cm*v,from3(p)+R*from3(p),"vec3 + vec3"); q3(v/4.,.25L*from3(p),"vec3 / scalar"); }
    mR(am::RotMat(),m3eye(),"RotMat()"); qR(am::Quat(),m3eye(),"Quat()"); aR(am::AxisAngle(),m3eye(),"AxisAngle()"); mc::nontrivial(mc::Hash().bytes(q,32)); }
static void sp_xyz(){ int i=choose(NANG,"angle"); int s=choose(2,"sign"); mc::split(); double t=(double)((s?-1:1)*ANGS[i]); auto&tr_=TRS[choose(7,"translation")]; am::Vec3 v(tr_); V3 tv=from3(tr_); M3 X=rexp(v3(t,0,0)),Y=rexp(v3(0,t,0)),Z=rexp(v3(0,0,t)); am::XAngle x(t); am::YAngle y(t); am::ZAngle z(t); mc::step(12);
    qR(am::Quat(x),X,"Quat(XAngle)"); qR(am::Quat(y),Y,"Quat(YAngle)"); qR(am::Quat(z),Z,"Quat(ZAngle)"); mR(am::RotMat(x),X,"RotMat(XAngle)"); mR(am::RotMat(y),Y,"RotMat(YAngle)"); mR(am::RotMat(z),Z,"RotMat(ZAngle)"); tS(am::DualQuat(x,v),{X,tv},"DualQuat(XAngle)"); tS(am::DualQuat(y,v),{Y,tv},"DualQuat(YAngle)"); tS(am::DualQuat(z,v),{Z,tv},"DualQuat(ZAngle)"); tE(am::QuatTran(x,v),{X,tv},"QuatTran(XAngle)"); tE(am::QuatTran(y,v),{Y,tv},"QuatTran(YAngle)"); tE(am::QuatTran(z,v),{Z,tv},"QuatTran(ZAngle)"); tS(am::DualQuat(v),{m3eye(),tv},"DualQuat(vec3)"); mc::nontrivial(mc::Hash()(t).bytes(tr_,24)); }
static void sp_pose(){ V3 w=pick_rv(); mc::split(); auto&t=TRS[choose(7,"translation")]; Rep r=rep(w,from3(t),choose(2,"sign")); const Pose&P=r.P; Pose I=inv(P); aa_tf_tfmat T=mk<aa_tf_tfmat>(r.T); aa_tf_qv E=mk<aa_tf_qv>(r.E); aa_tf_duqu S=mk<aa_tf_duqu>(r.S); const aa_tf_quat&q=E.r; const aa_tf_vec3&v=E.v; double a[4]; LD th=nrm(w); V3 ax= th>0? (1/th)*w : v3(1,0,0); to3(ax,a); a[3]=(double)th; mc::step(40);
    for(int k=0;k<2;k++){
        tS(k?am::DualQuat(&S):am::DualQuat(S),P,"DualQuat(duqu)"); tS(k?am::DualQuat(&E):am::DualQuat(E),P,"DualQuat(qv)"); tS(k?am::DualQuat(&q,&v):am::DualQuat(q,v),P,"DualQuat(quat,vec3)"); tS(k?am::DualQuat(&T):am::DualQuat(T),P,"DualQuat(tfmat)",1e-7);
        tE(k?am::QuatTran(&S):am::QuatTran(S),P,"QuatTran(duqu)"); tE(k?am::QuatTran(&E):am::QuatTran(E),P,"QuatTran(qv)"); tE(k?am::QuatTran(&q,&v):am::QuatTran(q,v),P,"QuatTran(quat,vec3)"); { am::QuatTran*h=k?new am::QuatTran(&T):new am::QuatTran(T); tE(*h,P,"QuatTran(tfmat)",1e-7); delete h; }
        tT(k?am::TfMat(&S):am::TfMat(S),P,"TfMat(duqu)"); tT(k?am::TfMat(&E):am::TfMat(E),P,"TfMat(qv)"); tT(k?am::TfMat(&q,&v):am::TfMat(q,v),P,"TfMat(quat,vec3)"); tT(k?am::TfMat(&T):am::TfMat(T),P,"TfMat(tfmat)");
        q3(k?am::Vec3(&S):am::Vec3(S),P.t,"Vec3(duqu)"); q3(k?am::Vec3(&T):am::Vec3(T),P.t,"Vec3(tfmat)"); }
    tS(am::DualQuat(r.S),P,"DualQuat(double*)"); tS(am::DualQuat(mk<aa_tf_axang>(a),v),P,"DualQuat(axang,vec3)"); tS(am::DualQuat::from_xyzw(r.S[0],r.S[1],r.S[2],r.S[3],r.S[4],r.S[5],r.S[6],r.S[7]),P,"DualQuat::from_xyzw"); tE(am::QuatTran::from_xyzw(r.E[0],r.E[1],r.E[2],r.E[3],r.E[4],r.E[5],r.E[6]),P,"QuatTran::from_xyzw"); tE(am::QuatTran::from_qv(r.E),P,"QuatTran::from_qv"); tT(am::TfMat::from_tfmat(r.T),P,"TfMat::from_tfmat"); q3(am::Vec3::from_tfmat(r.T),P.t,"Vec3::from_tfmat"); q3(am::Vec3::from_xyz(t[0],t[1],t[2]),P.t,"Vec3::from_xyz"); q3(am::Vec3(v),P.t,"Vec3(vec3)");
    am::DualQuat D(S); am::QuatTran Q(E); am::TfMat M(T); tS(D.conj(),I,"DualQuat::conj"); q3(D.translation(),P.t,"DualQuat::translation"); tE(Q.conj(),I,"QuatTran::conj"); tS(D,P,"DualQuat after conj");
    for(auto&p:PTS){ V3 e=P*from3(p); am::Vec3 x(p),o; double b[3]; Q.transform(p,b); sameV(b,e,T9,"QuatTran::transform"); Q.transform(&x,&o); q3(o,e,"QuatTran::transform"); q3(Q.transform(x),e,"QuatTran::transform"); M.transform(p,b); sameV(b,e,T9,"TfMat::transform"); M.transform(&x,&o); q3(o,e,"TfMat::transform"); q3(M.transform(x),e,"TfMat::transform"); }
    Pose id={m3eye(),v3(0,0,0)}; tS(am::DualQuat(),id,"DualQuat()"); tE(am::QuatTran(),id,"QuatTran()"); tT(am::TfMat(),id,"TfMat()");
    for(auto&p:PTS){ double dx[6]={p[0],p[1],p[2],.5,-p[0],2},ds[8]; V3 dv=from3(dx+AA_TF_DX_V),om=from3(dx+AA_TF_DX_W); Q4 qr=fromq(r.S), dr=(.5L)*(q4(om[0],om[1],om[2],0)*qr); Q4 dd=(.5L)*(q4(dv[0],dv[1],dv[2],0)*qr+q4(P.t[0],P.t[1],P.t[2],0)*dr); memcpy(ds,am::DualQuat::from_dx(r.S,dx).data,64); sameQ(ds,dr,1e-9,"DualQuat::from_dx"); for(int i=0;i<4;i++) CHECK(fabsl(ds[4+i]-dd[i])<=1e-9L*(1+10*nrm(P.t)),"DualQuat::from_dx: dual part %d is %g, expected %Lg",i,ds[4+i],dd[i]); }
    mc::nontrivial(mc::Hash().bytes(r.S,64)); }
static void sp_mul(){ V3 w1=pick_rvs("first"); mc::split(); V3 w2=pick_rvs("second"); int n=mc::thorough()?7:3; auto&t1=TRS[choose(n,"t1")+(n==3)*3],&t2=TRS[choose(n,"t2")+(n==3)*3]; int sg=choose(mc::thorough()?4:2,"signs"); Rep a=rep(w1,from3(t1),sg&1),b=rep(w2,from3(t2),sg>>1); Pose C=a.P*b.P; mc::step(7);
    auto A=mk<aa_tf_tfmat>(a.T),B=mk<aa_tf_tfmat>(b.T); tT(A*B,C,"tfmat * tfmat"); tS(mk<aa_tf_duqu>(a.S)*mk<aa_tf_duqu>(b.S),C,"duqu * duqu"); tE(mk<aa_tf_qv>(a.E)*mk<aa_tf_qv>(b.E),C,"qv * qv"); qR(mk<aa_tf_quat>(a.E)*mk<aa_tf_quat>(b.E),C.R,"quat * quat"); mR(mk<aa_tf_rotmat>(a.T)*mk<aa_tf_rotmat>(b.T),C.R,"rotmat * rotmat");
    tT(am::TfMat(A)*am::TfMat(mk<aa_tf_qv>(b.E)),C,"TfMat * TfMat"); tS(am::DualQuat(A)*am::DualQuat(mk<aa_tf_duqu>(b.S)),C,"DualQuat * DualQuat",1e-7); tE(am::QuatTran(mk<aa_tf_duqu>(a.S))*am::QuatTran(mk<aa_tf_qv>(b.E)),C,"QuatTran * QuatTran"); qR(am::Quat(mk<aa_tf_rotmat>(a.T))*am::Quat(mk<aa_tf_quat>(b.E)),C.R,"Quat * Quat",1e-7); mc::nontrivial(mc::Hash().bytes(a.S,64).bytes(b.S,64)); }
/* ---------- planar ---------- */
struct C2 { LD re,im; }; static C2 operator*(C2 a,C2 b){ return {a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re}; } static C2 operator+(C2 a,C2 b){ return {a.re+b.re,a.im+b.im}; }
struct P2 { C2 z,v; }; static P2 operator*(P2 a,P2 b){ return {a.z*b.z,a.v+a.z*b.v}; } static C2 cj(C2 z){ return {z.re,-z.im}; } static P2 inv(P2 a){ C2 c=cj(a.z)*a.v; return {cj(a.z),{-c.re,-c.im}}; }
static void cC(aa_tf_cmplx c,C2 e,const char*w){ double s=1+(double)fabsl(e.re)+(double)fabsl(e.im), r=am::BaseCmplx::c_real(c), i=am::BaseCmplx::c_imag(c); CHECK(fabsl(r-e.re)<=1e-11*s&&fabsl(i-e.im)<=1e-11*s,"%s: (%g, %g), expected (%Lg, %Lg)",w,r,i,e.re,e.im); }
static void cR(const aa_tf_rotmatp&R,C2 z,const char*w){ double e[4]={(double)z.re,(double)z.im,(double)-z.im,(double)z.re}; for(int i=0;i<4;i++) NEAR(R.data[i],e[i],1e-11,"%s",w); }
static void cE(const aa_tf_cv&e,P2 p,const char*w){ cC(e.c,p.z,w); cC(e.v,p.v,w); }
static void cT(const aa_tf_tfmatp&T,P2 p,const char*w){ cR(T.R,p.z,w); cC(T.v,p.v,w); }
static const LD PAN[]={0,1e-12L,-1e-6L,1e-4L,.3L,-1,PI_L/2,-PI_L/2,2,3,PI_L-1e-6L,-PI_L+1e-6L,-2.5L,.75L*PI_L,4,-5,7}; static const double PTV[][2]={{0,0},{1,0},{0,-2},{3,4},{-1e-6,100}};
static void ang(double x,LD a,const char*w){ LD d=fabsl(atan2l(sinl(x-a),cosl(x-a))); CHECK(d<1e-11L,"%s: angle %.17g, expected %.17Lg",w,x,a); }
static void sp_planar(){ double th=(double)PAN[choose(17,"angle")]; mc::split(); auto&t=PTV[choose(5,"translation")]; P2 P={{cosl(th),sinl(th)},{t[0],t[1]}}; std::complex<double> zs((double)P.z.re,(double)P.z.im); aa_tf_cmplx z=am::BaseCmplx::c_cmplx(zs); am::Vec2 V(t[0],t[1]); aa_tf_vec2 v=V; aa_tf_rotmatp R; R.data[0]=R.data[3]=zs.real(); R.data[1]=zs.imag(); R.data[2]=-zs.imag(); aa_tf_cv E; E.c=z; E.v=v; aa_tf_tfmatp T; T.R=R; T.v=v; am::AngleP A(th); mc::step(50);
    CHECK(V.x()==t[0]&&V.y()==t[1],"Vec2(x,y)"); { am::Vec2 u(v); u.x()=5; CHECK(u.x()==5&&u.y()==t[1],"Vec2::x()"); u.y()=-6; CHECK(u.x()==5&&u.y()==-6,"Vec2::y()"); const am::Vec2 c(u); CHECK(c.x()==5&&c.y()==-6,"Vec2 copy"); }
    ang(A.angle(),th,"AngleP(double)"); ang(am::AngleP(z).angle(),th,"AngleP(cmplx)"); ang(am::AngleP(zs).angle(),th,"AngleP(complex)"); ang(am::AngleP(R).angle(),th,"AngleP(rotmatp)"); ang(am::AngleP(&R).angle(),th,"AngleP(rotmatp*)"); { am::AngleP b(1.); b.angle()=th; ang(b.angle(),th,"AngleP::angle()"); }
    cC(am::Cmplx(zs.real(),zs.imag()),P.z,"Cmplx(re,im)"); cC(am::Cmplx(zs),P.z,"Cmplx(complex)"); cC(am::Cmplx(z),P.z,"Cmplx(cmplx)"); cC(am::Cmplx(R),P.z,"Cmplx(rotmatp)"); cC(am::Cmplx(&R),P.z,"Cmplx(rotmatp*)"); cC(am::Cmplx(A),P.z,"Cmplx(AngleP)"); cC(am::Cmplx(&A),P.z,"Cmplx(AngleP*)"); cC(am::Cmplx::from_angle(th),P.z,"Cmplx::from_angle"); cC(am::Cmplx::ident(),{1,0},"Cmplx::ident"); am::Cmplx Z(z); ang(Z.angle(),th,"Cmplx::angle"); ang(Z.uln(),th,"Cmplx::uln"); cC(Z.conj(),cj(P.z),"Cmplx::conj"); cC(Z,P.z,"Cmplx after conj");
    cR(am::RotMatP(),{1,0},"RotMatP()"); cR(am::RotMatP(R),P.z,"RotMatP(rotmatp)"); cR(am::RotMatP(&R),P.z,"RotMatP(rotmatp*)"); cR(am::RotMatP(R.data[0],R.data[2],R.data[1],R.data[3]),P.z,"RotMatP of four numbers"); cR(am::RotMatP(zs),P.z,"RotMatP(complex)"); cR(am::RotMatP(z),P.z,"RotMatP(cmplx)"); cR(am::RotMatP(th),P.z,"RotMatP(double)"); cR(am::RotMatP(A),P.z,"RotMatP(AngleP)"); cR(am::RotMatP(&A),P.z,"RotMatP(AngleP*)"); am::RotMatP M(R); ang(M.angle(),th,"RotMatP::angle"); ang(M.uln(),th,"RotMatP::uln"); cR(M.inv(),cj(P.z),"RotMatP::inv"); cR(M,P.z,"RotMatP after inv");
    P2 I={{1,0},{0,0}}; cE(am::CmplxTran(),I,"CmplxTran()"); cE(am::CmplxTran(z,v),P,"CmplxTran(cmplx,vec2)"); cE(am::CmplxTran(zs,v),P,"CmplxTran(complex,vec2)"); cE(am::CmplxTran(th,v),P,"CmplxTran(double,vec2)"); cE(am::CmplxTran(A,v),P,"CmplxTran(AngleP,vec2)"); cE(am::CmplxTran(&A,v),P,"CmplxTran(AngleP*,vec2)"); cE(am::CmplxTran(M,v),P,"CmplxTran(RotMatP,vec2)"); cE(am::CmplxTran(&M,v),P,"CmplxTran(RotMatP*,vec2)"); cE(am::CmplxTran(E),P,"CmplxTran(cv)"); cE(am::CmplxTran(&E),P,"CmplxTran(cv*)"); cE(am::CmplxTran(T),P,"CmplxTran(tfmatp)"); cE(am::CmplxTran(&T),P,"CmplxTran(tfmatp*)"); cE(am::CmplxTran(E).inv(),inv(P),"CmplxTran::inv");
    cT(am::TfMatP(),I,"TfMatP()"); cT(am::TfMatP(z,v),P,"TfMatP(cmplx,vec2)"); cT(am::TfMatP(zs,v),P,"TfMatP(complex,vec2)"); cT(am::TfMatP(th,v),P,"TfMatP(double,vec2)"); cT(am::TfMatP(A,v),P,"TfMatP(AngleP,vec2)"); cT(am::TfMatP(&A,v),P,"TfMatP(AngleP*,vec2)"); cT(am::TfMatP(R,v),P,"TfMatP(rotmatp,vec2)"); cT(am::TfMatP(&R,v),P,"TfMatP(rotmatp*,vec2)"); cT(am::TfMatP(T),P,"TfMatP(tfmatp)"); cT(am::TfMatP(&T),P,"TfMatP(tfmatp*)"); cT(am::TfMatP(E),P,"TfMatP(cv)"); cT(am::TfMatP(&E),P,"TfMatP(cv*)"); cT(am::TfMatP(T).inv(),inv(P),"TfMatP::inv");
    for(auto&p:PTV){ am::Vec2 x(p[0],p[1]); C2 q={p[0],p[1]}; cC(Z*x,P.z*q,"Cmplx * Vec2"); cC(R*x,P.z*q,"rotmatp * Vec2"); cC(T*(aa_tf_vec2)x,P.v+P.z*q,"tfmatp * vec2"); cC(E*(aa_tf_vec2)x,P.v+P.z*q,"cv * vec2"); }
    for(int i=0;i<17;i++) for(auto&u:PTV){ P2 Q={{cosl(PAN[i]),sinl(PAN[i])},{u[0],u[1]}}; am::Vec2 uv(u[0],u[1]); am::CmplxTran F((double)PAN[i],uv); am::TfMatP U((double)PAN[i],uv); cE((aa_tf_cv)E*(aa_tf_cv)F,P*Q,"cv * cv"); cT((aa_tf_tfmatp)T*(aa_tf_tfmatp)U,P*Q,"tfmatp * tfmatp"); cR((aa_tf_rotmatp)R*(aa_tf_rotmatp)U.R,P.z*Q.z,"rotmatp * rotmatp"); }
    mc::nontrivial(mc::Hash()(th).bytes(t,16)); }
/* ---------- expressions: the same text is evaluated over amino objects and over the reference ---------- */
static Ref operator*(const Ref&A,double k){ return k*A; }
struct VC { double a,b; }; 
#define VFORMS \
 F(E_,x)F(E_,a*x)F(E_,x*a)F(E_,b*(a*x))F(E_,(a*x)*b)F(E_,x+y)F(E_,a*x+y)F(E_,y+a*x)F(E_,a*x+b*y)F(E_,x+y+z)F(E_,x+(y+z))F(E_,a*(x+y))F(E_,(x+y)*a)F(E_,a*(x+y)+z)F(E_,z+a*(x+y))F(E_,a*x+(y+z))F(E_,(y+z)+a*x)F(E_,a*x+b*(y+z))F(E_,a*(b*(x+y)))F(E_,a*(a*x+b*y))F(E_,x+(y+(z+a*x)))F(E_,a*x+(b*y+a*z))F(E_,b*(x+a*(y+z))) \
 F(M_,A*x)F(M_,a*(A*x))F(M_,(A*x)*a)F(M_,(a*A)*x)F(M_,A*(a*x))F(M_,(a*A)*(b*x))F(M_,D.t()*x)F(M_,a*(D.t()*x))F(M_,D.t()*(a*x))F(M_,b*(a*(A*x))) \
 F(M_,A*x+y)F(M_,y+A*x)F(M_,A*x+a*y)F(M_,a*y+A*x)F(M_,a*(A*x+y))F(M_,(A*x+a*y)*b)F(M_,A*x+(y+z))F(M_,(y+z)+A*x)F(M_,A*x+a*(y+z))F(M_,a*(y+z)+A*x)F(M_,D.t()*x+y)F(M_,b*y+D.t()*x)F(M_,a*(A*x)+b*y)F(M_,b*(a*(A*x)+b*y))F(M_,y+a*(D.t()*x))F(M_,a*(A*x+(y+z)))F(M_,A*x+(y+a*z))F(M_,(a*A)*(b*x)+a*(b*y))
enum { E_, M_ };
/* x is the operand of the matrix product (length k); for elementwise forms all have length m */
#define F(kind,e) {#e,kind},
static const struct { const char*s; int kind; } VN[]={ VFORMS };
#undef F
static const int NVF=(int)(sizeof VN/sizeof*VN);
static void vassign(int f,am::DVec&t,am::DVec&x,am::DVec&y,am::DVec&z,am::DMat&A,am::DMat&D,double a,double b){ int i=0;
#define F(kind,e) if(i++==f){ t = e; return; }
    VFORMS
#undef F
}
static Ref vref(int f,const Ref&x,const Ref&y,const Ref&z,const Ref&A,const Ref&D,double a,double b){ int i=0;
#define F(kind,e) if(i++==f) return e;
    VFORMS
#undef F
    return Ref(); }
static Ref cv(SVec&v){ Ref r(v.n,1); r.a=v.get(); return r; }
static am::DVec dv(SVec&v){ return am::DVec(v.n,v.buf,v.inc); } static am::DMat dm(SMat&m){ return am::DMat(m.m,m.n,m.buf,m.ld); }
static void sp_vec(){ int f=choose(NVF,"form"); int mx=mc::thorough()?4:3; size_t m=(size_t)choose(mx,"rows")+1; mc::split(); bool mf=VN[f].kind==M_; size_t k= mf? (size_t)choose(mx,"cols")+1 : m; static const size_t INC[]={1,2,3}; int ni=mc::thorough()?3:2; SVec x(k,INC[choose(ni,"inc x")]),y(m,INC[choose(ni,"inc y")]),z(m,INC[choose(ni,"inc z")]),t(m,INC[choose(ni,"inc target")]); SMat A(m,k,m+(size_t)choose(2,"pad")),D(k,m,k+1); int alias=choose(mf?3:4,"target alias"); if(alias&&t.inc!=1) mc::skip(); int sc=choose(mc::thorough()?3:2,"scalars"); double a= sc==2?0:sc?2:-.5,b= sc?-1.25:3;
    x.set(vdata(1,k)); y.set(vdata(2,m)); z.set(vdata(3,m)); t.set(std::vector<double>(m,NAN)); A.set(data(4,m,k)); D.set(data(5,k,m)); SVec*T= alias==0?&t: alias==1?&y: alias==2?&z:&x; Ref e=vref(f,cv(x),cv(y),cv(z),A.get(),D.get(),a,b); mc::step();
    { am::DVec X=dv(x),Y=dv(y),Z=dv(z),W=dv(*T); am::DMat MA=dm(A),MD=dm(D); vassign(f,W,X,Y,Z,MA,MD,a,b); CHECK(W.data==T->buf&&W.len==T->n&&W.inc==T->inc,"%s: assignment moved the view",VN[f].s); } char w[128]; snprintf(w,128,"target = %s (alias %d)",VN[f].s,alias); near(T->get(),e.a,1e-12,w); T->gaps(w); for(SVec*v:{&x,&y,&z}) if(v!=T) v->unchanged(w); A.unchanged(w); D.unchanged(w); mc::nontrivial(mc::Hash()(f)(m)(k)(x.inc)(y.inc)(z.inc)(t.inc)(A.ld)(alias)(sc)); }
#define MFORMS \
 F(C)F(a*C)F(C*a)F(b*(a*C))F((a*C)*b)F(G.t())F(a*G.t())F(G.t()*a)F(b*(a*G.t()))F(A*B)F(a*(A*B))F((A*B)*a)F(D.t()*B)F(A*E.t())F(D.t()*E.t())F((a*A)*B)F(A*(a*B))F((a*A)*(b*B))F((a*D.t())*B)F(A*(a*E.t()))F(D.t()*(a*B))F((a*A)*E.t())F((a*D.t())*(b*E.t()))F((a*A)*(b*E.t())) \
 F(A*B+C)F(C+A*B)F(A*B+a*C)F(a*C+A*B)F(a*(A*B+C))F((A*B+a*C)*b)F(a*(A*B)+b*C)F(b*(a*(A*B)+b*C))F(A*B+G.t())F(G.t()+A*B)F(A*B+a*G.t())F(D.t()*B+C)F(a*C+A*E.t())F(D.t()*E.t()+b*C)F(a*(D.t()*E.t())+G.t())F(b*(A*B+a*G.t()))
#define F(e) #e,
static const char*const MN[]={ MFORMS };
#undef F
static const int NMF=(int)(sizeof MN/sizeof*MN);
static void massign(int f,am::DMat&t,am::DMat&A,am::DMat&B,am::DMat&C,am::DMat&D,am::DMat&E,am::DMat&G,double a,double b){ int i=0;
#define F(e) if(i++==f){ t = e; return; }
    MFORMS
#undef F
}
static Ref mref(int f,const Ref&A,const Ref&B,const Ref&C,const Ref&D,const Ref&E,const Ref&G,double a,double b){ int i=0;
#define F(e) if(i++==f) return e;
    MFORMS
#undef F
    return Ref(); }
static void sp_mat(){ int f=choose(NMF,"form"); int mx=mc::thorough()?4:3; size_t m=(size_t)choose(mx,"rows")+1; mc::split(); size_t n=(size_t)choose(mx,"cols")+1,k=(size_t)choose(mx,"inner")+1; int p=choose(mc::thorough()?16:4,"padding"); if(!mc::thorough()) p*=5; SMat A(m,k,m+(p&1)),B(k,n,k+(p>>1&1)),C(m,n,m+(p>>2&1)),D(k,m,k+(p&1)),E(n,k,n+(p>>1&1)),G(n,m,n+(p>>2&1)),t(m,n,m+(p>>3&1)*2); int alias=choose(2,"target is C"); int sc=choose(2,"scalars"); double a=sc?2:-.5,b=sc?-1.25:3; A.set(data(1,m,k)); B.set(data(2,k,n)); C.set(data(3,m,n)); D.set(data(4,k,m)); E.set(data(5,n,k)); G.set(data(6,n,m)); t.set(Ref(m,n,NAN)); SMat&T=alias?C:t;
    Ref e=mref(f,A.get(),B.get(),C.get(),D.get(),E.get(),G.get(),a,b); mc::step(); { am::DMat MA=dm(A),MB=dm(B),MC_=dm(C),MD=dm(D),ME=dm(E),MG=dm(G),W=dm(T); massign(f,W,MA,MB,MC_,MD,ME,MG,a,b); CHECK(W.data==T.buf&&W.rows==m&&W.cols==n&&W.ld==T.ld,"target = %s: assignment moved the view",MN[f]); } char w[128]; snprintf(w,128,"target = %s (alias %d)",MN[f],alias); near(T.get(),e,1e-12,w); T.gaps(w); for(SMat*x:{&A,&B,&C,&D,&E,&G}) if(x!=&T) x->unchanged(w); mc::nontrivial(mc::Hash()(f)(m)(n)(k)(p)(alias)(sc)); }
static void sp_inv(){ size_t n=(size_t)choose(mc::thorough()?5:4,"size")+1; mc::split(); int d=choose(12,"data"),mode=choose(4,"mode"); size_t l1=n+(size_t)choose(3,"pad"),l2=n+(size_t)choose(3,"pad"); SMat A(n,n,l1),t(n,n,l2); Ref R=data(d,n,n)+(d%3?2.:0.)*Ref::eye(n),X; if(!ref_inv(R,X)||fabs(ref_det(R))<.05) mc::skip(); A.set(R); t.set(Ref(n,n,NAN)); mc::step(); am::DMat M=dm(A),W=dm(t); if(mode==0){ W=M.inverse(); near(t.get(),X,1e-8,"inverse"); A.unchanged("inverse"); t.gaps("inverse"); } else { if(mode==1) M=M.inverse(); else if(mode==2) M.invert(); else { M=M.inverse(); M*=-2; X=-2*X; } near(A.get(),X,1e-8,"inverse in place"); A.gaps("inverse in place"); } mc::nontrivial(mc::Hash()(n)(d)(mode)(l1)(l2)); }
/* compound assignment sequences on strided views */
static void sp_compound(){ int depth=mc::thorough()?6:4; size_t n=(size_t)choose(3,"length")+1; size_t ix=(size_t)choose(2,"inc")+1,iy=(size_t)choose(2,"inc y")*2+1; mc::split(); SVec x(n,ix),y(n,iy); SMat m(n,2,n+1); x.set(vdata(1,n)); y.set(vdata(2,n)); m.set(data(3,n,2)); std::vector<double> rx=x.get(),ry=y.get(); Ref rm=m.get(); am::DVec X=dv(x),Y=dv(y); am::DMat M=dm(m);
    for(int i=0;i<depth;i++){ int op=choose(12,"op"); mc::step(); const double k=op%2?-1.5:2; switch(op){ case 0: X+=Y; for(size_t j=0;j<n;j++) rx[j]+=ry[j]; break; case 1: X-=Y; for(size_t j=0;j<n;j++) rx[j]-=ry[j]; break; case 2: X+=k*Y; for(size_t j=0;j<n;j++) rx[j]+=k*ry[j]; break; case 3: X-=Y*k; for(size_t j=0;j<n;j++) rx[j]-=k*ry[j]; break; case 4: X*=k; for(auto&v:rx) v*=k; break; case 5: Y/=k; for(auto&v:ry) v/=k; break; case 6: Y=X; ry=rx; break; case 7: X=k; for(auto&v:rx) v=k; break; case 8: X[n-1]=k; rx[n-1]=k; break; case 9: M.col_vec(1)=X; for(size_t j=0;j<n;j++) rm(j,1)=rx[j]; break; case 10: Y=M.col_vec(0)+X; for(size_t j=0;j<n;j++) ry[j]=rm(j,0)+rx[j]; break; default: M*=k; rm=k*rm; } 
        near(x.get(),rx,1e-12,"x"); near(y.get(),ry,1e-12,"y"); near(m.get(),rm,1e-12,"matrix"); x.gaps("x"); y.gaps("y"); m.gaps("matrix"); double s=0; for(size_t j=0;j<n;j++) s+=(rx[j]-ry[j])*(rx[j]-ry[j]); NEAR(am::DVec::ssd(X,Y),s,1e-12,"DVec::ssd"); mc::state(mc::Hash().bytes(rx.data(),n*8).bytes(ry.data(),n*8).bytes(rm.a.data(),n*16)); } mc::nontrivial(mc::Hash().bytes(rx.data(),n*8).bytes(ry.data(),n*8)(ix)(iy)); }
/* views, iterators, slices */
static void sp_view(){ size_t n=(size_t)choose(mc::thorough()?7:5,"length")+1; size_t inc=(size_t)choose(3,"inc")+1; mc::split(); SVec x(n,inc); x.set(vdata(2,n)); am::DVec X=dv(x); const am::DVec Xc=dv(x); mc::step(8); size_t a=(size_t)choose((int)n,"start"); size_t b=a+1+(size_t)choose((int)(n-a),"stop"); size_t st=(size_t)choose(4,"step")+1; std::vector<double> v=x.get(),s; for(size_t i=a;i<b;i+=st) s.push_back(v[i]);
    auto rd=[](const am::DVec&d){ std::vector<double> r; for(size_t i=0;i<d.size();i++) r.push_back(d[i]); return r; }; am::DVec S=X.slice(a,b,st); near(rd(S),s,0,"slice"); near(rd(Xc.slice(a,b,st)),s,0,"const slice"); if(st==1) near(rd(X.slice(a,b)),s,0,"slice with default step");
    near(rd(am::DVec::view(n,x.buf,inc)),v,0,"view"); near(rd(am::DVec::view(n,(const double*)x.buf,inc)),v,0,"view of const data"); near(rd(am::DVec::view(&X)),v,0,"view of a vector"); near(rd(am::DVec::view((const aa_dvec*)&X)),v,0,"view of a const vector");
    std::vector<double> it; for(double d:X) it.push_back(d); near(it,v,0,"iteration"); it.clear(); for(double d:Xc) it.push_back(d); near(it,v,0,"const iteration"); it.clear(); for(auto i=X.begin();i!=X.end();i++) it.push_back(*i); near(it,v,0,"iteration by postfix increment"); auto i=X.begin(); i+=a; CHECK(*i==v[a]&&i>=X.begin()&&i<X.end()&&!(i==X.end()),"iterator += %zu",a); if(a){ auto j=i; auto k=j--; CHECK(k==i&&*j==v[a-1]&&j<i,"postfix decrement"); CHECK(*--i==v[a-1]&&i==j&&i<=j&&!(i>j),"prefix decrement"); } { auto j=X.begin(); j+=a; near(rd(j.slice(s.size(),st)),s,0,"iterator slice"); }
    for(double&d:X) d+=1; for(auto&d:v) d+=1; near(x.get(),v,0,"writing through iterators"); x.gaps("iterators"); S=7.; for(size_t k=a;k<b;k+=st) v[k]=7; near(x.get(),v,0,"writing through a slice"); x.gaps("slice"); std::vector<double> src(n); for(size_t k=0;k<n;k++) src[k]=(double)k-2; am::DVec::assign(&X,src); near(x.get(),src,0,"assign"); std::list<double> l(src.rbegin(),src.rend()); am::DVec::assign(&X,l.begin(),l.end()); near(x.get(),std::vector<double>(l.begin(),l.end()),0,"assign of a range"); x.gaps("assign"); mc::nontrivial(mc::Hash()(n)(inc)(a)(b)(st)); }
static void sp_mview(){ size_t m=(size_t)choose(mc::thorough()?4:3,"rows")+1,n=(size_t)choose(mc::thorough()?4:3,"cols")+1; mc::split(); SMat A(m,n,m+(size_t)choose(3,"pad")); Ref R=data(3,m,n); A.set(R); am::DMat M=dm(A); const am::DMat Mc=dm(A); size_t i0=(size_t)choose((int)m,"row0"),i1=i0+1+(size_t)choose((int)(m-i0),"row1"),j0=(size_t)choose((int)n,"col0"),j1=j0+1+(size_t)choose((int)(n-j0),"col1"); mc::step(10);
    for(size_t i=0;i<m;i++) for(size_t j=0;j<n;j++) CHECK(M(i,j)==R(i,j)&&Mc(i,j)==R(i,j),"element access"); for(size_t i=0;i<m;i++){ am::DVec r=M.row_vec(i); CHECK(r.size()==n,"row_vec: length"); for(size_t j=0;j<n;j++) CHECK(r[j]==R(i,j),"row_vec"); } for(size_t j=0;j<n;j++){ am::DVec c=M.col_vec(j); CHECK(c.size()==m,"col_vec: length"); for(size_t i=0;i<m;i++) CHECK(c[i]==R(i,j),"col_vec"); }
    size_t k=0; for(auto&r:M.row_container()){ CHECK(k<m&&r.size()==n,"row_container"); for(size_t j=0;j<n;j++) CHECK(r[j]==R(k,j),"row_container: row %zu",k); k++; } CHECK(k==m,"row_container: %zu rows",k); k=0; for(auto&c:M.col_container()){ CHECK(k<n&&c.size()==m,"col_container"); for(size_t i=0;i<m;i++) CHECK(c[i]==R(i,k),"col_container: column %zu",k); k++; } CHECK(k==n,"col_container: %zu columns",k);
    k=0; for(auto&r:Mc.row_container()){ CHECK(k<m&&r.size()==n,"const row_container"); for(size_t j=0;j<n;j++) CHECK(r[j]==R(k,j),"const row_container: row %zu",k); k++; } CHECK(k==m,"const row_container: %zu rows",k); k=0; for(auto&c:Mc.col_container()){ CHECK(k<n&&c.size()==m,"const col_container"); for(size_t i=0;i<m;i++) CHECK(c[i]==R(i,k),"const col_container: column %zu",k); k++; } CHECK(k==n,"const col_container: %zu columns",k);
#ifndef OLD_ITER
    { auto r=am::DMat::row_begin(&M); r+=i0; CHECK((*r)[0]==R(i0,0),"row iterator +="); auto o=r++; CHECK((*o)[0]==R(i0,0)&&(*o).size()==n,"row iterator: postfix increment"); --r; CHECK(r==o&&(*r)[n-1]==R(i0,n-1),"row iterator: prefix decrement"); r+=1; auto u=r--; CHECK(r==o&&o<u&&u>o&&u!=o,"row iterator: postfix decrement"); r-=i0; CHECK(r==am::DMat::row_begin(&M),"row iterator -="); auto c=am::DMat::col_begin(&M); c+=j0; CHECK((*c)[0]==R(0,j0),"column iterator +="); auto p=c++; CHECK((*p)[0]==R(0,j0)&&(*p).size()==m,"column iterator: postfix increment"); --c; CHECK(c==p&&(*c)[m-1]==R(m-1,j0),"column iterator: prefix decrement"); c+=1; auto q=c--; CHECK(c==p&&p<=q&&q>=p,"column iterator: postfix decrement"); if(j0+1<n){ ++p; CHECK((*p)[0]==R(0,j0+1),"column iterator: copy keeps the stride"); } c-=j0; CHECK(c==am::DMat::col_begin(&M),"column iterator -="); }
#endif
    am::DMat B=M.block(i0,j0,i1,j1); CHECK(B.rows==i1-i0&&B.cols==j1-j0,"block: size"); for(size_t i=i0;i<i1;i++) for(size_t j=j0;j<j1;j++) CHECK(B(i-i0,j-j0)==R(i,j),"block"); B*=3; for(size_t i=i0;i<i1;i++) for(size_t j=j0;j<j1;j++) R(i,j)*=3; near(A.get(),R,0,"scaling a block"); A.gaps("block"); { SMat T(i1-i0,j1-j0,i1-i0+2); am::DMat W=dm(T); W=B; CHECK(W.data==T.buf,"matrix assignment moved the view"); near(T.get(),[&]{ Ref e(i1-i0,j1-j0); for(size_t i=i0;i<i1;i++) for(size_t j=j0;j<j1;j++) e(i-i0,j-j0)=R(i,j); return e; }(),0,"copying a block"); T.gaps("copying a block"); W=2.*B; NEAR(am::DMat::ssd(W,B),[&]{ double s=0; for(size_t i=i0;i<i1;i++) for(size_t j=j0;j<j1;j++) s+=R(i,j)*R(i,j); return s; }(),1e-12,"DMat::ssd"); W=(aa_dmat&)B; NEAR(am::DMat::ssd(W,B),0.,1e-12,"assignment of a C matrix"); }
    for(auto&r:M.row_container()) r*=2; R=2*R; near(A.get(),R,0,"writing through rows"); for(auto&c:M.col_container()) c=5.; near(A.get(),Ref(m,n,5),0,"writing through columns"); A.gaps("rows and columns"); am::DMat W=am::DMat::view((aa_dmat*)&M); CHECK(W.data==M.data&&W.rows==m&&W.cols==n&&W.ld==M.ld,"view"); const am::DMat V=am::DMat::view((const aa_dmat*)&M); CHECK(V.data==M.data&&V.ld==M.ld,"const view"); mc::nontrivial(mc::Hash()(m)(n)(A.ld)(i0)(i1)(j0)(j1)); }
/* ---------- containers on a region ---------- */
static void sp_cont(){ int depth=mc::thorough()?8:6; size_t cap=(size_t)mc::pick({1,64,4096},"region size"); aa_mem_region reg; aa_mem_region_init(&reg,cap); int o0=choose(7,"op"); mc::split(); { typedef am::RegionVector<int64_t>::type RV; typedef am::RegionList<double>::type RL; typedef am::RegionMap<int,double>::type RM; RV v((am::RegionAllocator<int64_t>(&reg))); RL l((am::RegionAllocator<double>(&reg))); RM mp{std::less<int>(),am::RegionAllocator<std::pair<const int,double>>(&reg)}; std::vector<int64_t> sv; std::list<double> sl; std::map<int,double> sm; std::vector<std::pair<am::DVec*,std::vector<double>>> dv; std::vector<std::pair<am::DMat*,Ref>> dmx; int c=1;
    for(int i=0;i<depth;i++,c++){ int op= i?choose(7,"op"):o0; mc::step(); switch(op){ case 0: v.push_back(c); sv.push_back(c); break; case 1: l.insert(l.begin(),c*.5); sl.insert(sl.begin(),c*.5); if(l.size()>2){ l.erase(std::next(l.begin())); sl.erase(std::next(sl.begin())); } break; case 2: mp[c%4]=c; sm[c%4]=c; break; case 3: { void*p0; { am::RegionScope sc(&reg); p0=aa_mem_region_ptr(sc); CHECK(sc.reg()==&reg,"RegionScope::reg"); double*d=new(sc) double[5]; for(int k=0;k<5;k++) d[k]=-c; am::RegionScope in(&reg); am::DVec*t=am::DVec::alloc(in,3); *t=9.; RL tmp((am::RegionAllocator<double>(in))); for(int k=0;k<4;k++) tmp.push_back(k); CHECK(d[4]==-c,"inner scope changed outer memory"); } CHECK(aa_mem_region_ptr(&reg)==p0||cap<4096,"RegionScope left memory allocated"); aa_mem_region*lr=aa_mem_region_local_get(); void*lp=aa_mem_region_ptr(lr); { am::RegionScope loc; CHECK(loc.reg()==lr,"default RegionScope is not the thread's region"); am::DVec*t=am::DVec::alloc_local(4); *t=1.; am::DMat*u=am::DMat::alloc_local(2,2); (*u)(1,1)=3; CHECK((*t)[3]==1,"local objects overlap"); } CHECK(aa_mem_region_ptr(lr)==lp,"default RegionScope left memory allocated"); break; }
        case 4: { std::vector<double> s={(double)c,2,3}; am::DVec*d= c%4==0? am::DVec::init(&reg,s) : c%4==1? am::DVec::init(&reg,{(double)c,2,3}) : c%4==2? new(&reg) am::DVec(&reg,{(double)c,2,3}) : new(&reg) am::DVec(am::DVec::init(&reg,s.begin(),s.end())); dv.push_back({d,s}); break; }
        case 5: { Ref R(2,3); for(size_t k=0;k<6;k++) R.a[k]=(double)(c*10)+(double)k; am::DMat*d; if(c%3==0) d=am::DMat::row_mat(&reg,{{R(0,0),R(0,1),R(0,2)},{R(1,0),R(1,1),R(1,2)}}); else if(c%3==1) d=am::DMat::col_mat(&reg,{{R(0,0),R(1,0)},{R(0,1),R(1,1)},{R(0,2),R(1,2)}}); else { d=new(&reg) am::DMat(&reg,2,3); for(size_t a=0;a<2;a++) for(size_t b=0;b<3;b++) (*d)(a,b)=R(a,b); } dmx.push_back({d,R}); break; }
        default: if(!v.empty()){ v.erase(v.begin()); sv.erase(sv.begin()); } if(!mp.empty()){ mp.erase(mp.begin()); sm.erase(sm.begin()); } RV w(v); CHECK(w.size()==v.size()&&std::equal(w.begin(),w.end(),v.begin()),"copy of a region vector"); w.push_back(99); }
        CHECK((std::vector<int64_t>(v.begin(),v.end())==sv),"region vector differs from std::vector after %d operations",i+1); CHECK(std::list<double>(l.begin(),l.end())==sl,"region list differs from std::list after %d operations",i+1); CHECK((std::map<int,double>(mp.begin(),mp.end())==sm),"region map differs from std::map after %d operations",i+1); for(auto&d:dv) for(size_t k=0;k<3;k++) CHECK(d.first->size()==3&&(*d.first)[k]==d.second[k],"region vector object changed"); for(auto&d:dmx) for(size_t a=0;a<2;a++) for(size_t b=0;b<3;b++) CHECK(d.first->rows==2&&d.first->cols==3&&(*d.first)(a,b)==d.second(a,b),"region matrix: element (%zu,%zu) is %g, expected %g",a,b,(*d.first)(a,b),d.second(a,b)); mc::Hash h; for(auto x:sv) h(x); for(auto x:sl) h(x); for(auto&x:sm) h(x.first)(x.second); h(dv.size())(dmx.size()); mc::state(h); }
    am::RegionAllocator<char> ra(&reg),rb(am::RegionAllocator<int>{&reg}); CHECK(ra==rb&&!(ra!=rb)&&rb.region==&reg,"allocators of one region are equal"); mc::nontrivial(mc::Hash()(sv.size())(sl.size())(dv.size())(dmx.size())(c)(cap)(o0)); }
    aa_mem_region_destroy(&reg); }
int main(int c,char**v){ return mc::run(c,v,"C29",{{"orientations",sp_orient},{"axis angles",sp_xyz},{"poses",sp_pose},{"products",sp_mul},{"planar",sp_planar},{"vector expressions",sp_vec},{"matrix expressions",sp_mat},{"inverse",sp_inv},{"compound",sp_compound},{"vector views",sp_view},{"matrix views",sp_mview},{"region containers",sp_cont}}); }
