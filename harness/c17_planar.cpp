// Planar rotations, transforms and the two-link arm against a long double model.
#include "rotmodel.hpp"
#include "amino.h"
#include "amino/kin.h"
using mc::choose;
struct C2 { LD re,im; }; static C2 operator*(C2 a,C2 b){ return {a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re}; } static C2 operator+(C2 a,C2 b){ return {a.re+b.re,a.im+b.im}; } static C2 neg(C2 a){ return {-a.re,-a.im}; }
struct P2 { C2 z,v; }; static P2 operator*(P2 a,P2 b){ return {a.z*b.z,a.v+a.z*b.v}; } static C2 cj(C2 z){ return {z.re,-z.im}; } static P2 inv(P2 a){ return {cj(a.z),neg(cj(a.z)*a.v)}; }
static aa_tf_cmplx mk(LD re,LD im){ aa_tf_cmplx c; __real__ c=(double)re; __imag__ c=(double)im; return c; } static double re(aa_tf_cmplx c){ return __real__ c; } static double im(aa_tf_cmplx c){ return __imag__ c; }
static void eqC(aa_tf_cmplx c,C2 e,const char*w,double tol=1e-12){ double s=1+(double)fabsl(e.re)+(double)fabsl(e.im); CHECK(fabsl(re(c)-e.re)<=tol*s&&fabsl(im(c)-e.im)<=tol*s,"%s: (%g, %g), expected (%Lg, %Lg)",w,re(c),im(c),e.re,e.im); }
static void eqR(const double*R,C2 z,const char*w,double tol=1e-12){ double e[4]={(double)z.re,(double)z.im,(double)-z.im,(double)z.re}; for(int i=0;i<4;i++) NEAR(R[i],e[i],tol,w); }
static void eqT(const double*T,P2 p,const char*w,double tol=1e-11){ eqR(T,p.z,w,tol); eqC(mk(T[4],T[5]),p.v,w,tol); }
static const LD AN[]={0,1e-300L,-1e-12L,1e-4L,.3L,-1,PI_L/2,-PI_L/2,2,3,PI_L-1e-9L,PI_L,-PI_L+1e-12L,-PI_L,4,-5,2*PI_L,100,1e-8L,2.5L}; static const double TV[][2]={{0,0},{1,0},{0,-2},{3,4},{-1e-6,100}};
static const int NA=20;
static LD wrap(LD a){ return atan2l(sinl(a),cosl(a)); }
static void angle(double x,LD a,const char*w){ LD d=fabsl(wrap(x-a)); CHECK(d<1e-12L*(1+fabsl(a))&&fabs(x)<=M_PI,"%s: angle %.17g, expected %.17Lg",w,x,wrap(a)); }
static P2 pose(double a,const double*t){ LD c=cosl(a),s=sinl(a); if(fabsl(c)<1e-15L) c=0; if(fabsl(s)<1e-15L&&fabs(a)>1) s=0; return {{c,s},{t[0],t[1]}}; }   /* quarter turns are exact */
static void toT(P2 p,double*T){ T[0]=T[3]=(double)p.z.re; T[1]=(double)p.z.im; T[2]=-T[1]; T[4]=(double)p.v.re; T[5]=(double)p.v.im; }
static const double PP[][2]={{0,0},{1,0},{-2,.5},{10,-7}};
static void sp_single(){ double a=(double)AN[choose(NA,"angle")]; mc::split(); const auto&t=TV[choose(5,"translation")]; P2 P=pose(a,t); aa_tf_cmplx z=mk(P.z.re,P.z.im),v=mk(t[0],t[1]),zi,vi; double R[4],Ri[4],T[6],Ti[6]; mc::step(16);
    eqC(aa_tf_cpexp(a),P.z,"cpexp"); eqC(aa_tf_angle2cmplx(a),P.z,"angle2cmplx"); aa_tf_rotmatp_pexp(a,R); eqR(R,P.z,"rotmatp_pexp"); aa_tf_angle2rotmatp(a,Ri); eqR(Ri,P.z,"angle2rotmatp"); angle(aa_tf_culn(z),a,"culn"); angle(aa_tf_cmplx2angle(z),a,"cmplx2angle"); angle(aa_tf_rotmatp_uln(R),a,"rotmatp_uln"); angle(aa_tf_rotmatp2angle(R),a,"rotmatp2angle"); aa_tf_cmplx2rotmatp(z,Ri); eqR(Ri,P.z,"cmplx2rotmatp"); eqC(aa_tf_rotmatp2cmplx(R),P.z,"rotmatp2cmplx"); eqC(aa_tf_cconj(z),cj(P.z),"cconj"); aa_tf_rotmatp_inv2(R,Ri); eqR(Ri,cj(P.z),"rotmatp_inv2");
    for(auto&p:PP){ C2 q={p[0],p[1]}; aa_tf_cmplx pp=mk(p[0],p[1]); eqC(aa_tf_crot(z,pp),P.z*q,"crot"); eqC(aa_tf_rotmatp_rot(R,pp),P.z*q,"rotmatp_rot"); toT(P,T); eqC(aa_tf_cv_tf(z,v,pp),P.v+P.z*q,"cv_tf"); eqC(aa_tf_tfmatp_tf(T,pp),P.v+P.z*q,"tfmatp_tf"); }
    aa_tf_cv2tfmatp(z,v,T); eqT(T,P,"cv2tfmatp"); aa_tf_tfmatp2cv(T,&zi,&vi); eqC(zi,P.z,"tfmatp2cv"); eqC(vi,P.v,"tfmatp2cv"); aa_tf_cv_inv(z,v,&zi,&vi); eqC(zi,inv(P).z,"cv_inv"); eqC(vi,inv(P).v,"cv_inv"); aa_tf_tfmatp_inv2(T,Ti); eqT(Ti,inv(P),"tfmatp_inv2"); mc::nontrivial(mc::Hash()(a).bytes(t,16)); }
/* words of compositions and inverses on both representations at once */
static void sp_words(){ int depth=mc::thorough()?4:2; double a=(double)AN[choose(NA,"angle")]; mc::split(); P2 P=pose(a,TV[choose(5,"translation")]); aa_tf_cmplx z=mk(P.z.re,P.z.im),v=mk(P.v.re,P.v.im); double T[6]; toT(P,T); for(int i=0;i<depth;i++){ int op=choose(3,"op"); aa_tf_cmplx z2,v2; double U[6]; mc::step(2); if(op==2){ aa_tf_cv_inv(z,v,&z2,&v2); aa_tf_tfmatp_inv2(T,U); P=inv(P); } else { int n=mc::thorough()?6:NA; double b=(double)AN[mc::thorough()? choose(n,"angle")*3+1 : choose(n,"angle")]; P2 K=pose(b,TV[choose(mc::thorough()?3:5,"translation")]); aa_tf_cmplx kz=mk(K.z.re,K.z.im),kv=mk(K.v.re,K.v.im); double S[6]; toT(K,S); if(op){ aa_tf_cv_mul(z,v,kz,kv,&z2,&v2); aa_tf_tfmatp_mul(T,S,U); P=P*K; } else { aa_tf_cv_mul(kz,kv,z,v,&z2,&v2); aa_tf_tfmatp_mul(S,T,U); P=K*P; } double R[4]; if(op==1){ aa_tf_rotmatp_mul(T,S,R); eqR(R,P.z,"rotmatp_mul",1e-11); eqC(aa_tf_cmul(z,kz),P.z,"cmul",1e-11); } }
        z=z2; v=v2; memcpy(T,U,48); eqC(z,P.z,"unit complex number",1e-11); eqC(v,P.v,"translation",1e-11); eqT(T,P,"planar transform",1e-11); mc::state(mc::Hash().bytes(T,48)); } mc::nontrivial(mc::Hash().bytes(T,48)(a)); }
/* two-link arm: x = l1 cos a1 + l2 cos a2 */
static const double LL[][2]={{1,1},{1,.5},{.5,1},{2,3},{1e-3,2e-3},{10,.1}};
static void sp_arm(){ const auto&l=LL[choose(6,"links")]; mc::split(); double a1=(double)AN[choose(NA,"first")],a2=(double)AN[choose(NA,"second")]; LD X=l[0]*cosl(a1)+l[1]*cosl(a2),Y=l[0]*sinl(a1)+l[1]*sinl(a2); double x[2]={(double)X,(double)Y}; int ax=choose(3,"exact axis"); if(ax==1) x[1]=0; else if(ax==2) x[0]=0; LD r=hypotl(x[0],x[1]); LD L=l[0]+l[1]; if(r<1e-9L*L) mc::skip();   /* the origin of equal links has infinitely many solutions */
    if(ax&&(r>L*(1-1e-9L)||r<fabsl((LD)l[0]-l[1])*(1+1e-9L)+1e-9L*L)) mc::skip(); double A[2],B[2]; mc::step(); int rc=aa_kin_planar2_ik_theta2(l,x,A,B); CHECK(rc==0,"reachable point (%.17g, %.17g) of links %g, %g: no solution (%d)",x[0],x[1],l[0],l[1],rc); for(double*t:{A,B}){ LD ex=l[0]*cosl(t[0])+l[1]*cosl(t[1])-x[0],ey=l[0]*sinl(t[0])+l[1]*sinl(t[1])-x[1]; CHECK(fabsl(ex)<1e-6L*L&&fabsl(ey)<1e-6L*L,"solution misses (%.17g, %.17g) by (%Lg, %Lg) with links %g, %g",x[0],x[1],ex,ey,l[0],l[1]); }
    /* the two answers are the two elbow configurations */
    LD c=(r*r-l[0]*l[0]-l[1]*l[1])/(2*l[0]*l[1]); c=std::min((LD)1,std::max((LD)-1,c)); LD e=acosl(c),g=wrap(A[1]-A[0]),h=wrap(B[1]-B[0]); LD tol= 1e-4L; if(e>tol&&e<PI_L-tol) CHECK(g*h<0&&fabsl(fabsl(g)-e)<1e-6L&&fabsl(fabsl(h)-e)<1e-6L,"elbow angles %Lg and %Lg, expected both signs of %Lg",g,h,e); if(!ax&&e>tol&&e<PI_L-tol){ auto m=[&](double*t){ return fabsl(wrap(t[0]-a1))<1e-6L&&fabsl(wrap(t[1]-a2))<1e-6L; }; CHECK(m(A)||m(B),"the configuration that was placed is not among the answers"); } mc::nontrivial(mc::Hash().bytes(l,16).bytes(x,16)); }
/* unreachable points are reported */
static void sp_unreach(){ const auto&l=LL[choose(4,"links")]; mc::split(); double a=(double)AN[choose(NA,"direction")]; int in=choose(2,"inside"); LD L=l[0]+l[1],D=fabsl((LD)l[0]-l[1]); double k=mc::pick({1.01,1.5,10.},"factor"); LD r= in? D/k : L*k; if(in&&D<.01L) mc::skip(); double x[2]={(double)(r*cosl(a)),(double)(r*sinl(a))},A[2],B[2]; if(choose(2,"on the axis")) x[1]=0,x[0]=(double)r; mc::step(); int rc=aa_kin_planar2_ik_theta2(l,x,A,B); CHECK(rc!=0,"unreachable point (%g, %g) of links %g, %g reported as reached",x[0],x[1],l[0],l[1]); mc::nontrivial(mc::Hash().bytes(l,16).bytes(x,16)); }
int main(int c,char**v){ return mc::run(c,v,"C17",{{"single",sp_single},{"words",sp_words},{"arm",sp_arm},{"unreachable",sp_unreach}}); }
