// Integrators, linear simulation, finite differences, interpolants and splines against exact polynomials and an independent Runge-Kutta evaluation.
#include "lamodel.hpp"
#include "amino.h"
extern "C" {
#include "amino/diffeq.h"
}
using mc::choose; typedef std::vector<double> V;
struct Sys { size_t n; double a,b,c,d,e,g; int calls; };
static void fun(const void*cx,double t,const double*x,double*y){ Sys*s=(Sys*)cx; s->calls++; for(size_t i=0;i<s->n;i++) y[i]=s->a+s->b*t+s->c*t*t*(double)(i+1)+s->d*x[i]+s->e*x[(i+1)%s->n]*((i%2)?-1:1)+s->g*x[i]*x[i]; }
static V ev(Sys&s,double t,const V&x){ V y(s.n); fun(&s,t,x.data(),y.data()); return y; }
static const double CO[][6]={{1,0,0,0,0,0},{0,1,0,0,0,0},{0,0,1,0,0,0},{0,0,0,1,0,0},{0,0,0,-.5,1,0},{.5,-1,2,.25,-1,0},{1,1,0,0,0,-.5},{0,2,-1,1,1,.25}};
static Sys mksys(size_t n,int k){ Sys s; s.n=n; s.calls=0; s.a=CO[k][0];s.b=CO[k][1];s.c=CO[k][2];s.d=CO[k][3];s.e=CO[k][4];s.g=CO[k][5]; return s; }
struct Tab { const char*nm; int s; std::vector<V> a; V c; V w1,w2; int o1,o2; };
static const Tab TB[]={
 {"rk1",1,{{}},{0},{1},{},1,0},
 {"rk2",2,{{},{1}},{0,1},{.5,.5},{},2,0},
 {"rk4",4,{{},{.5},{0,.5},{0,0,1}},{0,.5,.5,1},{1./6,1./3,1./3,1./6},{},4,0},
 {"rkf45",6,{{},{.25},{3./32,9./32},{1932./2197,-7200./2197,7296./2197},{439./216,-8,3680./513,-845./4104},{-8./27,2,-3544./2565,1859./4104,-11./40}},{0,.25,.375,12./13,1,.5},{25./216,0,1408./2565,2197./4104,-.2,0},{16./135,0,6656./12825,28561./56430,-9./50,2./55},4,5},
 {"rkck45",6,{{},{.2},{3./40,9./40},{.3,-.9,1.2},{-11./54,2.5,-70./27,35./27},{1631./55296,175./512,575./13824,44275./110592,253./4096}},{0,.2,.3,.6,1,.875},{37./378,0,250./621,125./594,0,512./1771},{2825./27648,0,18575./48384,13525./55296,277./14336,.25},5,4},
 {"dorpri45",7,{{},{.2},{3./40,9./40},{44./45,-56./15,32./9},{19372./6561,-25360./2187,64448./6561,-212./729},{9017./3168,-355./33,46732./5247,49./176,-5103./18656},{35./384,0,500./1113,125./192,-2187./6784,11./84}},{0,.2,.3,.8,8./9,1,1},{35./384,0,500./1113,125./192,-2187./6784,11./84,0},{5179./57600,0,7571./16695,393./640,-92097./339200,187./2100,.025},5,4},
 {"rkbs23",4,{{},{.5},{0,.75},{2./9,1./3,4./9}},{0,.5,.75,1},{2./9,1./3,4./9,0},{7./24,.25,1./3,.125},3,2}};
static V comb(const V&x,double h,const std::vector<V>&k,const V&w){ V r=x; for(size_t j=0;j<w.size()&&j<k.size();j++) for(size_t i=0;i<x.size();i++) r[i]+=h*w[j]*k[j][i]; return r; }
static std::vector<V> stages(const Tab&T,Sys&s,double t,double h,const V&x){ std::vector<V> k; for(int i=0;i<T.s;i++) k.push_back(ev(s,t+T.c[(size_t)i]*h,comb(x,h,k,T.a[(size_t)i]))); return k; }
static aa_odestep_fixed *FX[]={aa_odestep_rk1,aa_odestep_rk2,aa_odestep_rk4};
static aa_odestep_adaptive *AD[]={aa_odestep_rkf45,aa_odestep_rkck45,aa_odestep_dorpri45,aa_odestep_rkbs23}; static const size_t NK[]={5,5,6,4};
static const double T0[]={0,1,-2}, DT[]={.1,.25,-.125,1,0};
/* exact solution when the right-hand side depends on t only */
static V poly(Sys&s,double t0,double h,const V&x){ V r=x; double t1=t0+h; for(size_t i=0;i<s.n;i++) r[i]+=s.a*h+s.b*(t1*t1-t0*t0)/2+s.c*(double)(i+1)*(t1*t1*t1-t0*t0*t0)/3; return r; }
static void sp_step(){
    int m=choose(7,"method"); size_t n=1+(size_t)choose(3,"n"); int k=choose(8,"system"); mc::split(); double t0=mc::pick(T0,"t0"),h=mc::pick(DT,"dt"); int dk=choose(3,"x0");
    const Tab&T=TB[m]; Sys s=mksys(n,k); SVec x0(n),x1(n),x2(n); x0.set(vdata(dk,n)); V x=x0.get(); auto K=stages(T,s,t0,h,x); V e1=comb(x,h,K,T.w1); mc::step();
    if(m<3){ FX[m](n,fun,&s,t0,h,x0.buf,x1.buf); near(x1.get(),e1,1e-11,T.nm); if(k==0||(k==1&&m>=1)||(k==2&&m>=2)) near(x1.get(),poly(s,t0,h,x),1e-11,"polynomial right-hand side below the order"); }
    else { size_t nk=NK[m-3]; SVec kk(n*nk); V f0=ev(s,t0,x); for(size_t i=0;i<n;i++) kk.buf[i]=f0[i]; AD[m-3](n,fun,&s,t0,h,x0.buf,kk.buf,x1.buf,x2.buf); V e2=comb(x,h,K,T.w2);
        near(x1.get(),e1,1e-11,T.nm); near(x2.get(),e2,1e-11,T.nm); CHECK(!memcmp(kk.buf,f0.data(),n*8),"%s: first column of k changed",T.nm);
        if(m>=5){ V l(kk.buf+n*(nk-1),kk.buf+n*nk); near(l,ev(s,t0+h,x1.get()),1e-10,"last column of k is the derivative at the new state"); }
        if(k==0||k==1||(k==2&&m<6)){ near(x1.get(),poly(s,t0,h,x),1e-11,"polynomial, first result"); near(x2.get(),poly(s,t0,h,x),1e-11,"polynomial, second result"); } }
    x0.unchanged("initial state"); mc::nontrivial(mc::Hash()(m)(n)(k)(t0)(h)(dk)); }
/* ---- repeated steps ---- */
struct Rec { std::vector<double> t; std::vector<V> x,y; size_t n; int stop; int ret; double tstop; };
static int chk(void*cx,double t,double*x,double*y){ Rec*r=(Rec*)cx; r->t.push_back(t); r->x.push_back(V(x,x+r->n)); r->y.push_back(V(y,y+r->n)); if(r->t.size()>20000) mc::fail("integration does not reach its end time (t=%g after %zu steps)",t,r->t.size()); bool end= r->stop? (int)r->t.size()>=r->stop : t>=r->tstop; return end? r->ret:0; }
static aa_ode_integrator EN[]={AA_ODE_RK1,AA_ODE_RK2,AA_ODE_RK4,AA_ODE_RK45_F,AA_ODE_RK45_CK,AA_ODE_RK45_DP,AA_ODE_RK23_BS};
static void sp_sol(){
    int m=choose(7,"method"); size_t n=1+(size_t)choose(2,"n"); int k=choose(6,"system"); mc::split(); double t0=mc::pick({0.,1.,-2.},"t0"); double h=mc::pick({.0625,.25,1.},"dt"); Rec r; r.n=n; r.stop= m<3? 1+choose(4,"steps") : choose(2,"mode")*2; r.tstop=t0+1.5; r.ret= mc::pick({1,7,-1},"result"); int path=choose(4,"path");
    Sys s=mksys(n,k); SVec x0(n),x1(n); x0.set(vdata(0,n)); aa_ode_sol_opts o; o.adapt_tol_dec=1e-14; o.adapt_tol_inc=1e-18; o.adapt_factor_dec=.5; o.adapt_factor_inc=1.5; int rc; std::vector<V> P; mc::step();
    if(!path) rc=aa_ode_sol(EN[m],m<3&&choose(2,"no options")?NULL:&o,n,fun,&s,chk,&r,t0,h,x0.buf,x1.buf);
    else { aa_mem_region_t rg; aa_mem_region_init(&rg,path==1?32:4096); aa_mem_region *R= path==3? aa_mem_region_local_get():&rg; void*lp=aa_mem_region_ptr(aa_mem_region_local_get()); size_t np=0; double*pp=0; rc=aa_ode_path(EN[m],&o,n,fun,&s,chk,&r,t0,h,x0.buf,R,&np,&pp); CHECK(np==r.t.size()+1,"path has %zu points for %zu steps",np,r.t.size()); for(size_t i=0;i<np;i++) P.push_back(V(pp+i*n,pp+(i+1)*n)); near(P[0],x0.get(),0,"first path point"); for(size_t i=1;i<np;i++) near(P[i],r.x[i-1],0,"path point"); if(path==3) aa_mem_region_pop(R,pp); CHECK(path==3||aa_mem_region_ptr(aa_mem_region_local_get())==lp,"temporary memory kept"); aa_mem_region_destroy(&rg); }
    CHECK(rc==(r.ret>0?0:r.ret),"result code %d for stop code %d",rc,r.ret); CHECK(!r.t.empty(),"never checked"); if(!path) near(x1.get(),r.x.back(),0,"final state"); x0.unchanged("initial state");
    if(r.stop) CHECK((int)r.t.size()==r.stop,"continued after being told to stop");
    V x=x0.get(); double tp=t0;
    if(m<3){ for(size_t i=0;i<r.t.size();i++){ NEAR(r.t[i],t0+(double)(i+1)*h,1e-12,"time of step %zu",i); x=comb(x,h,stages(TB[m],s,tp,h,x),TB[m].w1); tp=r.t[i]; near(r.x[i],x,1e-10,"state after step"); near(r.y[i],ev(s,tp,x),1e-9,"derivative reported to the check"); } }
    else { /* reference: fine classical Runge-Kutta between the reported times */
        for(size_t i=0;i<r.t.size();i++){ CHECK(r.t[i]>tp,"time does not advance: step %zu from %g to %g",i,tp,r.t[i]); int sub=1+(int)((r.t[i]-tp)/.02); double hh=(r.t[i]-tp)/sub; for(int j=0;j<sub;j++) x=comb(x,hh,stages(TB[2],s,tp+j*hh,hh,x),TB[2].w1); tp=r.t[i]; double tol=1e-6*(double)(i+1)+1e-6; near(r.x[i],x,tol,"state reported by adaptive integration"); near(r.y[i],ev(s,tp,x),1e-2,"derivative reported to the check"); if(!r.stop) mc::state(mc::Hash()(m)(k)(i)(r.t[i])); } }
    mc::nontrivial(mc::Hash()(m)(n)(k)(t0)(h)(r.stop)(r.ret)(path)); }
/* ---- linear systems ---- */
static void sp_lsim(){
    size_t m=1+(size_t)choose(3,"m"),n=1+(size_t)choose(3,"n"); int ka=choose(3,"A"); mc::split(); int kb=choose(3,"B"),kx=choose(3,"x"); double h=mc::pick({0.,.5,-.25},"dt"); SMat A(m,m,m),B(m,n,m); A.set(data(ka,m,m)); B.set(data(kb+1,m,n)); SVec x(m),u(n),y(m); x.set(vdata(kx,m)); u.set(vdata(kx+2,n)); mc::step(4);
    Ref X(m,1),U(n,1); X.a=x.get(); U.a=u.get(); auto f=[&](const Ref&z){ return A.get()*z+B.get()*U; }; Ref D=f(X);
    aa_lsim_dstep(m,n,A.buf,B.buf,x.buf,u.buf,y.buf); near(y.get(),D.a,1e-12,"discrete step");
    aa_lsim_estep(m,n,h,A.buf,B.buf,x.buf,u.buf,y.buf); near(y.get(),(X+h*D).a,1e-12,"Euler step");
    Ref k1=D,k2=f(X+(h/2)*k1),k3=f(X+(h/2)*k2),k4=f(X+h*k3); aa_lsim_rk4step(m,n,h,A.buf,B.buf,x.buf,u.buf,y.buf); near(y.get(),(X+(h/6)*(k1+2*k2+2*k3+k4)).a,1e-12,"Runge-Kutta step");
    SVec d(m); d.set(vdata(kb,m)); aa_sys_affine_t cx; cx.n=m; cx.A=A.buf; cx.D=d.buf; aa_sys_affine(&cx,3,x.buf,y.buf); Ref DD(m,1); DD.a=d.get(); near(y.get(),(A.get()*X+DD).a,1e-12,"affine system");
    SVec z(m); aa_odestep_euler(m,h,d.buf,x.buf,z.buf); near(z.get(),(X+h*DD).a,1e-13,"Euler"); A.unchanged("A");B.unchanged("B");x.unchanged("x");u.unchanged("u"); mc::nontrivial(mc::Hash()(m)(n)(ka)(kb)(kx)(h)); }
/* ---- finite differences: exact for quadratics ---- */
struct Q { Ref A; V b; size_t in; };
static double sf(void*cx,const aa_dvec*x){ Q*q=(Q*)cx; double s=0; size_t n=(size_t)x->len; CHECK(n==q->in,"field called with %zu elements",n); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) s+=q->A(i,j)*x->data[i*x->inc]*x->data[j*x->inc]; for(size_t i=0;i<n;i++) s+=q->b[i]*x->data[i*x->inc]; return s; }
static void vf(void*cx,const aa_dvec*x,aa_dvec*y){ Q*q=(Q*)cx; size_t n=(size_t)x->len,m=(size_t)y->len; CHECK(n==q->in&&m==q->A.m,"field called with sizes %zu,%zu",n,m); for(size_t i=0;i<m;i++){ double s=0; for(size_t j=0;j<n;j++){ double v=x->data[j*x->inc]; s+=q->A(i,j)*v*v+q->b[j]*v*(double)(i+1); } y->data[i*y->inc]=s; } }
static void sp_fd(){ size_t n=1+(size_t)choose(4,"n"),m=1+(size_t)choose(3,"m"); mc::split(); size_t ix=1+(size_t)choose(3,"incx"),iy=1+(size_t)choose(2,"incy"),ld=m+(size_t)choose(3,"pad"); int k=choose(3,"data"); double eps=mc::pick({.125,.5,2.},"eps"); SVec x(n,ix),y(n,iy); x.set(vdata(k,n)); aa_dvec vx=AA_DVEC_INIT(n,x.buf,ix),vy=AA_DVEC_INIT(n,y.buf,iy); Q q; q.in=n; q.A=data(k+1,n,n); q.b=vdata(k+2,n); void*lp=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(2);
    aa_de_grad_fd(sf,&q,&vx,eps,&vy); V e(n); for(size_t i=0;i<n;i++){ e[i]=q.b[i]; for(size_t j=0;j<n;j++) e[i]+=(q.A(i,j)+q.A(j,i))*x[j]; } near(y.get(),e,1e-11,"gradient"); y.gaps("gradient"); x.unchanged("point");
    q.A=data(k+1,m,n); SMat J(m,n,ld); aa_dmat mj=AA_DMAT_INIT(m,n,J.buf,ld); aa_de_jac_fd(vf,&q,&vx,eps,&mj); Ref E(m,n); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) E(i,j)=2*q.A(i,j)*x[j]+q.b[j]*(double)(i+1); near(J.get(),E,1e-11,"Jacobian"); J.gaps("Jacobian"); x.unchanged("point"); CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==lp,"temporary memory kept"); mc::nontrivial(mc::Hash()(n)(m)(ix)(iy)(ld)(k)(eps)); }
/* ---- interpolants ---- */
static void sp_terp(){ size_t n=(size_t)choose(4,"n"); int k=choose(3,"data"); mc::split(); double t0=mc::pick({0.,-1.,2.},"t0"),d1=mc::pick({1.,.5,-1.},"d1"),d2=mc::pick({2.,.25},"d2"); double t1=t0+d1,t2=t1+(d1>0?d2:-d2),ti=mc::pick({0.,1.,-3.,2.5},"ti"); size_t i1=1+(size_t)choose(2,"inc1"),i2=1+(size_t)choose(2,"inc2"),i3=1+(size_t)choose(3,"inc3"); mc::step(5);
    SVec a(n,i1),b(n,i2),r(n,i3); a.set(vdata(k,n)); b.set(vdata(k+2,n)); double u=(ti-t0)/(t1-t0); V e(n); for(size_t i=0;i<n;i++) e[i]=a[i]+u*(b[i]-a[i]); aa_la_d_lerp(n,u,a.buf,i1,b.buf,i2,r.buf,i3); near(r.get(),e,1e-12,"lerp"); r.gaps("lerp"); a.unchanged("v1"); b.unchanged("v2");
    TVec<float> fa(n,i1),fb(n,i2),fr(n,i3); fa.set(vdata(k,n)); fb.set(vdata(k+2,n)); aa_la_s_lerp(n,(float)u,fa.buf,i1,fb.buf,i2,fr.buf,i3); near(fr.get(),e,1e-5,"float lerp"); fr.gaps("float lerp");
    SVec x0(n),x1(n),x2(n),y(n); x0.set(vdata(k,n)); x1.set(vdata(k+1,n)); x2.set(vdata(k+2,n)); aa_la_linterp(n,t0,x0.buf,t1,x1.buf,ti,y.buf); for(size_t i=0;i<n;i++) NEAR(y[i],x0[i]+u*(x1[i]-x0[i]),1e-12,"linear interpolation");
    double T[3]={t0,t1,t2}; SVec*X[3]={&x0,&x1,&x2}; V q(n,0.),dq(n,0.); for(int i=0;i<3;i++){ int j=(i+1)%3,l=(i+2)%3; double D=(T[i]-T[j])*(T[i]-T[l]); for(size_t c=0;c<n;c++){ q[c]+=(*X[i])[c]*(ti-T[j])*(ti-T[l])/D; dq[c]+=(*X[i])[c]*((ti-T[j])+(ti-T[l]))/D; } }
    aa_la_quadterp(n,t0,x0.buf,t1,x1.buf,t2,x2.buf,ti,y.buf); near(y.get(),q,1e-9,"quadratic interpolation"); aa_la_quadterp_dx(n,t0,x0.buf,t1,x1.buf,t2,x2.buf,ti,y.buf); near(y.get(),dq,1e-9,"derivative of quadratic interpolation"); for(int i=0;i<3;i++){ aa_la_quadterp(n,t0,x0.buf,t1,x1.buf,t2,x2.buf,T[i],y.buf); near(y.get(),X[i]->get(),1e-9,"interpolation at a node"); X[i]->unchanged("data"); } mc::nontrivial(mc::Hash()(n)(k)(t0)(t1)(t2)(ti)(i1)(i2)(i3)); }
template<class T> struct Sp{}; 
#define SPL(T,S) template<> struct Sp<T>{ static void p3(size_t n,T t,const T*a,size_t ia,const T*b,size_t ib,const T*c,size_t ic,const T*d,size_t id,T*p,T*q){ aa_la_##S##_3spline_param(n,t,a,ia,b,ib,c,ic,d,id,p,q);} static void e3(size_t n,T t,const T*a,size_t ia,const T*b,size_t ib,const T*p,const T*q,T*x,size_t ix,T*y,size_t iy,T*z,size_t iz){ aa_la_##S##_3spline(n,t,a,ia,b,ib,p,q,x,ix,y,iy,z,iz);} \
 static void p5(size_t n,T t,const T*a,size_t ia,const T*b,size_t ib,const T*c,size_t ic,const T*d,size_t id,const T*e,size_t ie,const T*f,size_t jf,T*p,T*q,T*r){ aa_la_##S##_5spline_param(n,t,a,ia,b,ib,c,ic,d,id,e,ie,f,jf,p,q,r);} static void e5(size_t n,T t,const T*a,size_t ia,const T*b,size_t ib,const T*c,size_t ic,const T*p,const T*q,const T*r,T*x,size_t ix,T*y,size_t iy,T*z,size_t iz){ aa_la_##S##_5spline(n,t,a,ia,b,ib,c,ic,p,q,r,x,ix,y,iy,z,iz);} };
SPL(double,d) SPL(float,s)
template<class T> static void spline(){ double tol= sizeof(T)==8?1e-9:2e-4; size_t n=1+(size_t)choose(3,"n"); int k=choose(3,"data"); double tf=mc::pick({1.,.5,2.},"tf"); size_t I[6]; for(int i=0;i<6;i++) I[i]= i<3? 1+(size_t)choose(i==0?3:2,"inc") : 1+(I[i-3]%3); mc::step(2);
    TVec<T> x1(n,I[0]),d1(n,I[1]),a1(n,I[2]),x2(n,I[3]),d2(n,I[4]),a2(n,I[5]),x(n,I[1]),dx(n,I[2]),ddx(n,I[0]),p(n),q(n),r(n); x1.set(vdata(k,n)); d1.set(vdata(k+1,n)); a1.set(vdata(k+2,n)); x2.set(vdata(k+3,n)); d2.set(vdata(k+4,n)); a2.set(vdata(k+5,n)); T t=(T)tf; double u=mc::pick({0.,.25,1.,2.},"t");
    Sp<T>::p3(n,t,x1.buf,I[0],d1.buf,I[1],x2.buf,I[3],d2.buf,I[4],p.buf,q.buf); auto ev3=[&](double s){ Sp<T>::e3(n,(T)s,x1.buf,I[0],d1.buf,I[1],p.buf,q.buf,x.buf,I[1],dx.buf,I[2],ddx.buf,I[0]); x.gaps("x");dx.gaps("dx");ddx.gaps("ddx"); };
    ev3(0); near(x.get(),x1.get(),tol,"cubic start"); near(dx.get(),d1.get(),tol,"cubic start velocity"); ev3(tf); near(x.get(),x2.get(),tol,"cubic end"); near(dx.get(),d2.get(),tol,"cubic end velocity");
    /* Hermite form */ ev3(u*tf); for(size_t i=0;i<n;i++){ double X1=x1[i],X2=x2[i],D1=d1[i]*tf,D2=d2[i]*tf; double c2=3*(X2-X1)-2*D1-D2,c3=2*(X1-X2)+D1+D2; NEAR((double)x[i],X1+u*D1+u*u*c2+u*u*u*c3,tol*10,"cubic value"); NEAR((double)dx[i],(D1+2*u*c2+3*u*u*c3)/tf,tol*10,"cubic velocity"); NEAR((double)ddx[i],(2*c2+6*u*c3)/tf/tf,tol*30,"cubic acceleration"); }
    Sp<T>::p5(n,t,x1.buf,I[0],d1.buf,I[1],a1.buf,I[2],x2.buf,I[3],d2.buf,I[4],a2.buf,I[5],p.buf,q.buf,r.buf); auto ev5=[&](double s){ Sp<T>::e5(n,(T)s,x1.buf,I[0],d1.buf,I[1],a1.buf,I[2],p.buf,q.buf,r.buf,x.buf,I[1],dx.buf,I[2],ddx.buf,I[0]); x.gaps("x");dx.gaps("dx");ddx.gaps("ddx"); };
    ev5(0); near(x.get(),x1.get(),tol,"quintic start"); near(dx.get(),d1.get(),tol,"quintic start velocity"); near(ddx.get(),a1.get(),tol,"quintic start acceleration"); ev5(tf); near(x.get(),x2.get(),tol*10,"quintic end"); near(dx.get(),d2.get(),tol*30,"quintic end velocity"); near(ddx.get(),a2.get(),tol*100,"quintic end acceleration");
    { ev5(u*tf); Ref M(3,3),Mi; for(int c=0;c<3;c++){ double e=3+c; M(0,(size_t)c)=pow(tf,e); M(1,(size_t)c)=e*pow(tf,e-1); M(2,(size_t)c)=e*(e-1)*pow(tf,e-2); } CHECK(ref_inv(M,Mi),"reference"); double w=u*tf; for(size_t i=0;i<n;i++){ Ref b(3,1); b.a={x2[i]-x1[i]-tf*d1[i]-tf*tf/2*a1[i],d2[i]-d1[i]-tf*a1[i],(double)a2[i]-a1[i]}; Ref k5=Mi*b; double X=x1[i]+w*d1[i]+w*w/2*a1[i],D=d1[i]+w*a1[i],A=a1[i],sc=1; for(int c=0;c<3;c++){ double e=3+c,kk=k5.a[(size_t)c]; X+=kk*pow(w,e); D+=kk*e*pow(w,e-1); A+=kk*e*(e-1)*pow(w,e-2); sc+=fabs(kk)*20*pow(std::max(w,1.),e); } CHECK(fabs(x[i]-X)<=tol*sc,"quintic value %g, expected %g",(double)x[i],X); CHECK(fabs(dx[i]-D)<=tol*sc,"quintic velocity %g, expected %g",(double)dx[i],D); CHECK(fabs(ddx[i]-A)<=tol*sc,"quintic acceleration %g, expected %g",(double)ddx[i],A); } }
    x1.unchanged("x1");d1.unchanged("d1");a1.unchanged("a1");x2.unchanged("x2"); mc::nontrivial(mc::Hash()(n)(k)(tf)(I[0])(I[1])(I[2])(u)(sizeof(T))); }
static void sp_spline(){ int f=choose(2,"type"); mc::split(); if(f) spline<float>(); else spline<double>(); }
int main(int c,char**v){ return mc::run(c,v,"C11",{{"steps",sp_step},{"solve",sp_sol},{"linear-systems",sp_lsim},{"finite-differences",sp_fd},{"interpolation",sp_terp},{"splines",sp_spline}}); }
