// Statistics, norms, angles, range predicates: all small inputs against definitions.
#include "lamodel.hpp"
#include "amino.h"
extern "C" { double mahal_(size_t,const double*,const double*,const double*) __asm__("aa_stat_mahalanobis"); }
using mc::choose;
typedef std::vector<double> V;
#define DISP(name) template<class...A> static auto T##name(double*,A...a)->decltype(aa_la_d_##name(a...)){return aa_la_d_##name(a...);} \
                   template<class...A> static auto T##name(float*,A...a)->decltype(aa_la_s_##name(a...)){return aa_la_s_##name(a...);}
DISP(ssd) DISP(angle) DISP(vecstd) DISP(colmean) DISP(rowmean) DISP(colcov) DISP(median) DISP(nmedian) DISP(minloc) DISP(maxloc) DISP(mat_max) DISP(lerp)
extern "C" { double madd(size_t,double,const double*,size_t) __asm__("aa_la_d_mad"); float mads(size_t,float,const float*,size_t) __asm__("aa_la_s_mad");
 double mad2d(size_t,size_t,const double*,const double*,size_t) __asm__("aa_la_d_mad2"); float mad2s(size_t,size_t,const float*,const float*,size_t) __asm__("aa_la_s_mad2"); }
static double Tmad(size_t n,double u,const double*x,size_t i){return madd(n,u,x,i);} static double Tmad(size_t n,float u,const float*x,size_t i){return mads(n,u,x,i);}
static double Tmad2(size_t m,size_t n,const double*u,const double*x,size_t i){return mad2d(m,n,u,x,i);} static double Tmad2(size_t m,size_t n,const float*u,const float*x,size_t i){return mad2s(m,n,u,x,i);}
static double mean(const V&v){ double s=0; for(double x:v) s+=x; return s/(double)v.size(); }
static double sd(const V&v){ double u=mean(v),s=0; for(double x:v) s+=(x-u)*(x-u); return sqrt(s/(double)(v.size()-1)); }
static double med(V v){ std::sort(v.begin(),v.end()); size_t n=v.size(); if(!n) return 0; return n%2?v[n/2]:(v[n/2]+v[n/2-1])/2; }
static void *rp(){ return aa_mem_region_ptr(aa_mem_region_local_get()); }
static V vec(size_t n,const V&al){ V v(n); for(auto&x:v) x=al[(size_t)choose((int)al.size(),"x")]; return v; }
static const V A4={-1.5,0,.25,3}, A3={-2,.5,1};

template<class T> static void vecs() {
    T*tag=0; double tol=sizeof(T)==4?1e-5:1e-12; size_t n=1+(size_t)choose(mc::thorough()?6:5,"n"), inc=1+(size_t)choose(3,"inc"); mc::split();
    V v=vec(n,A4); TVec<T> x(n,inc); x.set(v); v=x.get(); void *p=rp(); mc::step();
    NEAR((double)Tmedian(tag,n,(const T*)x.buf,inc),med(v),tol,"median"); x.unchanged("median input"); CHECK(rp()==p,"region not restored");
    for(T u:{(T)0,(T).25,(T)-2}) { V d(n); for(size_t i=0;i<n;i++) d[i]=std::fabs((double)u-v[i]); NEAR(Tmad(n,u,(const T*)x.buf,inc),med(d),tol,"median absolute deviation"); }
    CHECK(rp()==p,"region not restored"); x.unchanged("mad input");
    size_t lo=Tminloc(tag,n,x.buf,inc), hi=Tmaxloc(tag,n,x.buf,inc); CHECK(lo<n&&hi<n,"location out of range");
    CHECK(v[lo]==*std::min_element(v.begin(),v.end()),"minloc"); CHECK(v[hi]==*std::max_element(v.begin(),v.end()),"maxloc");
    if(n>1) NEAR((double)Tvecstd(tag,n,(const T*)x.buf,inc,(T)mean(v)),sd(v),tol*10,"standard deviation");
    if(inc==1){ TVec<T> y(n); y.set(v); NEAR((double)Tnmedian(tag,n,y.buf),med(v),tol,"destructive median"); }
    if(inc==1&&sizeof(T)==8){ const double*xb=(const double*)x.buf; NEAR(aa_stat_mean(n,xb),mean(v),1e-12,"mean"); if(n>1) NEAR(aa_stat_std(n,xb),sd(v),1e-12,"std");
        NEAR(aa_la_min(n,xb),*std::min_element(v.begin(),v.end()),0,"min"); NEAR(aa_la_max(n,xb),*std::max_element(v.begin(),v.end()),0,"max");
        size_t a=aa_fminloc(n,(double*)x.buf), b=aa_fmaxloc(n,(double*)x.buf); CHECK(v[a]==aa_la_min(n,xb)&&v[b]==aa_la_max(n,xb),"fminloc/fmaxloc");
        double s=0; for(double q:v) s+=q*q; NEAR(aa_la_norm(n,xb),sqrt(s),1e-12,"norm"); if(s>0){ SVec y(n); y.set(v); aa_la_normalize(n,y.buf); for(size_t i=0;i<n;i++) NEAR(y[i],v[i]/sqrt(s),1e-12,"normalize"); }
        for(double lev:{-1.,0.,.25}){ SVec y(n); y.set(v); aa_vclamp(n,y.buf,lev,1.0); for(size_t i=0;i<n;i++) CHECK(y[i]==std::max(lev,std::min(1.0,v[i])),"vclamp"); }
        for(double tl:{0.,.25,1.75}){ SVec y(n); bool eq=true; for(size_t i=0;i<n;i++){ y[i]=i%2?.25:-1.5; if(std::fabs(y[i]-v[i])>tl) eq=false; } CHECK(!!aa_veq(n,xb,y.buf,tl)==eq,"veq"); } }
    mc::Hash h; for(double q:v) h(q); mc::nontrivial(h(inc));
}
static void sp_vec(){ vecs<double>(); } static void sp_vecf(){ vecs<float>(); }
template<class T> static void pairs() {
    T*tag=0; double tol=sizeof(T)==4?2e-3:1e-7; size_t n=1+(size_t)choose(3,"n"), ix=1+(size_t)choose(3,"incx"), iy=1+(size_t)choose(2,"incy"); mc::split();
    V a=vec(n,A3), b=vec(n,{-2,0,1}); TVec<T> x(n,ix), y(n,iy), z(n,ix); x.set(a); y.set(b); mc::step();
    double s=0,na=0,nb=0,d=0; for(size_t i=0;i<n;i++){ s+=(a[i]-b[i])*(a[i]-b[i]); na+=a[i]*a[i]; nb+=b[i]*b[i]; d+=a[i]*b[i]; }
    NEAR((double)Tssd(tag,n,(const T*)x.buf,ix,(const T*)y.buf,iy),s,tol,"sum of squared differences");
    if(na>0&&nb>0) NEAR((double)Tangle(tag,n,(const T*)x.buf,ix,(const T*)y.buf,iy),acos(std::max(-1.0,std::min(1.0,d/sqrt(na*nb)))),tol,"angle");
    for(T u:{(T)0,(T)1,(T).25,(T)-1,(T)2}){ Tlerp(tag,n,u,(const T*)x.buf,ix,(const T*)y.buf,iy,z.buf,ix); for(size_t i=0;i<n;i++) NEAR((double)z[i],a[i]*(1-(double)u)+b[i]*(double)u,tol,"lerp"); z.gaps("lerp"); }
    if(sizeof(T)==8&&ix==1&&iy==1){ NEAR(aa_la_dist(n,(double*)x.buf,(double*)y.buf),sqrt(s),1e-12,"distance"); NEAR(aa_la_dot(n,(double*)x.buf,(double*)y.buf),d,1e-12,"dot"); }
    x.unchanged("x"); y.unchanged("y"); mc::Hash h; for(double q:a) h(q); for(double q:b) h(q); mc::nontrivial(h(ix)(iy));
}
static void sp_pair(){ pairs<double>(); } static void sp_pairf(){ pairs<float>(); }
template<class T> static void cols() {
    T*tag=0; double tol=sizeof(T)==4?1e-4:1e-11; size_t m=1+(size_t)choose(3,"m"), n=1+(size_t)choose(4,"n"), pa=(size_t)choose(2,"pada"), pe=(size_t)choose(3,"pade"); int k=choose(4,"data"); mc::split();
    Ref R = m*n<=4 ? Ref(m,n) : data(k,m,n); if(m*n<=4) for(auto&q:R.a) q=A3[(size_t)choose(3,"x")];
    TMat<T> A(m,n,m+pa), E(m,m,m+pe); A.set(R); E.set(data(k,m,m)); TVec<T> mu(m), mr(n); void*p=rp(); mc::step();
    Tcolmean(tag,m,n,(const T*)A.buf,A.ld,mu.buf); Trowmean(tag,m,n,(const T*)A.buf,A.ld,mr.buf);
    V u(m),w(n); for(size_t i=0;i<m;i++){ for(size_t j=0;j<n;j++) u[i]+=R(i,j); u[i]/=(double)n; } for(size_t j=0;j<n;j++){ for(size_t i=0;i<m;i++) w[j]+=R(i,j); w[j]/=(double)m; }
    near(mu.get(),u,tol,"column mean"); near(mr.get(),w,tol,"row mean");
    if(n>1){ Ref C(m,m); for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++){ for(size_t q=0;q<n;q++) C(i,j)+=(R(i,q)-u[i])*(R(j,q)-u[j]); C(i,j)/=(double)(n-1); }
        Tcolcov(tag,m,n,(const T*)A.buf,A.ld,(const T*)mu.buf,E.buf,E.ld); near(E.get(),C,tol*5,"covariance"); E.gaps("covariance");
        if(sizeof(T)==8&&!pa){ SMat E2(m,m,m); SVec m2(m); aa_stat_vmean_cov(m,n,(double*)A.buf,m2.buf,E2.buf); near(E2.get(),C,1e-11,"vmean_cov"); near(m2.get(),u,1e-12,"vmean_cov mean"); } }
    size_t pi=99,pj=99; T mx=Tmat_max(tag,m,n,A.buf,A.ld,&pi,&pj); CHECK(pi<m&&pj<n,"mat_max location"); CHECK((double)mx==*std::max_element(R.a.begin(),R.a.end())&&R(pi,pj)==(double)mx,"mat_max");
    { V d(n); for(size_t j=0;j<n;j++){ double s=0; for(size_t i=0;i<m;i++) s+=(R(i,j)-(double)mu[i])*(R(i,j)-(double)mu[i]); d[j]=sqrt(s); } NEAR(Tmad2(m,n,(const T*)mu.buf,(const T*)A.buf,A.ld),med(d),tol*10,"mad2"); CHECK(rp()==p,"region not restored"); }
    if(sizeof(T)==8&&m<=3){ Ref Ei=data(k,m,m); Ei=Ei*Ei.t(); SMat S(m,m,m); S.set(Ei); SVec x(m); x.set(vdata(k+1,m)); double q=0; for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++) q+=(x[i]-(double)mu[i])*Ei(i,j)*(x[j]-(double)mu[j]); NEAR(mahal_(m,x.buf,(double*)mu.buf,S.buf),sqrt(q),1e-9,"mahalanobis"); }
    A.unchanged("A"); mc::Hash h; for(double q:R.a) h(q); mc::nontrivial(h(m)(n)(pa)(pe));
}
static void sp_col(){ cols<double>(); } static void sp_colf(){ cols<float>(); }
/* outlier exclusion and circular statistics */
static void sp_excl() {
    size_t n=2+(size_t)choose(4,"n"); int circ=choose(2,"circular"); double z=mc::pick({1.0,1.5,2.5,5.},"z"); mc::split();
    V v=vec(n,circ?V{-3.1,-.2,0,.3,3.0}:V{-1,0,.5,1,20}); SVec x(n); x.set(v); mc::step(); double mu=-1e9,sg=-1e9;
    auto cm=[&](const V&s){ double a=0,b=0; for(double t:s){a+=sin(t);b+=cos(t);} return atan2(a,b); };
    auto cs=[&](const V&s){ double a=0,b=0; for(double t:s){a+=sin(t);b+=cos(t);} double r=std::min(1.0,std::hypot(a,b)/(double)s.size()); return sqrt(-2*log(r)); };
    auto R=[&](const V&s){ double a=0,b=0; for(double t:s){a+=sin(t);b+=cos(t);} return std::hypot(a,b)/(double)s.size(); };
    if(circ){ if(R(v)<1e-3) mc::skip(); NEAR(remainder(aa_stat_circ_mean(n,x.buf)-cm(v),2*M_PI),0,1e-9,"circular mean"); NEAR(aa_stat_circ_std(n,x.buf),cs(v),1e-6,"circular standard deviation"); }
    double m0=circ?cm(v):mean(v), s0=circ?cs(v):sd(v); if(s0<1e-6) mc::skip();
    auto dx=[&](double t,double m){ return circ?remainder(t-m,2*M_PI):t-m; };
    /* keep clear of the border and of degenerate sets (the function asserts two samples) */
    V in; for(double t:v){ double d=dx(t,m0); if(std::fabs(std::fabs(d)-z*s0)<1e-6) mc::skip(); if(std::fabs(d)<z*s0) in.push_back(t); }
    if(in.size()<2||sd(in)<1e-6) mc::skip();
    if(in.size()<n && z<2) mc::skip();       /* later passes may drop below two samples */
    size_t it=(circ?aa_stat_excluded_circ_mean_std:aa_stat_excluded_mean_std)(n,x.buf,&mu,&sg,-z,z,50); CHECK(it<=50,"iterations"); x.unchanged("data");
    if(in.size()==n){ if(circ){NEAR(remainder(mu-m0,2*M_PI),0,1e-9,"mean without outliers");} else NEAR(mu,m0,1e-9,"mean without outliers"); NEAR(sg,s0,1e-6,"deviation without outliers"); }
    else { bool ok=false; for(unsigned b=1;b<(1u<<n);b++){ V s; for(size_t i=0;i<n;i++) if(b>>i&1) s.push_back(v[i]); if(s.size()<2||s.size()==n) continue; double m=circ?cm(s):mean(s), q=circ?cs(s):sd(s); if(std::fabs(circ?remainder(m-mu,2*M_PI):m-mu)<1e-8&&std::fabs(q-sg)<1e-5) ok=true; }
        CHECK(ok,"mean %g and deviation %g belong to no subset of the data",mu,sg); }
    mc::Hash h; for(double q:v) h(q); mc::nontrivial(h(z)(circ));
}
static void sp_ang() {
    int k=choose(65,"k"); mc::split(); double off=mc::pick({0.,1e-9,-1e-9,.1,-.1,1e-17,-1e-17},"off"); double a=(k-32)*M_PI/4+off; mc::step();
    double r=aa_ang_norm_2pi(a); CHECK(r>=0&&r<2*M_PI,"norm_2pi(%g)=%.17g",a,r); NEAR(cos(r),cos(a),1e-12,"norm_2pi cos"); NEAR(sin(r),sin(a),1e-12,"norm_2pi sin");
    r=aa_ang_norm_pi(a); CHECK(r>=-M_PI&&r<=M_PI,"norm_pi(%g)=%.17g",a,r); NEAR(cos(r),cos(a),1e-12,"norm_pi cos"); NEAR(sin(r),sin(a),1e-12,"norm_pi sin");
    double b=(choose(33,"j")-16)*M_PI/4+.05; r=aa_ang_delta(a,b); CHECK(r>=-M_PI&&r<=M_PI,"delta(%g,%g)=%.17g",a,b,r); NEAR(cos(r),cos(a-b),1e-12,"delta cos"); NEAR(sin(r),sin(a-b),1e-12,"delta sin");
    NEAR(aa_ang_deg2rad(aa_ang_rad2deg(a)),a,1e-13,"degrees"); NEAR(aa_ang_rad2deg(M_PI/2*a),90*a,1e-13,"rad2deg");
    mc::nontrivial(mc::Hash()(a)(b));
}
static void sp_scalar() {
    static const double X[]={-HUGE_VAL,-3,-1,-.5,-1e-320,-0.0,0,1e-320,.5,1,3,HUGE_VAL,NAN}; double v=mc::pick(X,"v"), a=mc::pick(X,"a"), b=mc::pick(X,"b"); mc::split(); mc::step();
    CHECK(!!aa_isfok(v)==std::isfinite(v),"isfok(%g)",v); CHECK(aa_valid_f(v,a,b)==0 ? (v>=a&&v<=b) : !(v>=a&&v<=b),"valid_f(%g,%g,%g)",v,a,b);
    if(!std::isnan(v)){ CHECK(aa_sign(v)==(v>0?1:v<0?-1:0),"sign"); if(a<=b){ CHECK(aa_fclamp(v,a,b)==std::max(a,std::min(b,v)),"fclamp(%g,%g,%g)",v,a,b); double d=aa_fdeadzone(v,a,b,7); CHECK(d==((v>a&&v<b)?7:v),"deadzone"); } CHECK(aa_clamp(v,3)==std::max(-3.,std::min(3.,v)),"clamp"); }
    if(std::isnan(a)||std::isnan(b)) return;
    double vv[2]={v,.5}, mn[2]={a,0}, mx[2]={b,1};
    auto in=[](double x,double *lo,double*hi){ return (!lo||x>=*lo)&&(!hi||x<=*hi); };
    for(int lo=0;lo<2;lo++)for(int hi=0;hi<2;hi++)for(size_t nd=1;nd<=2;nd++) for(int sw=0;sw<2;sw++){ double V2[2]={vv[sw],vv[!sw]},L[2]={mn[sw],mn[!sw]},U[2]={mx[sw],mx[!sw]}; int r=aa_valid_v(V2,2,lo?L:0,hi?U:0,nd); if(nd!=2){ CHECK(r<0,"length mismatch accepted"); continue; }
        int want=0; for(int i=0;i<2&&!want;i++) if(!in(V2[i],lo?L+i:0,hi?U+i:0)&&(lo||hi)) want=i+1; CHECK(r==want,"valid_v returned %d, expected %d for value %g in [%g,%g]",r,want,v,a,b); }
    mc::nontrivial(mc::Hash()(v)(a)(b));
}
static void sp_int() { int a=choose(29,"a")-14, b=choose(15,"b")-7; mc::split(); if(!b) mc::skip(); mc::step(); int want=a-b*(int)std::floor((double)a/b); CHECK(aa_imodulo(a,b)==want,"imodulo(%d,%d)=%d",a,b,aa_imodulo(a,b)); CHECK(aa_lmodulo(a,b)==want&&aa_imodulo64(a,b)==want,"lmodulo"); CHECK(aa_iremainder(a,b)==a%b,"iremainder");
    double x=a*.5,y=b*.25; double r=aa_fmodulo(x,y); NEAR(r,x-y*std::floor(x/y),1e-12,"fmodulo"); NEAR(aa_fremainder(x,y),std::fmod(x,y),0,"fremainder"); NEAR(aa_horner3(x,1,2,y),1+2*x+y*x*x,1e-12,"horner"); NEAR(aa_stat_z2x(aa_stat_x2z(x,1.5,2),1.5,2),x,1e-12,"z score");
    double v[3]={x,y,1}; double nn=sqrt(x*x+y*y+1); for(double t:{1e-3,.5}) CHECK(aa_valid_vunit(v,3,t)==0?std::fabs(nn-1)<=t:std::fabs(nn-1)>t,"vunit");
    if(b>0&&a>0){ double z1,z2; aa_stat_box_muller(a/20.,b/8.,&z1,&z2); double q=sqrt(-2*log(a/20.)); NEAR(z1,q*cos(2*M_PI*b/8.),1e-12,"box muller 1"); NEAR(z2,q*sin(2*M_PI*b/8.),1e-12,"box muller 2"); }
    mc::nontrivial(mc::Hash()(a)(b)); }
/* hyperplanes */
static void sp_plane() {
    size_t m=2+(size_t)choose(2,"m"); double dist=mc::pick({-2.,-.5,.5,3.},"dist"); mc::split(); V nrm=vec(m,{-1,0,2}); double l=0; for(double q:nrm) l+=q*q; l=sqrt(l); if(l==0) mc::skip(); for(auto&q:nrm) q/=l;
    /* points on the plane n.x + dist = 0 */ size_t np=m+1+(size_t)choose(2,"extra"), pad=(size_t)choose(2,"pad"); SMat P(m,np,m+pad); int k=choose(2,"data");
    for(size_t j=0;j<np;j++){ double s=0; for(size_t i=0;i<m;i++){ P(i,j)=datum(k,i+j*m)+(i==j?1:0); s+=P(i,j)*nrm[i]; } for(size_t i=0;i<m;i++) P(i,j)-=(s+dist)*nrm[i]; } P.take();
    Ref R=P.get(); Ref D(m,np); for(size_t j=0;j<np;j++)for(size_t i=0;i<m;i++) D(i,j)=R(i,j)-R(i,0); if(ref_rank(D)<m-1) mc::skip();
    SVec pl(m+1); mc::step(); aa_la_d_colfit(m,np,P.buf,P.ld,pl.buf); P.unchanged("points");
    double sg=dist>0?1:-1; for(size_t i=0;i<m;i++) NEAR(pl[i],sg*nrm[i],1e-7,"fitted normal"); NEAR(pl[m],sg*dist,1e-7,"fitted distance");
    if(!pad){ SVec q(m+1); aa_la_plane_fit(m,np,P.buf,q.buf); near(q.get(),pl.get(),1e-9,"plane_fit"); }
    SVec h(m+1); for(size_t i=0;i<m;i++) h[i]=3*nrm[i]; h[m]=3*dist; SVec pt(m); pt.set(vdata(k,m)); double s=dist; for(size_t i=0;i<m;i++) s+=pt[i]*nrm[i]; NEAR(aa_la_point_plane(m,pt.buf,h.buf),s,1e-9,"point-plane distance"); aa_la_plane_hessian(m+1,h.buf); for(size_t i=0;i<m;i++) NEAR(h[i],nrm[i],1e-12,"hessian normal"); NEAR(h[m],dist,1e-12,"hessian distance");
    mc::nontrivial(mc::Hash()(m)(dist)(np)(k)(nrm[0])(nrm[1]));
}
int main(int c,char**v){ return mc::run(c,v,"C08",{{"vector",sp_vec},{"vector-float",sp_vecf},{"pair",sp_pair},{"pair-float",sp_pairf},{"columns",sp_col},{"columns-float",sp_colf},{"outliers",sp_excl},{"angles",sp_ang},{"scalars",sp_scalar},{"integers",sp_int},{"planes",sp_plane}}); }
