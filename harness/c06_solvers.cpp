// Matrix solvers: all small integer matrices, shapes and strides; oracle = defining equations.
#include "lamodel.hpp"
#include "amino.h"
#include "amino/mat.h"
using mc::choose;
typedef std::vector<double> V;
struct LaErr {};
static void on_err(const char *) { throw LaErr(); }
static aa_dmat dm(SMat&a){ aa_dmat d; aa_dmat_view(&d,a.m,a.n,a.buf,a.ld); return d; }
struct Reg { void *p; Reg(){ p=aa_mem_region_ptr(aa_mem_region_local_get()); aa_mem_region_local_pop(p); p=aa_mem_region_ptr(aa_mem_region_local_get()); }
    void ok(const char*w){ CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==p,"%s left temporary data in the local region",w); } };
static Ref mat(size_t m,size_t n,const V &al,const char*l="a"){ Ref R(m,n); for(auto&x:R.a) x=al[(size_t)choose((int)al.size(),l)]; return R; }
static V alpha(size_t mn) { if(mn<=4) return {-1,0,1,2,-.5}; if(mn<=6||mc::thorough()) return {-1,0,2}; return {0,1,-2}; }
static void shape(size_t &m,size_t &n,int mx=3){ m=1+(size_t)choose(mx,"m"); n=1+(size_t)choose(mx,"n"); }
static uint64_t hh(const Ref&A){ mc::Hash h; h(A.m)(A.n); for(double x:A.a) h(x); return h; }

static void sp_inv() {
    size_t n=1+(size_t)choose(3,"n"); int how=choose(2,"how"); size_t pad= how?(size_t)choose(3,"pad"):0; V al = n<3? V{-1,0,1,2,3}: (mc::thorough()?V{-1,0,1,2}:V{-1,0,1});
    double a0=al[(size_t)choose((int)al.size(),"a00")]; mc::split();
    Ref R(n,n); R.a[0]=a0; for(size_t i=1;i<n*n;i++) R.a[i]=al[(size_t)choose((int)al.size(),"a")];
    SMat A(n,n,n+pad); A.set(R); Reg reg; int info;
    if(how){ aa_dmat a=dm(A); info=aa_dmat_inv(&a); } else info=aa_la_inv(n,A.buf);
    mc::step(); reg.ok("inverse"); A.gaps("inverse");
    double d=ref_det(R);
    if( std::fabs(d)<1e-9 ) { CHECK(info!=0,"singular matrix inverted without an error"); return; }
    CHECK(info==0,"regular matrix (determinant %g) rejected",d);
    near(R*A.get(),Ref::eye(n),1e-10,"A*inv(A)"); mc::nontrivial(hh(R)^pad);
}
static void sp_pinv() {
    size_t m,n; shape(m,n); int op=choose(8,"op"); size_t pa= op<4?(size_t)choose(2,"pada"):0, pb=op<4?(size_t)choose(2,"padb"):0; mc::split();
    Ref R=mat(m,n,alpha(m*n));
    SMat A(m,n,m+pa), S(n,m,n+pb); A.set(R); S.set(data(1,n,m)); aa_dmat a=dm(A), s=dm(S); Reg reg; mc::step();
    Ref want; double tol=1e-9;
    switch(op) {
    case 0: { aa_dmat_pinv(&a,-1,&s); want=ref_spectral(R,[](double w){return 1/w;}); break; }
    case 1: { double t=mc::pick({.9,1.7},"tol"); for(double x:ref_sv(R)) if(std::fabs(x-t)<1e-6) mc::skip();
        aa_dmat_pinv(&a,t,&s); want=ref_spectral(R,[&](double w){return sqrt(w)>t?1/w:0;}); break; }
    case 2: { double k=mc::pick({1e-2,.5},"k"); int i=aa_dmat_dpinv(&a,k,&s); CHECK(i==0,"damped inverse failed"); want=ref_spectral(R,[&](double w){return 1/(w+k);}); break; }
    case 3: { double k=mc::pick({.25,1.5},"smin"); aa_dmat_dzdpinv(&a,k,&s); want=ref_spectral(R,[&](double w){return sqrt(w)>=k?1/w:1/(k*k);}); break; }
    case 4: { double k=mc::pick({1e-2,.5},"k"); aa_la_dpinv(m,n,k,A.buf,S.buf); want=ref_spectral(R,[&](double w){return 1/(w+k);}); break; }
    case 5: { double k=mc::pick({.25,1.5},"s2min"); aa_la_dzdpinv(m,n,k,A.buf,S.buf); want=ref_spectral(R,[&](double w){return 1/std::max(w,k);}); break; }
    case 6: { double k=mc::pick({1e-2,.5},"k"); Ref b=data(2,m,1); SMat B(m,1,m), X(n,1,n); B.set(b); aa_la_dls(m,n,k,A.buf,B.buf,X.buf);
        near(X.get(),ref_spectral(R,[&](double w){return 1/(w+k);})*b,tol,"damped least squares"); B.unchanged("b"); A.unchanged("A"); reg.ok("dls"); return; }
    case 7: { double k=mc::pick({1e-2,.5},"k"); Ref b=data(2,m,1), xp=data(3,n,1); SMat B(m,1,m), X(n,1,n), P(n,1,n), N(n,n,n); B.set(b); P.set(xp); aa_la_dlsnp(m,n,k,A.buf,B.buf,P.buf,X.buf);
        Ref As=ref_spectral(R,[&](double w){return 1/(w+k);});
        near(X.get(),As*b+(Ref::eye(n)-As*R)*xp,tol,"damped least squares with nullspace"); B.unchanged("b"); P.unchanged("xp"); A.unchanged("A"); reg.ok("dlsnp");
        S.set(As); aa_la_np(m,n,A.buf,S.buf,N.buf); near(N.get(),As*R-Ref::eye(n),tol,"nullspace projection");
        aa_la_xlsnp(m,n,A.buf,S.buf,B.buf,P.buf,X.buf); near(X.get(),As*b+(Ref::eye(n)-As*R)*xp,tol,"least squares with nullspace"); return; }
    }
    A.unchanged("A"); S.gaps("pseudo-inverse"); reg.ok("pseudo-inverse"); near(S.get(),want,tol,"pseudo-inverse");
    mc::nontrivial(hh(R)^(uint64_t)op*77);
}
/* type dispatch */
#define DISP(name) template<class...A> static auto T##name(double*,A...a)->decltype(aa_la_d_##name(a...)){return aa_la_d_##name(a...);} \
                   template<class...A> static auto T##name(float*,A...a)->decltype(aa_la_s_##name(a...)){return aa_la_s_##name(a...);}
DISP(svd) DISP(qr) DISP(eev) DISP(lls) DISP(sysv)
template<class T> static void decomp() {
    T *tag=0; double tol=sizeof(T)==4?2e-4:1e-9; size_t m,n; int op=choose(7,"op"); shape(m,n); if((op==4||op==5)&&m!=n) mc::skip();
    size_t pa=(size_t)choose(2,"pada"), pb=(size_t)choose(2,"padb"), pc=(size_t)choose(2,"padc"); mc::split();
    V al=alpha(m*n); if(m*n==9&&!mc::thorough()) al={0,1}; Ref R=mat(m,n,al); TMat<T> A(m,n,m+pa); A.set(R); Reg reg; mc::step();
    switch(op) {
    case 0: case 1: case 2: { size_t k=std::min(m,n); TMat<T> U(m,m,m+pb), Vt(n,n,n+pc); TVec<T> S(k);
        int info = op==0 ? Tsvd(tag,m,n,(const T*)A.buf,A.ld,U.buf,U.ld,S.buf,Vt.buf,Vt.ld) : op==1 ? Tsvd(tag,m,n,(const T*)A.buf,A.ld,U.buf,U.ld,S.buf,(T*)0,(size_t)0) : Tsvd(tag,m,n,(const T*)A.buf,A.ld,(T*)0,(size_t)0,S.buf,Vt.buf,Vt.ld);
        CHECK(info==0,"svd failed with %d",info); near(S.get(),ref_sv(R),sizeof(T)==4?1e-3:1e-6,"singular values"); for(size_t i=0;i+1<k;i++) CHECK(S[i]>=S[i+1]&&S[i+1]>=0,"singular values not sorted");
        Ref D(m,n); for(size_t i=0;i<k;i++) D(i,i)=(double)S[i];
        if(op!=2){ near(U.get().t()*U.get(),Ref::eye(m),tol,"U orthonormal"); Ref UA=U.get().t()*R; near(UA*UA.t(),D*D.t(),tol*10,"U diagonalises A A'"); U.gaps("U"); }
        if(op!=1){ near(Vt.get()*Vt.get().t(),Ref::eye(n),tol,"V orthonormal"); Ref AV=R*Vt.get().t(); near(AV.t()*AV,D.t()*D,tol*10,"V diagonalises A'A"); Vt.gaps("Vt"); }
        if(op==0) near(U.get()*D*Vt.get(),R,tol,"U S V'");
        break; }
    case 3: case 6: { TMat<T> Q(m,m,m+pb), U(m,n,m+pc); int info=Tqr(tag,m,n,(const T*)A.buf,A.ld,Q.buf,Q.ld,op==3?U.buf:(T*)0,U.ld); CHECK(info==0,"qr failed");
        near(Q.get().t()*Q.get(),Ref::eye(m),tol,"Q orthonormal"); Q.gaps("Q"); Ref QR=Q.get().t()*R;
        for(size_t j=0;j<n;j++)for(size_t i=j+1;i<m;i++) CHECK(std::fabs(QR(i,j))<tol*10,"Q'A not upper triangular");
        if(op==3){ near(Q.get()*U.get(),R,tol,"Q R"); for(size_t j=0;j<n;j++)for(size_t i=j+1;i<m;i++) CHECK(U(i,j)==0,"R not upper triangular"); U.gaps("R"); }
        break; }
    case 4: { TMat<T> L(n,n,n+pb), Vr(n,n,n+pc); TVec<T> wr(n), wi(n); int info=Teev(tag,n,(const T*)A.buf,A.ld,wr.buf,wi.buf,L.buf,L.ld,Vr.buf,Vr.ld); CHECK(info==0,"eigen decomposition failed");
        Ref X=Vr.get(), Y=L.get(), RX=R*X, YR=R.t()*Y; V w=wr.get(), v=wi.get();
        for(size_t j=0;j<n;j++) { if(v[j]==0) { for(size_t i=0;i<n;i++){ NEAR(RX(i,j),w[j]*X(i,j),tol*20,"A v = w v"); NEAR(YR(i,j),w[j]*Y(i,j),tol*20,"A' u = w u"); } }
            else { CHECK(j+1<n&&v[j]>0&&v[j+1]==-v[j],"conjugate pair"); for(size_t i=0;i<n;i++){ NEAR(RX(i,j),w[j]*X(i,j)-v[j]*X(i,j+1),tol*20,"Re A v"); NEAR(RX(i,j+1),w[j]*X(i,j+1)+v[j]*X(i,j),tol*20,"Im A v"); } j++; } }
        for(size_t j=0;j<n;j++){ double s=0,t=0; for(size_t i=0;i<n;i++){ s+=X(i,j)*X(i,j); t+=Y(i,j)*Y(i,j);} CHECK(s>1e-6||v[j]!=0,"zero eigenvector"); CHECK(t>1e-6||v[j]!=0,"zero left eigenvector"); }
        double tr=0,sw=0; for(size_t i=0;i<n;i++){ tr+=R(i,i); sw+=w[i]; } NEAR(sw,tr,tol*20,"sum of eigenvalues");
        L.gaps("Vl"); Vr.gaps("Vr"); break; }
    case 5: { /* symmetric indefinite solve: uses the triangle it was told to use */ int up=choose(2,"uplo"); size_t p=1+pb; Ref Sy=R; for(size_t i=0;i<n;i++)for(size_t j=0;j<i;j++){ if(up) Sy(i,j)=Sy(j,i); else Sy(j,i)=Sy(i,j); }
        if(std::fabs(ref_det(Sy))<1e-6) mc::skip(); Ref b=data(2,n,p); TMat<T> B(n,p,n+pc); B.set(b); TVec<int> ip(n);
        int info=Tsysv(tag,up?"U":"L",n,p,A.buf,A.ld,ip.buf,B.buf,B.ld); CHECK(info==0,"sysv failed"); near(Sy*B.get(),b,tol*20,"A x"); B.gaps("x"); A.gaps("A"); reg.ok("sysv"); return; }
    }
    A.unchanged("A"); A.gaps("A"); reg.ok("decomposition"); mc::nontrivial(hh(R)^(uint64_t)op*31);
}
static void sp_decomp(){ decomp<double>(); }
static void sp_decompf(){ decomp<float>(); }
template<class T> static void lls() {
    T*tag=0; double tol=sizeof(T)==4?2e-3:1e-8; size_t m,n; shape(m,n); size_t p=1+(size_t)choose(2,"p"); size_t pa=(size_t)choose(2,"pada"), pb=(size_t)choose(2,"padb"), pc=(size_t)choose(2,"padc"); mc::split();
    V al=alpha(m*n); if(m*n==9) al={0,1}; Ref R=mat(m,n,al), b=data(choose(2,"rhs"),m,p); if(ref_rank(R)<std::min(m,n)) mc::skip(); /* numerical rank decisions at eps are not claimed */
    TMat<T> A(m,n,m+pa), B(m,p,m+pb), X(n,p,n+pc); A.set(R); B.set(b); Reg reg; mc::step();
    int info=Tlls(tag,m,n,p,(const T*)A.buf,A.ld,(const T*)B.buf,B.ld,X.buf,X.ld); CHECK(info==0,"least squares failed"); A.unchanged("A"); B.unchanged("b"); X.gaps("x"); reg.ok("lls");
    near(X.get(),ref_spectral(R,[](double w){return 1/w;})*b,tol,"minimum norm least squares"); 
    if(sizeof(T)==8&&!pa&&!pb&&!pc){ SMat A2(m,n,m),B2(m,p,m),X2(n,p,n); A2.set(R); B2.set(b); aa_la_lls(m,n,p,A2.buf,B2.buf,X2.buf); near(X2.get(),X.get(),1e-9,"aa_la_lls"); }
    mc::nontrivial(hh(R)^p);
}
static void sp_lls(){ lls<double>(); }
static void sp_llsf(){ lls<float>(); }
static void sp_care() {
    size_t m=1+(size_t)choose(2,"m"); size_t n=1+(size_t)choose(2,"n"), p=1+(size_t)choose(2,"p"); V al= {-1,0,1,2}; mc::split();
    Ref A=mat(m,m,al,"A"), B,C; V bl={-1,0,1}; if(mc::thorough()) bl={-1,0,1,.5};
    /* n==m: B (and p==m: C) are the m*m weighting terms themselves, else factors */
    Ref b(m,n), c(p,m);
    if(n==m){ Ref f=mat(m,m==1?1:1,bl,"bf"); b=f*f.t(); if(m==2&&choose(2,"full")) b=b+Ref::eye(2); B=b; } else { b=mat(m,n,bl,"B"); B=b*b.t(); }
    if(p==m){ Ref f=mat(m,1,bl,"cf"); c=f*f.t(); if(m==2&&choose(2,"fullc")) c=c+Ref::eye(2); C=c; } else { c=mat(p,m,bl,"C"); C=c.t()*c; }
    Ref ctl(m,2*m), obs(m,2*m); Ref AB=A*B, AC=A.t()*C; for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++){ ctl(i,j)=B(i,j); ctl(i,m+j)=AB(i,j); obs(i,j)=C(i,j); obs(i,m+j)=AC(i,j); }
    if(ref_rank(ctl)<m||ref_rank(obs)<m) mc::skip();
    SMat sA(m,m,m), sB(m,n,m), sC(p,m,p), X(m,m,m); sA.set(A); sB.set(b); sC.set(c); Reg reg; mc::step();
    int info=aa_la_care_laub(m,n,p,sA.buf,sB.buf,sC.buf,X.buf); CHECK(info==0,"Riccati solver failed"); sA.unchanged("A"); sB.unchanged("B"); sC.unchanged("C"); reg.ok("Riccati");
    Ref x=X.get(); near(A.t()*x+x*A-x*B*x+C,Ref(m,m),1e-6*(1+x.maxabs()*x.maxabs()),"Riccati residual"); near(x,x.t(),1e-7,"symmetric solution");
    Ref cl=A-B*x; double tr=0; for(size_t i=0;i<m;i++) tr+=cl(i,i); CHECK(tr<0 && (m==1||ref_det(cl)>0),"the closed loop A-BX is not stable"); mc::nontrivial(hh(A)^hh(B)^hh(C)*3);
}
int main(int c,char**v){ aa_la_set_err(on_err); return mc::run(c,v,"C06",{{"inverse",sp_inv},{"pseudo-inverse",sp_pinv},{"decomposition",sp_decomp},{"decomposition-float",sp_decompf},{"least-squares",sp_lls},{"least-squares-float",sp_llsf},{"riccati",sp_care}}); }
