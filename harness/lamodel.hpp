// shared reference linear algebra for the harnesses (row/col model, no BLAS)
#ifndef LAMODEL_HPP
#define LAMODEL_HPP
#include "mc.hpp"
#include <stdexcept>
struct Ref {                       /* dense column-major reference matrix */
    size_t m=0,n=0; std::vector<double> a;
    Ref() {}
    Ref(size_t m_,size_t n_,double v=0):m(m_),n(n_),a(m_*n_,v){}
    double &operator()(size_t i,size_t j){ return a[j*m+i]; }
    double operator()(size_t i,size_t j) const { return a[j*m+i]; }
    Ref t() const { Ref r(n,m); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) r(j,i)=(*this)(i,j); return r; }
    double fro() const { double s=0; for(double x:a) s+=x*x; return std::sqrt(s); }
    double maxabs() const { double s=0; for(double x:a) s=std::max(s,std::fabs(x)); return s; }
    static Ref eye(size_t n) { Ref r(n,n); for(size_t i=0;i<n;i++) r(i,i)=1; return r; }
};
inline Ref operator*(const Ref &A,const Ref &B){ Ref C(A.m,B.n); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<B.n;j++){ double s=0; for(size_t k=0;k<A.n;k++) s+=A(i,k)*B(k,j); C(i,j)=s; } return C; }
inline Ref operator+(const Ref &A,const Ref &B){ Ref C=A; for(size_t i=0;i<C.a.size();i++) C.a[i]+=B.a[i]; return C; }
inline Ref operator-(const Ref &A,const Ref &B){ Ref C=A; for(size_t i=0;i<C.a.size();i++) C.a[i]-=B.a[i]; return C; }
inline Ref operator*(double k,const Ref &A){ Ref C=A; for(double&x:C.a) x*=k; return C; }
/* Gauss-Jordan inverse with full row pivoting; returns false when singular */
inline bool ref_inv(const Ref &A0, Ref &X) {
    size_t n=A0.m; Ref A=A0; X=Ref::eye(n);
    for(size_t c=0;c<n;c++){ size_t p=c; for(size_t r=c+1;r<n;r++) if(std::fabs(A(r,c))>std::fabs(A(p,c))) p=r;
        if(std::fabs(A(p,c))<1e-12) return false;
        for(size_t j=0;j<n;j++){ std::swap(A(p,j),A(c,j)); std::swap(X(p,j),X(c,j)); }
        double d=A(c,c); for(size_t j=0;j<n;j++){ A(c,j)/=d; X(c,j)/=d; }
        for(size_t r=0;r<n;r++) if(r!=c){ double f=A(r,c); if(f!=0) for(size_t j=0;j<n;j++){ A(r,j)-=f*A(c,j); X(r,j)-=f*X(c,j);} } }
    return true;
}
inline size_t ref_rank(const Ref &A0) {
    Ref A=A0; size_t r=0;
    for(size_t c=0;c<A.n&&r<A.m;c++){ size_t p=r; for(size_t i=r+1;i<A.m;i++) if(std::fabs(A(i,c))>std::fabs(A(p,c))) p=i;
        if(std::fabs(A(p,c))<1e-9) continue;
        for(size_t j=0;j<A.n;j++) std::swap(A(p,j),A(r,j));
        for(size_t i=r+1;i<A.m;i++){ double f=A(i,c)/A(r,c); for(size_t j=0;j<A.n;j++) A(i,j)-=f*A(r,j);} r++; }
    return r;
}
inline double ref_det(Ref A) { double d=1; size_t n=A.m;
    for(size_t c=0;c<n;c++){ size_t p=c; for(size_t r=c+1;r<n;r++) if(std::fabs(A(r,c))>std::fabs(A(p,c))) p=r;
        if(A(p,c)==0) return 0; if(p!=c){ d=-d; for(size_t j=0;j<n;j++) std::swap(A(p,j),A(c,j)); } d*=A(c,c);
        for(size_t r=c+1;r<n;r++){ double f=A(r,c)/A(c,c); for(size_t j=c;j<n;j++) A(r,j)-=f*A(c,j);} } return d; }
/* symmetric eigen decomposition by Jacobi rotations: A = V diag(w) V' */
inline void ref_jacobi(Ref A, Ref &V, std::vector<double> &w) {
    size_t n=A.m; V=Ref::eye(n);
    for(int sweep=0;sweep<60;sweep++){ double off=0; for(size_t i=0;i<n;i++)for(size_t j=i+1;j<n;j++) off+=A(i,j)*A(i,j); if(off<1e-30) break;
        for(size_t p=0;p<n;p++)for(size_t q=p+1;q<n;q++){ if(std::fabs(A(p,q))<1e-300) continue;
            double th=.5*std::atan2(2*A(p,q),A(p,p)-A(q,q)), c=std::cos(th), s=std::sin(th);
            for(size_t k=0;k<n;k++){ double x=A(k,p),y=A(k,q); A(k,p)=c*x+s*y; A(k,q)=-s*x+c*y; x=V(k,p);y=V(k,q); V(k,p)=c*x+s*y; V(k,q)=-s*x+c*y; }
            for(size_t k=0;k<n;k++){ double x=A(p,k),y=A(q,k); A(p,k)=c*x+s*y; A(q,k)=-s*x+c*y; } } }
    w.resize(n); for(size_t i=0;i<n;i++) w[i]=A(i,i);
}
/* sum over singular triples of f(s) v u'  (f(s)/s must be bounded on the nonzero part): V diag(g(s^2)) V' A' */
template<class G> inline Ref ref_spectral(const Ref &A, G g) {
    Ref V; std::vector<double> w; ref_jacobi(A.t()*A,V,w); size_t n=A.n; Ref D(n,n); for(size_t i=0;i<n;i++) D(i,i)= w[i]<1e-12 ? 0 : g(w[i]);
    return V*D*V.t()*A.t();
}
inline std::vector<double> ref_sv(const Ref &A){ Ref V; std::vector<double> w; const Ref B = A.m<A.n ? A*A.t() : A.t()*A; ref_jacobi(B,V,w); for(auto&x:w) x=std::sqrt(std::max(0.0,x)); std::sort(w.begin(),w.end(),[](double a,double b){return a>b;}); return w; }
/* strided storage in an exactly sized heap buffer; gaps hold canaries */
template<class T> struct TMat {
    size_t m,n,ld; T *buf; size_t sz; std::vector<T> snap;
    TMat(size_t m_,size_t n_,size_t ld_):m(m_),n(n_),ld(ld_) {
        sz = (m&&n) ? (n-1)*ld+m : 0; buf=(T*)malloc(sizeof(T)*(sz?sz:1));
        for(size_t i=0;i<sz;i++) buf[i]=(T)(7777.5+(double)i); take(); }
    TMat(const TMat&)=delete;
    ~TMat(){ free(buf); }
    T &operator()(size_t i,size_t j){ return buf[j*ld+i]; }
    void set(const Ref &R){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) (*this)(i,j)=(T)R(i,j); take(); }
    Ref get(){ Ref R(m,n); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) R(i,j)=(double)(*this)(i,j); return R; }
    void take(){ snap.assign(buf,buf+sz); }
    /* storage outside the view untouched */
    void gaps(const char *what){ for(size_t j=0;j+1<n;j++) for(size_t i=m;i<ld;i++) CHECK(!memcmp(&buf[j*ld+i],&snap[j*ld+i],sizeof(T)),"%s: memory outside the view changed at offset %zu",what,j*ld+i); }
    void unchanged(const char *what){ CHECK(sz==0||!memcmp(buf,snap.data(),sizeof(T)*sz),"%s: input changed",what); }
};
template<class T> struct TVec {
    size_t n,inc; T *buf; size_t sz; std::vector<T> snap;
    TVec(size_t n_,size_t inc_=1):n(n_),inc(inc_){ sz=n?(n-1)*inc+1:0; buf=(T*)malloc(sizeof(T)*(sz?sz:1)); for(size_t i=0;i<sz;i++) buf[i]=(T)(5555.5+(double)i); take(); }
    TVec(const TVec&)=delete;
    ~TVec(){ free(buf); }
    T &operator[](size_t i){ return buf[i*inc]; }
    void set(const std::vector<double>&v){ for(size_t i=0;i<n;i++) (*this)[i]=(T)v[i]; take(); }
    std::vector<double> get(){ std::vector<double> v(n); for(size_t i=0;i<n;i++) v[i]=(double)(*this)[i]; return v; }
    void take(){ snap.assign(buf,buf+sz); }
    void gaps(const char *what){ for(size_t i=0;i<sz;i++) if(i%inc) CHECK(!memcmp(&buf[i],&snap[i],sizeof(T)),"%s: memory between vector elements changed",what); }
    void unchanged(const char *what){ CHECK(sz==0||!memcmp(buf,snap.data(),sizeof(T)*sz),"%s: input changed",what); }
};
typedef TMat<double> SMat; typedef TVec<double> SVec;
inline void near(const Ref &A,const Ref &B,double tol,const char *what){
    CHECK(A.m==B.m&&A.n==B.n,"%s: size",what);
    double s=std::max(1.0,B.maxabs());
    for(size_t i=0;i<A.a.size();i++) CHECK(std::isfinite(A.a[i])&&std::fabs(A.a[i]-B.a[i])<=tol*s,"%s: element %zu is %.17g, expected %.17g",what,i,A.a[i],B.a[i]);
}
inline void near(const std::vector<double>&A,const std::vector<double>&B,double tol,const char *what){
    CHECK(A.size()==B.size(),"%s: size",what);
    for(size_t i=0;i<A.size();i++) CHECK(std::isfinite(A[i])&&std::fabs(A[i]-B[i])<=tol*std::max(1.0,std::fabs(B[i])),"%s: element %zu is %.17g, expected %.17g",what,i,A[i],B[i]);
}
/* deterministic dense data; k selects a pattern */
inline double datum(int k,size_t i){ static const double t[]={1,-2,.5,3,-1.25,2.5,-.75,4,-3.5,1.5,0,-1,2,7,-.125,5}; return t[(i*(size_t)(2*k+3)+(size_t)k*5)%16]; }
inline Ref data(int k,size_t m,size_t n){ Ref R(m,n); for(size_t i=0;i<m*n;i++) R.a[i]=datum(k,i); return R; }
inline std::vector<double> vdata(int k,size_t n){ std::vector<double> v(n); for(size_t i=0;i<n;i++) v[i]=datum(k,i); return v; }
#endif
