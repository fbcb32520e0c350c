// Assignment solver: every small cost matrix against brute force.
#include "lamodel.hpp"
#include "amino.h"
using mc::choose;
typedef std::vector<double> V;
static void H(size_t m,size_t n,const double*A,size_t l,ssize_t*r,ssize_t*c){ aa_la_d_assign_hungarian(m,n,A,l,r,c); }
static void H(size_t m,size_t n,const float*A,size_t l,ssize_t*r,ssize_t*c){ aa_la_s_assign_hungarian(m,n,A,l,r,c); }
static void M(size_t m,size_t n,double*A,size_t l){ aa_la_d_assign_hungarian_max2min(m,n,A,l); }
static void M(size_t m,size_t n,float*A,size_t l){ aa_la_s_assign_hungarian_max2min(m,n,A,l); }
static void best(const Ref &A,size_t i,unsigned used,double c,size_t left,double &b) {
    if(i==A.m){ if(left==0&&c<b) b=c; return; }
    if(A.m-i>left) best(A,i+1,used,c,left,b);
    if(left) for(size_t j=0;j<A.n;j++) if(!(used>>j&1)) best(A,i+1,used|1u<<j,c+A(i,j),left-1,b);
}
template<class T> static void solve(const Ref &R,size_t pad) {
    size_t m=R.m,n=R.n,k=std::min(m,n); TMat<T> A(m,n,m+pad); A.set(R); TVec<ssize_t> r(m), c(n);
    void *p0=aa_mem_region_ptr(aa_mem_region_local_get());
    H(m,n,A.buf,A.ld,r.buf,c.buf); mc::step(); A.gaps("cost"); A.unchanged("cost");
    CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==p0,"local region not restored");
    size_t cnt=0; double cost=0;
    for(size_t i=0;i<m;i++){ ssize_t j=r[i]; CHECK(j>=-1&&j<(ssize_t)n,"row %zu assigned to column %zd",i,j); if(j<0) continue; cnt++; cost+=R(i,(size_t)j); CHECK(c[(size_t)j]==(ssize_t)i,"row %zu is assigned column %zd but that column has row %zd",i,j,(ssize_t)c[(size_t)j]); }
    CHECK(cnt==k,"%zu assignments instead of %zu",cnt,k);
    size_t cc=0; for(size_t j=0;j<n;j++){ CHECK(c[j]>=-1&&c[j]<(ssize_t)m,"column %zu assigned to row %zd",j,(ssize_t)c[j]); if(c[j]>=0) cc++; } CHECK(cc==k,"%zu columns assigned instead of %zu",cc,k);
    double b=1e300; best(R,0,0,0,k,b);
    CHECK(std::fabs(cost-b)<1e-4,"assignment costs %g, the optimum is %g",cost,b);
    mc::Hash h; for(double x:R.a) h(x); mc::nontrivial(h(m));
}
static const V AL[]={{0,1,2},{-2,-1,3},{.3,.7,1.1},{-3,-2,-1},{0,1,1000}};
static void go(size_t m,size_t n,const V&al,int ty,size_t pad){ Ref R(m,n); for(auto&x:R.a) x=al[(size_t)choose((int)al.size(),"cost")]; if(ty) solve<float>(R,pad); else solve<double>(R,pad); }
static void sp_small(){ size_t m=1+(size_t)choose(3,"m"), n=1+(size_t)choose(3,"n"); int a=choose(5,"alphabet"), ty=choose(2,"type"); size_t pad=(size_t)choose(2,"pad"); mc::split(); go(m,n,AL[a],ty,pad); }
static void sp_rect(){ static const size_t S[][2]={{1,4},{4,1},{2,4},{4,2},{3,4},{4,3}}; int s=choose(6,"shape"), a=choose(3,"alphabet"); size_t pad=(size_t)choose(2,"pad"); mc::split(); go(S[s][0],S[s][1],AL[a],0,pad); }
/* 3x4 and 4x3 over two letters, 4x4 over two letters; thorough: 4x4 over three letters */
static void sp_two(){ static const V A2[]={{0,1},{-1,2},{.25,-.5}}; static const size_t S[][2]={{3,4},{4,3},{4,4}}; int s=choose(3,"shape"), a=choose(3,"alphabet"), x=choose(2,"c00"), y=choose(2,"c10"); mc::split();
    size_t m=S[s][0],n=S[s][1]; Ref R(m,n); R.a[0]=A2[a][(size_t)x]; R.a[1]=A2[a][(size_t)y]; for(size_t i=2;i<m*n;i++) R.a[i]=A2[a][(size_t)choose(2,"cost")]; solve<double>(R,0); }
static void sp_three(){ if(!mc::thorough()){ mc::split(); mc::skip(); } int x=choose(3,"c00"), y=choose(3,"c10"); mc::split(); Ref R(4,4); V al={0,1,3}; R.a[0]=al[(size_t)x]; R.a[1]=al[(size_t)y]; for(size_t i=2;i<16;i++) R.a[i]=al[(size_t)choose(3,"cost")]; solve<double>(R,0); }
/* larger matrices of structured shape: cost(i,j) = f(row weight, column weight), perturbed in up to two cells */
static void sp_struct(){ size_t n=4+(size_t)choose(3,"n"); int kind=choose(4,"kind"); size_t i0=(size_t)choose((int)n,"i0"), j0=(size_t)choose((int)n,"j0"); mc::split(); size_t dm=(size_t)choose(2,"fewer rows");
    Ref R(n-dm,n); for(size_t i=0;i<R.m;i++)for(size_t j=0;j<n;j++){ double a=(double)i+1,b=(double)j+1; R(i,j)= kind==0?a*b: kind==1?std::fabs(a-b): kind==2?std::fmod(a*7+b*5,6): (a-3)*(b-2.5); }
    if(i0<R.m) R(i0,j0)+=mc::pick({-2.5,0.,4.},"d0"); size_t i1=(size_t)choose((int)R.m,"i1"), j1=(size_t)choose((int)n,"j1"); R(i1,j1)+=mc::pick({-3.,2.},"d1"); solve<double>(R,0); if(!dm) solve<double>(R.t(),1); }
static void sp_max(){ size_t m=1+(size_t)choose(3,"m"), n=1+(size_t)choose(3,"n"), pad=(size_t)choose(2,"pad"); int ty=choose(2,"type"); mc::split();
    auto f=[&](auto z){ typedef decltype(z) T; Ref R(m,n); V al= m*n>6? V{-1,2}:V{-1,0,2}; for(auto&x:R.a) x=al[(size_t)choose((int)al.size(),"v")]; TMat<T> A(m,n,m+pad); A.set(R); M(m,n,A.buf,A.ld); mc::step(); A.gaps("max2min");
        double mx=*std::max_element(R.a.begin(),R.a.end()); Ref W(m,n); for(size_t i=0;i<m*n;i++) W.a[i]=mx-R.a[i]; near(A.get(),W,1e-6,"max2min"); };
    if(ty) f(float()); else f(double()); }
int main(int c,char**v){ return mc::run(c,v,"C07",{{"small",sp_small},{"rect",sp_rect},{"two-letter",sp_two},{"three-letter",sp_three},{"structured",sp_struct},{"max2min",sp_max}}); }
