// Matrix and vector views: every shape, stride, transposition in small bounds.
#include "lamodel.hpp"
#include "amino.h"
#include "amino/mat.h"
extern "C" double det3x3_(const double*) __asm__("aa_la_det3x3");   /* declared without C linkage */
using mc::choose;
typedef std::vector<double> V;
struct LaErr {};
static void on_err(const char *) { throw LaErr(); }
template<class F> static bool errs(F f) { try { f(); } catch( LaErr& ) { return true; } return false; }

static const double SC[]={0,1,-2,.5};
static size_t N(int mx,const char*l="n"){ return 1+(size_t)choose(mx,l); }
static aa_dvec dv(SVec&v){ aa_dvec d; aa_dvec_view(&d,v.n,v.buf,v.inc); return d; }
static aa_dmat dm(SMat&a){ aa_dmat d; aa_dmat_view(&d,a.m,a.n,a.buf,a.ld); return d; }

/* ---- vectors ---- */
static void sp_vec() {
    size_t n=(size_t)choose(mc::thorough()?7:5,"n"), ix=N(3,"incx"), iy=N(3,"incy"), ny=(size_t)choose(mc::thorough()?7:5,"ny"); int k=choose(3,"data"); int op=choose(13,"op");
    mc::split();
    double al=mc::pick(SC,"alpha");
    SVec x(n,ix), y(ny,iy); x.set(vdata(k,n)); y.set(vdata(k+1,ny)); V X=x.get(), Y=y.get();
    aa_dvec dx=dv(x), dy=dv(y);
    bool two = op>=5 && op<=10;
    if( !two && ny!=n ) mc::skip();
    mc::step();
    if( two && n!=ny ) {
        bool e=errs([&]{ switch(op){ case 5: aa_dvec_swap(&dx,&dy);break; case 6: aa_dvec_copy(&dx,&dy);break; case 7: aa_dvec_axpy(al,&dx,&dy);break;
            case 8: aa_dvec_dot(&dx,&dy);break; case 9: aa_dvec_ssd(&dx,&dy);break; case 10: aa_dvec_ssd(&dy,&dx);break; } });
        CHECK(e,"size mismatch %zu/%zu not reported by operation %d",n,ny,op);
        x.unchanged("mismatched x"); y.unchanged("mismatched y");
        mc::nontrivial(mc::Hash()(n)(ny)(op)(ix)(iy)); return;
    }
    double s=0;
    switch(op) {
    case 0: aa_dvec_set(&dx,al); for(auto&v:X) v=al; break;
    case 1: aa_dvec_zero(&dx); for(auto&v:X) v=0; break;
    case 2: aa_dvec_scal(al,&dx); for(auto&v:X) v*=al; break;
    case 3: aa_dvec_inc(al,&dx); for(auto&v:X) v+=al; break;
    case 4: for(double v:X) s+=v*v; NEAR(aa_dvec_nrm2(&dx),sqrt(s),1e-12,"nrm2"); break;
    case 5: aa_dvec_swap(&dx,&dy); std::swap(X,Y); break;
    case 6: aa_dvec_copy(&dx,&dy); Y=X; break;
    case 7: aa_dvec_axpy(al,&dx,&dy); for(size_t i=0;i<n;i++) Y[i]+=al*X[i]; break;
    case 8: for(size_t i=0;i<n;i++) s+=X[i]*Y[i]; NEAR(aa_dvec_dot(&dx,&dy),s,1e-12,"dot"); break;
    case 9: case 10: for(size_t i=0;i<n;i++) s+=(X[i]-Y[i])*(X[i]-Y[i]); NEAR(aa_dvec_ssd(&dx,&dy),s,1e-12,"ssd"); break;
    case 11: { aa_dvec *d=aa_dvec_mdup(&dx); REQUIRE(d->len==n); SVec t(n,1); for(size_t i=0;i<n;i++) { CHECK(AA_DVEC_REF(d,i)==X[i],"mdup element"); AA_DVEC_REF(d,i)=-99; } free(d); break; }
    case 12: { aa_mem_region *r=aa_mem_region_create(64); void*p0=aa_mem_region_ptr(r); aa_dvec *d=aa_dvec_dup(r,&dx); aa_dvec *e=aa_dvec_alloc(r,n); REQUIRE(d->len==n&&e->len==n);
        for(size_t i=0;i<n;i++) AA_DVEC_REF(e,i)=-5;
        for(size_t i=0;i<n;i++) { CHECK(AA_DVEC_REF(d,i)==X[i],"dup element"); AA_DVEC_REF(d,i)=-99; }
        for(size_t i=0;i<n;i++) CHECK(AA_DVEC_REF(e,i)==-5,"region vectors overlap");
        (void)p0; aa_mem_region_destroy(r); break; }
    }
    near(x.get(),X,1e-14,"x"); near(y.get(),Y,1e-14,"y"); x.gaps("x"); y.gaps("y");
    mc::nontrivial(mc::Hash()(n)(ny)(op)(ix)(iy)(k)(al));
}
/* ---- slices ---- */
static void sp_slice() {
    size_t n=(size_t)choose(8,"n"), inc=N(3,"inc"); mc::split();
    size_t st=(size_t)choose(10,"start"), en=(size_t)choose(10,"stop"), sp=N(4,"step");
    SVec x(n,inc); x.set(vdata(0,n)); aa_dvec d=dv(x), r={99,0,0};
    mc::step();
    bool e=errs([&]{ aa_dvec_slice(&d,st,en,sp,&r); });
    if( en>n || en<st ) { CHECK(e,"out of bounds slice %zu:%zu of %zu not reported",st,en,n); return; }
    CHECK(!e,"valid slice %zu:%zu:%zu of %zu rejected",st,en,sp,n);
    V want; for(size_t i=st;i<en;i+=sp) want.push_back(x[i]);
    CHECK(r.len==want.size(),"slice %zu:%zu:%zu of %zu has %zu elements, expected %zu",st,en,sp,n,(size_t)r.len,want.size());
    for(size_t i=0;i<want.size();i++) CHECK(&AA_DVEC_REF(&r,i)==&x[st+i*sp],"slice element %zu at the wrong address",i);
    mc::nontrivial(mc::Hash()(n)(inc)(st)(en)(sp));
}
/* ---- blocks, rows, columns, diagonals ---- */
static void sp_block() {
    size_t m=N(4,"m"), n=N(4,"n"), ld=m+(size_t)choose(3,"pad"); mc::split();
    SMat A(m,n,ld); A.set(data(1,m,n)); aa_dmat a=dm(A);
    switch(choose(5,"what")) {
    case 0: { size_t r0=(size_t)choose(6,"r0"), c0=(size_t)choose(6,"c0"), r1=(size_t)choose(6,"r1"), c1=(size_t)choose(6,"c1");
        aa_dmat b={}; bool e=errs([&]{ aa_dmat_block(&a,r0,c0,r1,c1,&b); }); mc::step();
        bool ok = r0<r1 && r1<=m && c0<c1 && c1<=n;
        CHECK(e==!ok,"block [%zu,%zu)x[%zu,%zu) of %zux%zu %s",r0,r1,c0,c1,m,n,ok?"rejected":"accepted");
        if(!ok) return;
        REQUIRE(b.rows==r1-r0 && b.cols==c1-c0);
        for(size_t i=0;i<b.rows;i++)for(size_t j=0;j<b.cols;j++) CHECK(&AA_DMAT_REF(&b,i,j)==&A(r0+i,c0+j),"block element (%zu,%zu)",i,j);
        aa_dmat b2={}; aa_dmat_view_block(&b2,&a,r0,c0,r1-r0,c1-c0); REQUIRE(b2.rows==b.rows&&b2.cols==b.cols&&b2.data==b.data&&b2.ld==b.ld);
        break; }
    case 1: { size_t r=(size_t)choose(6,"row"); aa_dvec v={}; bool e=errs([&]{aa_dmat_row_vec(&a,r,&v);}); CHECK(e==(r>=m),"row %zu of %zu",r,m); if(e) return;
        REQUIRE(v.len==n); for(size_t j=0;j<n;j++) CHECK(&AA_DVEC_REF(&v,j)==&A(r,j),"row element"); break; }
    case 2: { size_t c=(size_t)choose(6,"col"); aa_dvec v={}; bool e=errs([&]{aa_dmat_col_vec(&a,c,&v);}); CHECK(e==(c>=n),"col %zu of %zu",c,n); if(e) return;
        REQUIRE(v.len==m); for(size_t i=0;i<m;i++) CHECK(&AA_DVEC_REF(&v,i)==&A(i,c),"column element"); break; }
    case 3: { aa_dvec v={}; aa_dmat_diag_vec(&a,&v); REQUIRE(v.len==std::min(m,n)); for(size_t i=0;i<v.len;i++) CHECK(&AA_DVEC_REF(&v,i)==&A(i,i),"diagonal element"); break; }
    case 4: { aa_mem_region *r=aa_mem_region_create(64); aa_dmat *d=aa_dmat_dup(r,&a), *e=aa_dmat_alloc(r,m,n), *h=aa_dmat_mdup(&a), *z=aa_dmat_malloc(m,n);
        REQUIRE(d->rows==m&&d->cols==n&&d->ld>=m&&e->rows==m&&e->cols==n&&h->rows==m&&h->cols==n&&z->rows==m&&z->cols==n);
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ AA_DMAT_REF(e,i,j)=-3; AA_DMAT_REF(z,i,j)=-4; }
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ CHECK(AA_DMAT_REF(d,i,j)==A(i,j)&&AA_DMAT_REF(h,i,j)==A(i,j),"duplicate differs"); AA_DMAT_REF(d,i,j)=8; AA_DMAT_REF(h,i,j)=9; }
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) CHECK(AA_DMAT_REF(e,i,j)==-3&&AA_DMAT_REF(z,i,j)==-4,"allocations overlap");
        free(h); free(z); aa_mem_region_destroy(r); break; }
    }
    A.unchanged("view"); mc::nontrivial(mc::Hash()(m)(n)(ld));
}
/* ---- one-matrix and matrix-matrix element operations ---- */
static void sp_mat() {
    int mx=mc::thorough()?5:4;
    size_t m=N(mx,"m"), n=N(mx,"n"), pa=(size_t)choose(3,"pad"), pb=(size_t)choose(3,"padb"); int op=choose(12,"op"); mc::split(); int k=choose(2,"data");
    size_t m2=m,n2=n; bool two=op>=5;
    int mis = two ? choose(3,"mismatch") : 0;
    if(mis==1) m2=m+1; if(mis==2) n2=n+1;
    bool tr = op==11; if(tr) std::swap(m2,n2);
    double al=mc::pick(SC,"alpha"), be=mc::pick({2.,-1.},"beta");
    SMat A(m,n,m+pa), B(m2,n2,m2+pb); A.set(data(k,m,n)); B.set(data(k+1,m2,n2)); Ref RA=A.get(), RB=B.get(); aa_dmat a=dm(A), b=dm(B);
    mc::step();
    if( mis ) {
        bool e=errs([&]{ switch(op){ case 5: case 6: case 7: aa_dmat_lacpy(op==5?"G":op==6?"U":"L",&a,&b);break; case 8: aa_dmat_copy(&a,&b);break; case 9: aa_dmat_axpy(al,&a,&b);break; case 10: aa_dmat_ssd(&a,&b);break; case 11: aa_dmat_trans(&a,&b);break; } });
        CHECK(e,"size mismatch not reported by matrix operation %d",op); A.unchanged("a"); B.unchanged("b"); return;
    }
    double s=0;
    switch(op) {
    case 0: aa_dmat_set(&a,al,be); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) RA(i,j)= i==j?be:al; break;
    case 1: aa_dmat_zero(&a); RA=Ref(m,n); break;
    case 2: aa_dmat_scal(&a,al); RA=al*RA; break;
    case 3: aa_dmat_inc(&a,al); for(auto&x:RA.a) x+=al; break;
    case 4: NEAR(aa_dmat_nrm2(&a),RA.fro(),1e-12,"matrix norm"); break;
    case 5: aa_dmat_lacpy("G",&a,&b); RB=RA; break;
    case 6: aa_dmat_lacpy("U",&a,&b); for(size_t i=0;i<m;i++)for(size_t j=i;j<n;j++) RB(i,j)=RA(i,j); break;
    case 7: aa_dmat_lacpy("L",&a,&b); for(size_t i=0;i<m;i++)for(size_t j=0;j<=i&&j<n;j++) RB(i,j)=RA(i,j); break;
    case 8: aa_dmat_copy(&a,&b); RB=RA; break;
    case 9: aa_dmat_axpy(al,&a,&b); RB=RB+al*RA; break;
    case 10: for(size_t i=0;i<m*n;i++) s+=(RA.a[i]-RB.a[i])*(RA.a[i]-RB.a[i]); NEAR(aa_dmat_ssd(&a,&b),s,1e-12,"matrix ssd"); break;
    case 11: aa_dmat_trans(&a,&b); RB=RA.t(); break;
    }
    near(A.get(),RA,1e-14,"A"); near(B.get(),RB,1e-14,"B"); A.gaps("A"); B.gaps("B");
    mc::nontrivial(mc::Hash()(m)(n)(pa)(pb)(op)(k)(al));
}
/* ---- gemv / gemm ---- */
static void sp_gemv() {
    size_t m=N(4,"m"), n=N(4,"n"), pad=(size_t)choose(2,"pad"), ix=N(2,"ix"), iy=N(2,"iy"); bool tr=choose(2,"trans"); mc::split();
    int mis=choose(3,"mismatch"); double al=mc::pick(SC,"alpha"), be=mc::pick(SC,"beta");
    size_t nx=(tr?m:n)+(mis==1), ny=(tr?n:m)+(mis==2);
    SMat A(m,n,m+pad); A.set(data(0,m,n)); SVec x(nx,ix), y(ny,iy); x.set(vdata(1,nx)); y.set(vdata(2,ny)); Ref R=A.get(); V X=x.get(),Y=y.get();
    aa_dmat a=dm(A); aa_dvec dx=dv(x),dy=dv(y); mc::step();
    bool e=errs([&]{ aa_dmat_gemv(tr?CblasTrans:CblasNoTrans,al,&a,&dx,be,&dy); });
    CHECK(e==(mis!=0),"gemv size check"); A.unchanged("gemv A"); x.unchanged("gemv x");
    if(e) { y.unchanged("gemv y"); return; }
    Ref O=tr?R.t():R; for(size_t i=0;i<ny;i++){ double s=0; for(size_t j=0;j<nx;j++) s+=O(i,j)*X[j]; Y[i]=al*s+be*Y[i]; }
    near(y.get(),Y,1e-13,"gemv y"); y.gaps("gemv y");
    mc::nontrivial(mc::Hash()(m)(n)(pad)(ix)(iy)(tr)(al)(be));
}
static void sp_gemm() {
    int mx=mc::thorough()?4:3;
    size_t m=N(mx,"m"), n=N(mx,"n"), k=N(mx,"k"); bool ta=choose(2,"ta"), tb=choose(2,"tb"); size_t pa=(size_t)choose(2,"pa"), pb=(size_t)choose(2,"pb"), pc=(size_t)choose(2,"pc"); mc::split();
    int mis=choose(5,"mismatch"); double al=mc::pick(SC,"alpha"), be=mc::pick(SC,"beta");
    size_t kb=k+(mis==1), mc_=m+(mis==2), nc=n+(mis==3); if(mis==4){ if(k<2) mc::skip(); kb=k-1; }
    size_t ar=ta?k:m, ac=ta?m:k, br=tb?n:kb, bc=tb?kb:n;
    SMat A(ar,ac,ar+pa), B(br,bc,br+pb), C(mc_,nc,mc_+pc); A.set(data(0,ar,ac)); B.set(data(1,br,bc)); C.set(data(2,mc_,nc));
    Ref RA=A.get(),RB=B.get(),RC=C.get(); aa_dmat a=dm(A),b=dm(B),c=dm(C); mc::step();
    bool e=errs([&]{ aa_dmat_gemm(ta?CblasTrans:CblasNoTrans,tb?CblasTrans:CblasNoTrans,al,&a,&b,be,&c); });
    CHECK(e==(mis!=0),"gemm %s (transA %d transB %d, A %zux%zu B %zux%zu C %zux%zu)",mis?"accepted mismatched sizes":"rejected matching sizes",ta,tb,ar,ac,br,bc,mc_,nc);
    A.unchanged("gemm A"); B.unchanged("gemm B"); if(e) { C.unchanged("gemm C"); return; }
    near(C.get(), al*((ta?RA.t():RA)*(tb?RB.t():RB))+be*RC, 1e-13,"gemm C"); C.gaps("gemm C");
    mc::nontrivial(mc::Hash()(m)(n)(k)(ta)(tb)(pa)(pb)(pc)(al)(be));
}
/* ---- raw-array vector functions ---- */
static void sp_raw() {
    int op=choose(27,"op"); size_t n=(size_t)choose(mc::thorough()?9:6,"n"); int k=choose(3,"data"); double al=mc::pick(SC,"alpha"); mc::split(); int alias=choose(2,"alias");
    SVec x(n),y(n),r(n); x.set(vdata(k,n)); y.set(vdata(k+1,n)); for(size_t i=0;i<n;i++) if((op==12||op==16)) { if(x[i]==0) x[i]=3; if(y[i]==0) y[i]=-3; } x.take(); y.take();
    V X=x.get(),Y=y.get(),R(n); double s=0; mc::step();
    double *out = alias? x.buf : r.buf; bool wr=false;
    switch(op) {
    case 0: s=INFINITY; for(double v:X) s=std::min(s,v); CHECK(aa_la_min(n,x.buf)==s,"min"); break;
    case 1: s=-INFINITY; for(double v:X) s=std::max(s,v); CHECK(aa_la_max(n,x.buf)==s,"max"); break;
    case 2: for(size_t i=0;i<n;i++) s+=X[i]*Y[i]; NEAR(aa_la_dot(n,x.buf,y.buf),s,1e-13,"dot"); break;
    case 3: for(size_t i=0;i<n;i++) s+=X[i]*X[i]; NEAR(aa_la_norm(n,x.buf),sqrt(s),1e-13,"norm"); break;
    case 4: for(size_t i=0;i<n;i++) s+=(X[i]-Y[i])*(X[i]-Y[i]); NEAR(aa_la_ssd(n,x.buf,y.buf),s,1e-13,"ssd"); break;
    case 5: for(size_t i=0;i<n;i++) s+=(X[i]-Y[i])*(X[i]-Y[i]); NEAR(aa_la_dist(n,x.buf,y.buf),sqrt(s),1e-13,"dist"); break;
    case 6: aa_la_sinc(n,al,x.buf); for(size_t i=0;i<n;i++) X[i]+=al; near(x.get(),X,1e-14,"sinc"); x.take(); break;
    case 7: aa_la_vinc(n,x.buf,y.buf); for(size_t i=0;i<n;i++) Y[i]+=X[i]; near(y.get(),Y,1e-14,"vinc"); y.take(); break;
    case 8: aa_la_axpy(n,al,x.buf,y.buf); for(size_t i=0;i<n;i++) Y[i]+=al*X[i]; near(y.get(),Y,1e-14,"axpy"); y.take(); break;
    case 9: aa_la_scal(n,al,x.buf); for(size_t i=0;i<n;i++) X[i]*=al; near(x.get(),X,1e-14,"scal"); x.take(); break;
    case 10: aa_la_axpy3(n,al,x.buf,y.buf,out); for(size_t i=0;i<n;i++) R[i]=al*X[i]+Y[i]; wr=true; break;
    case 11: aa_la_sadd(n,al,x.buf,out); for(size_t i=0;i<n;i++) R[i]=al+X[i]; wr=true; break;
    case 12: aa_la_sdiv(n,al,x.buf,out); for(size_t i=0;i<n;i++) R[i]=al/X[i]; wr=true; break;
    case 13: aa_la_smul(n,al,x.buf,out); for(size_t i=0;i<n;i++) R[i]=al*X[i]; wr=true; break;
    case 14: aa_la_ssub(n,al,x.buf,out); for(size_t i=0;i<n;i++) R[i]=al-X[i]; wr=true; break;
    case 15: aa_la_vadd(n,x.buf,y.buf,out); for(size_t i=0;i<n;i++) R[i]=X[i]+Y[i]; wr=true; break;
    case 16: aa_la_vdiv(n,x.buf,y.buf,out); for(size_t i=0;i<n;i++) R[i]=X[i]/Y[i]; wr=true; break;
    case 17: aa_la_vmul(n,x.buf,y.buf,out); for(size_t i=0;i<n;i++) R[i]=X[i]*Y[i]; wr=true; break;
    case 18: aa_la_vsub(n,x.buf,y.buf,out); for(size_t i=0;i<n;i++) R[i]=X[i]-Y[i]; wr=true; break;
    case 19: if(n!=3) mc::skip(); aa_la_cross(x.buf,y.buf,r.buf); R={X[1]*Y[2]-X[2]*Y[1],X[2]*Y[0]-X[0]*Y[2],X[0]*Y[1]-X[1]*Y[0]}; near(r.get(),R,1e-14,"cross"); break;
    case 20: if(n==0) mc::skip(); for(double v:X) s+=v*v; if(s==0) mc::skip(); aa_la_normalize(n,x.buf); for(auto&v:X) v/=sqrt(s); near(x.get(),X,1e-14,"normalize"); x.take(); break;
    case 21: { if(n==0) mc::skip(); SMat A(n,n,n); A.set(data(k,n,n)); Ref q=A.get(); aa_la_transpose(n,A.buf); near(A.get(),q.t(),0,"transpose"); 
        for(size_t i=0;i<n;i++) s+=q(i,i); A.set(q); NEAR(aa_la_trace(n,A.buf),s,1e-13,"trace"); A.unchanged("trace");
        double w=0; for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) w+=X[i]*q(i,j)*Y[j]; NEAR(aa_la_wdot(n,x.buf,A.buf,y.buf),w,1e-13,"weighted dot"); A.unchanged("wdot");
        aa_la_diag(n,A.buf,al); for(size_t i=0;i<n;i++) q(i,i)=al; near(A.get(),q,0,"diag"); aa_la_ident(n,A.buf); near(A.get(),Ref::eye(n),0,"ident"); break; }
    case 22: { for(size_t m=1;m<=4;m++) { if(!n) mc::skip(); SMat A(m,n,m), B(n,m,n); A.set(data(k,m,n)); aa_la_transpose2(m,n,A.buf,B.buf); near(B.get(),A.get().t(),0,"transpose2"); A.unchanged("transpose2");
        SVec b(m); aa_la_mvmul(m,n,A.buf,x.buf,b.buf); V w(m); Ref q=A.get(); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) w[i]+=q(i,j)*X[j]; near(b.get(),w,1e-13,"mvmul");
        for(size_t la=0;la<2;la++)for(size_t lb=0;lb<2;lb++){ SMat A2(m,n,m+la), B2(n,m,n+lb); A2.set(q); aa_la_d_transpose(m,n,A2.buf,m+la,B2.buf,n+lb); near(B2.get(),q.t(),0,"d_transpose"); B2.gaps("d_transpose");
            TMat<float> A3(m,n,m+la), B3(n,m,n+lb); A3.set(q); aa_la_s_transpose(m,n,A3.buf,m+la,B3.buf,n+lb); near(B3.get(),q.t(),0,"s_transpose"); B3.gaps("s_transpose"); } } break; }
    case 23: { if(n!=3) mc::skip(); for(int kk=0;kk<8;kk++){ Ref q=data(kk,3,3); SMat A(3,3,3),B(3,3,3); A.set(q); NEAR(det3x3_(A.buf),ref_det(q),1e-12,"det3x3");
        A.unchanged("3x3"); } break; }
    case 24: { if(n<1) mc::skip(); double nn=0; SVec pl(n+1); pl.set(vdata(k+1,n+1)); for(size_t i=0;i<n;i++) nn+=pl[i]*pl[i]; if(nn==0) mc::skip(); for(size_t i=0;i<n;i++) s+=X[i]*pl[i]; s=(s+pl[n])/sqrt(nn);
        NEAR(aa_la_point_plane(n,x.buf,pl.buf),s,1e-12,"point-plane distance"); V p=pl.get(); for(auto&v:p) v/=sqrt(nn); aa_la_plane_hessian(n+1,pl.buf); near(pl.get(),p,1e-13,"plane hessian"); break; }
    case 25: { for(size_t i1=1;i1<3;i1++)for(size_t i2=1;i2<3;i2++)for(size_t i3=1;i3<3;i3++) { SVec a(n,i1),b(n,i2),c(n,i3); a.set(X); b.set(Y); aa_la_d_lerp(n,al,a.buf,i1,b.buf,i2,c.buf,i3); V w(n); for(size_t i=0;i<n;i++) w[i]=X[i]+al*(Y[i]-X[i]); near(c.get(),w,1e-13,"lerp"); c.gaps("lerp"); a.unchanged("lerp"); b.unchanged("lerp");
            double ss=0; for(size_t i=0;i<n;i++) ss+=(X[i]-Y[i])*(X[i]-Y[i]); NEAR(aa_la_d_ssd(n,a.buf,i1,b.buf,i2),ss,1e-13,"strided ssd");
            TVec<float> fa(n,i1),fb(n,i2),fc(n,i3); fa.set(X); fb.set(Y); aa_la_s_lerp(n,(float)al,fa.buf,i1,fb.buf,i2,fc.buf,i3); near(fc.get(),w,1e-5,"float lerp"); fc.gaps("float lerp"); NEAR(aa_la_s_ssd(n,fa.buf,i1,fb.buf,i2),ss,1e-5,"float ssd");
            if(n) { size_t im=0,jm=0; for(size_t i=0;i<n;i++){ if(X[i]<X[im]) im=i; if(X[i]>X[jm]) jm=i; } CHECK(aa_la_d_minloc(n,a.buf,i1)==im && aa_la_d_maxloc(n,a.buf,i1)==jm,"minloc/maxloc"); CHECK(aa_la_s_minloc(n,fa.buf,i1)==im && aa_la_s_maxloc(n,fa.buf,i1)==jm,"float minloc/maxloc"); if(i1==1) CHECK(aa_fminloc(n,a.buf)==im&&aa_fmaxloc(n,a.buf)==jm,"fminloc/fmaxloc"); } } break; }
    case 26: { if(n<1) mc::skip(); for(size_t m=1;m<=3;m++)for(size_t p=0;p<2;p++){ SMat A(m,n,m+p); A.set(data(k,m,n)); Ref q=A.get(); size_t pi,pj; double v=aa_la_d_mat_max(m,n,A.buf,m+p,&pi,&pj); double w=-INFINITY; for(double z:q.a) w=std::max(w,z); CHECK(v==w&&pi<m&&pj<n&&q(pi,pj)==w,"mat_max");
        A.unchanged("mat_max"); } break; }
    }
    if(wr) { if(alias) near(x.get(),R,1e-14,"in-place result"); else { near(r.get(),R,1e-14,"result"); x.unchanged("x"); } y.unchanged("y"); }
    mc::nontrivial(mc::Hash()(op)(n)(k)(al)(alias));
}
int main(int argc,char **argv) { aa_la_set_err(on_err);
    return mc::run(argc,argv,"C05",{ {"vector",sp_vec},{"slice",sp_slice},{"block",sp_block},{"matrix",sp_mat},{"gemv",sp_gemv},{"gemm",sp_gemm},{"raw",sp_raw} });
}
