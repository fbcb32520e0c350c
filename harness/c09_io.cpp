// Text input/output: every short document against a reference parser, across all scratch sizes.
#include "lamodel.hpp"
#include <cstdio>
#include <unistd.h>
#include "amino.h"
extern "C" { char *io_getline(FILE*,struct aa_mem_region*) __asm__("aa_io_getline"); size_t io_d_parse(const char*,struct aa_mem_region*,double**,char**) __asm__("aa_io_d_parse"); char*io_skipblank(const char*) __asm__("aa_io_skipblank");
 size_t io_parsevector(const char*,size_t,double*,size_t,char**) __asm__("aa_io_parsevector"); size_t io_getvector(FILE*,struct aa_mem_region*,size_t,double*,size_t) __asm__("aa_io_getvector");
 size_t io_fix(FILE*,size_t,size_t,double*,size_t) __asm__("aa_io_fread_matrix_fix"); ssize_t io_heap(FILE*,size_t,double**,size_t*) __asm__("aa_io_fread_matrix_heap");
 ssize_t io_print(FILE*,size_t,const double*,size_t) __asm__("aa_io_d_print"); ssize_t io_gemp(FILE*,AA_CBLAS_ORDER,size_t,size_t,const double*,size_t) __asm__("aa_io_d_gemp"); }
using mc::choose; typedef std::vector<double> V; typedef std::string S;
static FILE *fs(const S &s0){ static char z[1]; static S keep[4]; static int kn; S &s=keep[kn++%4]; s=s0; FILE*f=fmemopen(s.empty()?z:(void*)s.data(),s.size(),"r"); if(!f) mc::fail("fmemopen"); return f; }
static S text(size_t n,char c){ S s; for(size_t i=0;i<n;i++) s+=(char)(c+(char)(i%23)); return s; }
/* a region with an older block that must survive */
struct Reg { struct aa_mem_region *r; char *old; size_t pre; Reg(size_t size,size_t p):pre(p){ r=aa_mem_region_create(size); old=(char*)aa_mem_region_alloc(r,p); memset(old,0x5a,p); }
    void ok(){ for(size_t i=0;i<pre;i++) CHECK(old[i]==0x5a,"older block of the region overwritten"); } ~Reg(){ if(r) aa_mem_region_destroy(r); } };
static void sp_line() {
    size_t size=16*(size_t)choose(mc::thorough()?9:6,"size"), pre=16*(size_t)choose(3,"pre"); size_t l1=(size_t)choose(mc::thorough()?140:100,"len1"); mc::split(); size_t l2=mc::pick({(size_t)0,(size_t)1,(size_t)15,(size_t)16,(size_t)31,(size_t)32,(size_t)33,(size_t)60},"len2"); int nl=choose(2,"final newline");
    S a=text(l1,'A'), b=text(l2,'a'), d=a+"\n"+b+(nl?"\n":""); FILE*f=fs(d); { Reg g(size,pre); mc::step(2);
        char *p=io_getline(f,g.r); CHECK(p&&a==p,"first line is '%s' instead of '%s'",p?p:"(null)",a.c_str());
        char *q=io_getline(f,g.r); CHECK(q&&b==q,"second line is '%s' instead of '%s'",q?q:"(null)",b.c_str()); CHECK(a==p,"first line damaged by reading the second"); g.ok();
        if(nl) { int c=fgetc(f); CHECK(c==EOF,"characters left in the stream"); }
        aa_mem_region_pop(g.r,p); memset(aa_mem_region_alloc(g.r,40),1,40); g.ok(); }
    fclose(f); mc::nontrivial(mc::Hash()(size)(pre)(l1)(l2));
}
struct Tok { const char *s; bool num; double v; };
static const Tok TK[]={{"1",1,1},{"-2.5",1,-2.5},{"3e2",1,300},{".125",1,.125},{"+7",1,7},{"#",0,0},{"x",0,0}};
/* reference: numbers up to a comment or something that is not a number */
static S doc(V &vals,int maxtok,size_t *endpos=0) { S s; bool live=true; size_t end=0; static const char*sep[]={" ","\t","  "}; if(choose(2,"lead")) s=" ";
    int n=choose(maxtok+1,"tokens"); for(int i=0;i<n;i++){ const Tok&t=mc::pick(TK,"token"); if(i) s+=sep[choose(i==1?3:1,"sep")]; if(t.num){ s+=t.s; if(live) vals.push_back(t.v); } else { s+=t.s; live=false; } if(live) end=s.size(); }
    (void)end; (void)endpos; return s; }
static void sp_parse() {
    size_t size=16*(size_t)choose(5,"size"), pre=16*(size_t)choose(3,"pre"); mc::split(); V want; S s=doc(want,mc::thorough()?6:5); mc::step();
    Reg g(size,pre); double *X=0; char*e=0; size_t n=io_d_parse(s.c_str(),g.r,&X,&e); CHECK(n==want.size(),"'%s' parsed as %zu numbers instead of %zu",s.c_str(),n,want.size());
    for(size_t i=0;i<n;i++) CHECK(X[i]==want[i],"'%s': number %zu is %g instead of %g",s.c_str(),i,X[i],want[i]);
    CHECK(e>=s.c_str()&&e<=s.c_str()+s.size(),"end pointer outside the line"); char *nx=(char*)aa_mem_region_alloc(g.r,32); memset(nx,7,32); for(size_t i=0;i<n;i++) CHECK(X[i]==want[i],"numbers overlap later allocations"); g.ok();
    mc::Hash h; h.str(s); mc::nontrivial(h(size)(pre));
}
static void sp_vec() {
    size_t n=(size_t)choose(5,"n"), inc=1+(size_t)choose(3,"inc"); int how=choose(2,"how"); mc::split(); V want; S s=doc(want,mc::thorough()?5:4); SVec x(n,inc); mc::step(); size_t k=std::min(n,want.size()); char *e=0; size_t r;
    if(how){ FILE*f=fs(s+"\nREST"); Reg g(32,16); r=io_getvector(f,g.r,n,x.buf,inc); g.ok(); CHECK(fgetc(f)=='R',"stream is not at the start of the next line"); fclose(f); } else r=io_parsevector(s.c_str(),n,x.buf,inc,&e);
    CHECK(r==k,"'%s': %zu items read instead of %zu",s.c_str(),r,k); for(size_t i=0;i<k;i++) CHECK(x[i]==want[i],"'%s': item %zu is %g instead of %g",s.c_str(),i,x[i],want[i]); x.gaps("vector");
    if(!how&&k==n&&n>0){ /* the end pointer resumes exactly after the n-th item */ SVec y(3); size_t r2=io_parsevector(e,3,y.buf,1,0); CHECK(r2==std::min((size_t)3,want.size()-n),"resumed parse read %zu items",r2); for(size_t i=0;i<r2;i++) CHECK(y[i]==want[n+i],"resumed item"); }
    mc::Hash h; h.str(s); mc::nontrivial(h(n)(inc)(how));
}
static void *lp(){ return aa_mem_region_ptr(aa_mem_region_local_get()); }
static S longline(){ S s; for(int i=0;i<90;i++) s+=" "; return s+"8\t9"; }
static void sp_heap() {
    int init=choose(6,"initial buffer"); int nl=choose(2,"final newline"); int maxl=mc::thorough()?6:5; int n0=choose(maxl+1,"lines"); int rs=choose(3,"scratch"); mc::split();
    static const char *L[]={"1 2","3\t4 # c","# c","","  "," -5 6.5 ","7", 0, " \t# 8 9"}; S d; V want; ssize_t err=0;
    aa_mem_region_local_destroy(); aa_mem_region_local_init(rs==0?16:rs==1?64:4096); void *p0=lp();
    for(int i=0;i<n0;i++){ int k=choose(9,"line"); S s= L[k]?S(L[k]):longline(); d+=s; if(i<n0-1||nl) d+="\n"; if(err) continue; if(k==6) err=-(i+1); else if(k==0){want.push_back(1);want.push_back(2);} else if(k==1){want.push_back(3);want.push_back(4);} else if(k==5){want.push_back(-5);want.push_back(6.5);} else if(k==7){want.push_back(8);want.push_back(9);} }
    FILE*f=fs(d); double *A=0; size_t el=0; size_t i0[]={0,0,1,2,3,8}; bool use=init>0; if(init>=2){ el=i0[init]; A=(double*)malloc(el*sizeof(double)); }
    mc::step(); ssize_t r=io_heap(f,2,&A,use?&el:0); fclose(f);
    if(err) CHECK(r==err,"error on line %zd reported as %zd",-err,r); else { CHECK(r==(ssize_t)want.size()/2,"%zd columns read instead of %zu",r,want.size()/2); for(size_t i=0;i<want.size();i++) CHECK(A[i]==want[i],"element %zu is %g instead of %g",i,A[i],want[i]); if(use) CHECK(el>=want.size(),"reported capacity %zu is below the data",el); }
    if(rs==2) CHECK(lp()==p0,"temporary data left in the local region"); free(A); mc::Hash h; h.str(d); mc::nontrivial(h(init)(rs));
}
static void sp_fix() {
    size_t m=1+(size_t)choose(3,"m"), n=1+(size_t)choose(3,"n"), pad=(size_t)choose(2,"pad"); int have=choose(5,"lines"); mc::split(); aa_mem_region_local_destroy(); aa_mem_region_local_init(4096); SMat A(m,n,m+pad); A.set(data(1,m,n)); S d; size_t cnt=0; Ref W(m,n,-1e9); static const char*tail[]={""," # c","\t"};
    for(int i=0;i<have;i++){ int k=choose((int)n+1,"items"); S s; for(int j=0;j<k;j++){ double v=i*10+j+.5; s+=(j?" ":"")+std::to_string(v); if((size_t)i<m){ W((size_t)i,(size_t)j)=v; cnt++; } } s+=tail[choose(3,"tail")]; d+=s+"\n"; }
    FILE*f=fs(d); void*p0=lp(); mc::step(); size_t r=io_fix(f,m,n,A.buf,A.ld); CHECK(r==cnt,"%zu items read instead of %zu",r,cnt); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(W(i,j)>-1e8) CHECK(A(i,j)==W(i,j),"element (%zu,%zu) is %g instead of %g",i,j,A(i,j),W(i,j)); A.gaps("matrix");
    size_t rest=0; while(fgetc(f)!=EOF) rest++; size_t exp=0; { size_t line=0; for(char c:d){ if(line>=m) exp++; if(c=='\n') line++; } } CHECK(rest==exp,"%zu characters left in the stream instead of %zu",rest,exp); fclose(f); CHECK(lp()==p0,"temporary data left in the local region"); mc::Hash h; h.str(d); mc::nontrivial(h(m)(n));
}
static void sp_round() {
    size_t m=1+(size_t)choose(4,"m"), n=1+(size_t)choose(4,"n"), pad=(size_t)choose(3,"pad"); int row=choose(2,"row major"), k=choose(4,"data"); mc::split(); Ref R=data(k,m,n); for(size_t i=0;i<R.a.size();i++) R.a[i]+= i%3==0?123456:i%3==1?-.0625:0; SMat A(m,n,m+pad); A.set(R);
    char *b=0; size_t sz=0; FILE*o=open_memstream(&b,&sz); mc::step(); io_gemp(o,row?CblasRowMajor:CblasColMajor,m,n,A.buf,A.ld); fclose(o); A.unchanged("matrix"); FILE*f=fs(S(b,sz)); double*X=0; size_t per=row?n:m, lines=row?m:n; ssize_t r=io_heap(f,per,&X,0); CHECK(r==(ssize_t)lines,"%zd lines read back instead of %zu",r,lines);
    for(size_t l=0;l<lines;l++)for(size_t i=0;i<per;i++) NEAR(X[l*per+i],row?R(l,i):R(i,l),1e-12,"value read back"); fclose(f); free(b); free(X);
    if(row){ FILE*f2; b=0; o=open_memstream(&b,&sz); io_gemp(o,CblasRowMajor,m,n,A.buf,A.ld); fclose(o); f2=fs(S(b,sz)); SMat B(m,n,m+1); io_fix(f2,m,n,B.buf,B.ld); near(B.get(),R,1e-12,"fixed matrix read back"); fclose(f2); free(b); }
    mc::nontrivial(mc::Hash()(m)(n)(pad)(row)(k));
}
static void sp_read() {
    size_t max=(size_t)choose(40,"max"); mc::split(); size_t off=(size_t)choose(40,"off"); if(off>max) mc::skip(); size_t n=mc::pick({(size_t)1,(size_t)5,(size_t)16,(size_t)17,(size_t)40},"bytes"); int p[2]; if(pipe(p)) mc::fail("pipe"); S d=text(n,'0'); if(write(p[1],d.data(),n)!=(ssize_t)n) mc::fail("write"); close(p[1]);
    void *b=malloc(max?max:1); memset(b,0x33,max); size_t o=off, m=max; S got; mc::step(); for(;;){ size_t m0=m; ssize_t r=aa_read_realloc(p[0],&b,o,&m); CHECK(r>=0,"read error"); CHECK(m>=m0&&(size_t)r+o<=m,"capacity %zu, %zu bytes used",m,(size_t)r+o); if(!r) break; o+=(size_t)r; }
    CHECK(o-off==n&&!memcmp((char*)b+off,d.data(),n),"data read through the growing buffer differs"); for(size_t i=0;i<off;i++) CHECK(((char*)b)[i]==0x33,"earlier bytes lost"); close(p[0]); free(b); mc::nontrivial(mc::Hash()(max)(off)(n));
}
int main(int c,char**v){ return mc::run(c,v,"C09",{{"line",sp_line},{"parse",sp_parse},{"vector",sp_vec},{"heap-matrix",sp_heap},{"fixed-matrix",sp_fix},{"round-trip",sp_round},{"read",sp_read}}); }
