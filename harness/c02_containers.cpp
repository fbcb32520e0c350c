/* C02: pools, region lists, bit sets, heap sort, memory swap, vectors: all operation
 * sequences / all small inputs against std:: reference containers. */
#include "mc.hpp"
#include "amino.h"
#include "amino/mem.h"
typedef int (*cmpfun)(const void *, const void *);
/* heap.h lacks C linkage for C++ callers: bind the symbols by name */
void heap_heapify(uint8_t*,size_t,size_t,size_t,cmpfun) asm("aa_aheap_heapify");
void heap_sort(void*,size_t,size_t,cmpfun) asm("aa_aheap_sort");
void heap_build(uint8_t*,size_t,size_t,cmpfun) asm("aa_aheap_build");
#include <deque>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using namespace mc;
namespace {
AA_VECTOR_DEF(int, ivec)

void pool_body() {
    static const size_t sizes[] = {1,8,16,24,40};
    static const size_t counts[] = {0,1,2,3};
    size_t sz = pick(sizes,"size"), cnt = pick(counts,"count");
    int D = thorough() ? 11 : 9;
    size_t before = __sanitizer_get_current_allocated_bytes();
    aa_mem_pool_t pool; aa_mem_pool_init(&pool,sz,cnt);
    {
    struct O { uint8_t *p; uint8_t pat; }; std::vector<O> live; live.reserve(16); uint8_t k=1;
    std::vector<int> tr;
    for( int d=0; d<D; d++ ) {
        int op = choose(2+(int)live.size(),"op");
        if( d==2 ) split();
        if( op==0 ) {
            uint8_t *p = (uint8_t*)aa_mem_pool_alloc(&pool);
            CHECK(p && (uintptr_t)p%16==0,"pool object unaligned");
            for( auto &o : live ) CHECK(p+sz<=o.p||o.p+sz<=p,"pool object overlaps a live one");
            k = (uint8_t)(k*3+1); memset(p,k,sz); live.push_back({p,k});
        } else if( op==1 ) { aa_mem_pool_release(&pool); live.clear(); }
        else { size_t i=(size_t)op-2; aa_mem_pool_free(&pool,live[i].p); live.erase(live.begin()+(long)i); }
        for( auto &o : live ) for( size_t i=0;i<sz;i++ ) CHECK(o.p[i]==o.pat,"live pool object overwritten");
        step(); tr.push_back(op); state(Hash()(sz)(cnt)(live.size())(pool.top!=NULL)(aa_mem_region_freesize(&pool.region)));
    }
    }
    aa_mem_pool_destroy(&pool);
    CHECK(before==__sanitizer_get_current_allocated_bytes(),"pool leaks");
}

struct MapCx { std::vector<int> v; };
void mapfun(void *cx, void *e) { ((MapCx*)cx)->v.push_back(*(int*)e); }

void rlist_body() {
    int D = thorough() ? 11 : 9;
    aa_mem_region_t reg; aa_mem_region_init(&reg,64);
    {
    static int store[32];
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(&reg);
    std::deque<int> m; int k = 0;
    for( int d=0; d<D; d++ ) {
        int op = choose(5,"op"); if( d==2 ) split();
        k++; store[k]=k*11;
        switch(op) {
        case 0: { int x=store[k]; aa_mem_rlist_push_cpy(l,&x,sizeof(x)); x=-1; m.push_front(store[k]); break; }
        case 1: aa_mem_rlist_push_ptr(l,&store[k]); m.push_front(store[k]); break;
        case 2: { int x=store[k]; aa_mem_rlist_enqueue_cpy(l,&x,sizeof(x)); x=-1; m.push_back(store[k]); break; }
        case 3: aa_mem_rlist_enqueue_ptr(l,&store[k]); m.push_back(store[k]); break;
        case 4: { int *p=(int*)aa_mem_rlist_pop(l);
            if( m.empty() ) CHECK(!p,"pop of an empty list returned something");
            else { CHECK(p,"pop of a non-empty list returned NULL"); CHECK(*p==m.front(),"pop: got %d expected %d",*p,m.front()); m.pop_front(); } break; }
        }
        MapCx cx; aa_mem_rlist_map(l,mapfun,&cx);
        CHECK(cx.v.size()==m.size(),"list has %zu elements, expected %zu",cx.v.size(),m.size());
        for( size_t i=0;i<m.size();i++ ) CHECK(cx.v[i]==m[i],"list element %zu is %d expected %d",i,cx.v[i],m[i]);
        step(); Hash h; for(int x:m) h(x); state(h);
    }
    /* drain */
    while( !m.empty() ) { int *p=(int*)aa_mem_rlist_pop(l); CHECK(p&&*p==m.front(),"drain order"); m.pop_front(); }
    CHECK(!aa_mem_rlist_pop(l),"list not empty after draining");
    }
    aa_mem_region_destroy(&reg);
}

void bits_seq_body() {
    static const size_t ns[] = {1,5,31,32,33,64,65,96};
    size_t n = pick(ns,"nbits");
    CHECK(aa_bits_words(n)==(n+31)/32 || sizeof(aa_bits)!=4,"aa_bits_words(%zu)",n);
    CHECK(aa_bits_size(n)*8>=n && aa_bits_size(n)*8<n+8*sizeof(aa_bits),"aa_bits_size(%zu)",n);
    size_t words = aa_bits_words(n);
    std::vector<aa_bits> guard(words+2,(aa_bits)0x5a5a5a5a); aa_bits *b=&guard[1];
    int init = choose(2,"init"); split();
    memset(b,init?0xff:0,aa_bits_size(n));
    std::vector<int> m(n,init);
    size_t idx[] = {0,std::min(n-1,(size_t)1),n/2,n-1,std::min(n-1,(size_t)31),std::min(n-1,(size_t)32)};
    int D = thorough()?5:3;
    for( int d=0; d<D; d++ ) {
        size_t i = idx[choose(6,"i")]; int v = choose(3,"v");
        aa_bits_set(b,i,v==2?-8:v); m[i]=v?1:0; step();
        for( size_t j=0;j<n;j++ ) { CHECK(aa_bits_get(b,j)==m[j],"bit %zu",j); CHECK(aa_bits_getn(b,aa_bits_size(n),j)==m[j],"getn bit %zu",j); }
        for( size_t j=words*32;j<words*32+70;j++ ) CHECK(aa_bits_getn(b,aa_bits_size(n),j)==0,"bit beyond the set not zero");
        CHECK(guard[0]==(aa_bits)0x5a5a5a5a && guard[words+1]==(aa_bits)0x5a5a5a5a,"bits written outside the set");
        Hash h; h(n); for( int x:m ) h((char)x); state(h);
    }
}
void bits_op_body() {
    static const size_t ns[] = {0,1,31,32,33,64,65};
    size_t n = pick(ns,"nbits"); int op=choose(3,"op");
    size_t words=aa_bits_words(n);
    std::vector<aa_bits> A(words+2,0x13579bdf), B(words+2,0x2468ace0);
    static const aa_bits pats[] = {0,-1,0x5555aaaa,(aa_bits)0x80000001};
    for( size_t w=0;w<words;w++ ) { A[w+1]=pick(pats,"a"); B[w+1]=pick(pats,"b"); if(w==0) split(); }
    if( words==0 ) split();
    auto A0=A, B0=B;
    if( op==0 ) aa_bits_and(&A[1],&B[1],n); else if( op==1 ) aa_bits_or(&A[1],&B[1],n); else aa_bits_xor(&A[1],&B[1],n);
    step();
    for( size_t i=0;i<n;i++ ) { int a=aa_bits_get(&A0[1],i),b=aa_bits_get(&B0[1],i),e= op==0?(a&b):op==1?(a|b):(a^b);
        CHECK(aa_bits_get(&A[1],i)==e,"bitwise op %d: bit %zu of %zu wrong",op,i,n); }
    CHECK(A[0]==A0[0] && A[words+1]==A0[words+1],"bitwise op wrote outside the set");
    CHECK(B==B0,"bitwise op changed its second operand");
    Hash h; h(n)(op); h.bytes(A.data(),A.size()*4); state(h);
}

struct Rec { int key; int id; };
int cmp_rec(const void *a, const void *b) { int x=((Rec*)a)->key,y=((Rec*)b)->key; return (x>y)-(x<y); }
int cmp_rec_rev(const void *a, const void *b) { return -cmp_rec(a,b); }
template<size_t S> struct RecS { uint8_t key; uint8_t pay[S-1]; };
template<size_t S> int cmpS(const void *a,const void *b) { return (int)((RecS<S>*)a)->key - (int)((RecS<S>*)b)->key; }

template<size_t S> void sort_sz(const std::vector<int> &k) {
    size_t n=k.size(); std::vector<RecS<S>> v(n);
    for( size_t i=0;i<n;i++ ) { v[i].key=(uint8_t)k[i]; memset(v[i].pay,(int)(i*17+k[i]),S-1); }
    auto o=v; heap_sort(v.data(),n,S,cmpS<S>); step();
    std::vector<std::string> x,y;
    for( size_t i=0;i<n;i++ ) { x.push_back(std::string((char*)&v[i],S)); y.push_back(std::string((char*)&o[i],S)); if(i) CHECK(v[i-1].key<=v[i].key,"heap sort (element size %zu): not sorted at %zu",S,i); }
    std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); CHECK(x==y,"heap sort (element size %zu): not a permutation",S);
}
void sort_body() {
    int n = choose(thorough()?8:7,"n"); std::vector<int> k((size_t)n);
    for( int i=0;i<n;i++ ) { k[(size_t)i]=choose(thorough()?5:4,"k"); if( i==1 ) split(); }
    if( n<2 ) split();
    for( int rev=0; rev<2; rev++ ) {
        cmpfun cf = rev?cmp_rec_rev:cmp_rec;
        std::vector<Rec> v((size_t)n+2,Rec{-99,-99}); for(int i=0;i<n;i++) v[(size_t)i+1]={k[(size_t)i],i};
        auto o=v; heap_sort(&v[1],(size_t)n,sizeof(Rec),cf); step();
        CHECK(v[0].key==-99&&v[(size_t)n+1].key==-99,"sort wrote outside the array");
        std::vector<int> seen((size_t)n,0);
        for(int i=1;i<=n;i++) { int id=v[(size_t)i].id; CHECK(id>=0&&id<n&&!seen[(size_t)id]++,"sort: not a permutation"); CHECK(v[(size_t)i].key==k[(size_t)id],"sort: record torn apart");
            if(i>1) CHECK(cf(&v[(size_t)i-1],&v[(size_t)i])<=0,"sort: out of order at %d",i); }
        /* heap construction: parents dominate */
        v=o; if( n ) { heap_build((uint8_t*)&v[1],(size_t)n,sizeof(Rec),cf); step();
            std::fill(seen.begin(),seen.end(),0);
            for(int i=0;i<n;i++) { int id=v[(size_t)i+1].id; CHECK(id>=0&&id<n&&!seen[(size_t)id]++,"build: not a permutation");
                for(int c=2*i+1;c<=2*i+2&&c<n;c++) CHECK(cf(&v[(size_t)i+1],&v[(size_t)c+1])>=0,"build: not a heap at %d",i); }
            /* replace the root and restore */
            if( n>1 ) { v[1].key = 2; v[1].id = 100; heap_heapify((uint8_t*)&v[1],(size_t)n,sizeof(Rec),0,cf); step();
                for(int i=0;i<n;i++) for(int c=2*i+1;c<=2*i+2&&c<n;c++) CHECK(cf(&v[(size_t)i+1],&v[(size_t)c+1])>=0,"heapify: not a heap at %d",i); }
        }
    }
    sort_sz<2>(k); sort_sz<3>(k); sort_sz<7>(k); sort_sz<8>(k); sort_sz<9>(k); sort_sz<17>(k); sort_sz<24>(k);
    Hash h; for(int x:k) h(x); state(h);
}
void swap_body() {
    size_t n=(size_t)choose(40,"n"), oa=(size_t)choose(2,"oa")*8; split();
    std::vector<uint8_t> a(n+32),b(n+32); for(size_t i=0;i<n+32;i++){a[i]=(uint8_t)(i+1);b[i]=(uint8_t)(200-i);}
    auto a0=a,b0=b; aa_memswap(&a[oa],&b[8],n); step();
    for(size_t i=0;i<n+32;i++) {
        bool ia=i>=oa&&i<oa+n, ib=i>=8&&i<8+n;
        CHECK(a[i]==(ia?b0[i-oa+8]:a0[i]),"memswap(%zu): a[%zu]",n,i);
        CHECK(b[i]==(ib?a0[i-8+oa]:b0[i]),"memswap(%zu): b[%zu]",n,i);
    }
    state(Hash()(n)(oa));
}
void vector_body() {
    size_t max=(size_t)choose(4,"max"); int n=choose(20,"n"); split();
    ivec v; ivec_init(&v,max);
    for(int i=0;i<n;i++) { ivec_push(&v,i*3+1); step(); CHECK(v.size==(size_t)i+1 && v.max>=v.size,"vector size"); for(int j=0;j<=i;j++) CHECK(v.data[j]==j*3+1,"vector element %d lost",j); }
    state(Hash()(max)(n)); free(v.data);
}
}
int main(int c,char**v){ return run(c,v,"C02",{{"pool",pool_body},{"rlist",rlist_body},{"bits",bits_seq_body},{"bitops",bits_op_body},{"sort",sort_body},{"swap",swap_body},{"vector",vector_body}}); }
