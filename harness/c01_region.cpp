/* C01: region allocator, all operation histories up to a depth, against a
 * stack-of-blocks model. */
#include "mc.hpp"
#include "amino.h"
#include "amino/mem.h"
#include "amino/mem.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __asan_address_is_poisoned(void const volatile *addr);
using namespace mc;

namespace {
struct Ent { bool mark; uint8_t *p; size_t n; uint8_t pat; };

struct Model {
    std::vector<Ent> st; uint8_t next = 1;
    uint8_t pat() { next = (uint8_t)(next*5+3); return next; }
    static uint8_t byte(uint8_t pat, size_t i) { return (uint8_t)(pat + 31*i); }
    void fill(uint8_t *p, size_t n, uint8_t pt) { for(size_t i=0;i<n;i++) p[i]=byte(pt,i); }
    void push(void *v, size_t n, bool filled, uint8_t pt, const char *what) {
        uint8_t *p = (uint8_t*)v;
        CHECK(p, "%s returned NULL", what);
        CHECK(((uintptr_t)p % 16) == 0, "%s returned unaligned pointer", what);
        for( auto &e : st ) if( !e.mark && e.n && n )
            CHECK(p + n <= e.p || e.p + e.n <= p, "%s: new block of %zu overlaps a live block of %zu", what, n, e.n);
        if( !filled ) fill(p,n,pt);
        st.push_back({false,p,n,pt});
    }
    void verify(const char *when) {
        for( size_t k = 0; k < st.size(); k ++ ) { auto &e = st[k]; if( e.mark ) continue;
            if( e.n && (__asan_address_is_poisoned(e.p) || __asan_address_is_poisoned(e.p+e.n-1)) )
                fail("after %s: live block #%zu (%zu bytes) is no longer allocated", when, k, e.n);
            for( size_t i=0;i<e.n;i++ ) if( e.p[i]!=byte(e.pat,i) )
                fail("after %s: live block #%zu (%zu bytes) lost its contents at byte %zu", when, k, e.n, i);
        }
    }
    void pop(size_t i) {
        uint8_t *p = st[i].p;
        st.resize(i);
        /* other handles to the very same address are deallocated with it */
        while( !st.empty() && st.back().p == p && (st.back().mark || st.back().n == 0) ) st.pop_back();
    }
};

static void hist(aa_mem_region_t *reg, Model &m) {
    Hash h; h(aa_mem_region_chunk_count(reg))(aa_mem_region_freesize(reg));
    for( auto &e : m.st ) h(e.mark)(e.n);
    state(h);
}

/* sizes relative to what is free: exact fit and one more hit the chunk limit */
static size_t pick_size(aa_mem_region_t *reg, const char *l) {
    switch( choose(7,l) ) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 16;
    case 3: return 41;
    case 4: return aa_mem_region_freesize(reg);
    case 5: return aa_mem_region_freesize(reg)+1;
    default: return 4*aa_mem_region_freesize(reg)+7;
    }
}

void region_body() {
    static const size_t inits[] = {0,1,10,16,40,64};
    size_t n0 = inits[choose(6,"init")];
    int how = choose(2,"create");
    int D = thorough() ? 4 : 3;
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
    aa_mem_region_t local, *reg = &local;
    if( how ) reg = aa_mem_region_create(n0); else aa_mem_region_init(&local,n0);
    Model m;
    m.st.reserve(16);
    CHECK(aa_mem_region_freesize(reg) >= n0, "fresh region has less free space than requested");
    for( int d = 0; d < D; d ++ ) {
        int nops = 9 + (int)m.st.size();
        int op = choose(nops,"op");
        if( d == 1 ) split();
        size_t cc = aa_mem_region_chunk_count(reg), fs = aa_mem_region_freesize(reg);
        void *hd = aa_mem_region_ptr(reg);
        const char *w = "?";
        size_t n = 0; uint8_t pt = m.pat(); bool fit = false; void *r = NULL;
        switch( op ) {
        case 0: w="alloc"; n = pick_size(reg,"size"); r = aa_mem_region_alloc(reg,n); m.push(r,n,false,pt,w); fit = n<=fs; break;
        case 1: { w="zalloc"; n = pick_size(reg,"size"); r = aa_mem_region_zalloc(reg,n);
            for(size_t i=0;i<n;i++) CHECK(((uint8_t*)r)[i]==0,"zalloc: byte %zu not zero",i);
            m.push(r,n,false,pt,w); fit = n<=fs; break; }
        case 2: { w="dup"; n = pick_size(reg,"size"); std::vector<uint8_t> src(n+1); m.fill(src.data(),n,pt);
            r = aa_mem_region_dup(reg,src.data(),n); m.push(r,n,true,pt,w); fit = n<=fs; break; }
        case 3: { w="strdup"; size_t L = pick_size(reg,"size"); std::string s(L,'x'); for(size_t i=0;i<L;i++) s[i]=(char)('A'+(i*7+pt)%50);
            char *c = aa_mem_region_strdup(reg,s.c_str()); CHECK(0==strcmp(c,s.c_str()),"strdup: wrong string");
            m.push(c,L+1,false,pt,w); r = c; fit = L+1<=fs; break; }
        case 4: { w="printf"; size_t L = pick_size(reg,"size"); std::string s(L,'x'); for(size_t i=0;i<L;i++) s[i]=(char)('A'+(i*7+pt)%50);
            char *c = aa_mem_region_printf(reg,"%s|%d",s.c_str(),(int)pt); char exp[16]; snprintf(exp,16,"|%d",(int)pt);
            CHECK(s+exp == std::string(c),"printf: wrong string of length %zu", strlen(c));
            n = strlen(c)+1; m.push(c,n,false,pt,w); r = c; fit = n<=fs; break; }
        case 5: { /* tmpalloc then use, then grow it with tmprealloc, then commit */
            w="tmpalloc"; n = pick_size(reg,"size"); uint8_t *t = (uint8_t*)aa_mem_region_tmpalloc(reg,n);
            for( auto &e : m.st ) if( !e.mark && e.n && n ) CHECK(t+n<=e.p||e.p+e.n<=t,"tmpalloc overlaps a live block");
            if( n<=fs ) CHECK(t==hd,"tmpalloc that fits did not return the head");
            m.fill(t,n,pt);
            int q = choose(3,"tmp-then");
            if( q == 1 ) { /* the next call returns the same pointer if there is room */
                CHECK(aa_mem_region_freesize(reg)>=n, "tmpalloc'ed space vanished");
                uint8_t *t2 = (uint8_t*)aa_mem_region_alloc(reg,n); CHECK(t2==t,"alloc after tmpalloc of the same size moved");
                m.push(t2,n,true,pt,"tmpalloc+alloc");
            } else if( q == 2 ) {
                size_t big = pick_size(reg,"resize");
                uint8_t *t2 = (uint8_t*)aa_mem_region_tmprealloc(reg,big);
                size_t keep = std::min(n,big);
                CHECK(((uintptr_t)t2%16)==0,"tmprealloc unaligned");
                for(size_t i=0;i<keep;i++) CHECK(t2[i]==Model::byte(pt,i),"tmprealloc(%zu->%zu) lost byte %zu",n,big,i);
                m.fill(t2,big,pt);
                uint8_t *t3 = (uint8_t*)aa_mem_region_alloc(reg,big); CHECK(t3==t2,"alloc after tmprealloc of the same size moved");
                m.push(t3,big,true,pt,"tmprealloc+alloc");
            }
            break; }
        case 6: w="mark"; m.st.push_back({true,(uint8_t*)hd,0,0}); break;
        case 7: { w="release"; aa_mem_region_release(reg); m.st.clear();
            CHECK(aa_mem_region_chunk_count(reg)==1,"release left %zu chunks",aa_mem_region_chunk_count(reg)); break; }
        case 8: { w="scope"; /* C++ scope guard and placement new */
            n = pick_size(reg,"size");
            { amino::RegionScope sc(reg); uint8_t *q = (uint8_t*)aa_mem_region_alloc(sc,n);
              for( auto &e : m.st ) if( !e.mark && e.n && n ) CHECK(q+n<=e.p||e.p+e.n<=q,"scoped alloc overlaps a live block");
              m.fill(q,n,pt); m.verify("scoped alloc"); }
            /* handles equal to the scope's own mark die with it */
            while( !m.st.empty() && m.st.back().p == hd && (m.st.back().mark || m.st.back().n == 0) ) m.st.pop_back();
            break; }
        default: { w="pop"; size_t i = (size_t)(op-9); void *p = m.st[i].p; aa_mem_region_pop(reg,p); m.pop(i); break; }
        }
        note("%s n=%zu chunks=%zu free=%zu live=%zu",w,n,aa_mem_region_chunk_count(reg),aa_mem_region_freesize(reg),m.st.size());
        if( op <= 4 && fit ) {
            CHECK(aa_mem_region_chunk_count(reg)==cc,"%s of %zu bytes with %zu free created a chunk",w,n,fs);
            CHECK(r==hd,"%s that fits did not return the head pointer",w);
        }
        step(); m.verify(w); hist(reg,m);
        CHECK(((uintptr_t)aa_mem_region_ptr(reg)%16)==0,"head unaligned after %s",w);
    }
    /* the region is still usable afterwards */
    size_t f = aa_mem_region_freesize(reg);
    uint8_t *q = (uint8_t*)aa_mem_region_alloc(reg,f+33); m.push(q,f+33,false,9,"final alloc"); m.verify("final alloc");
    aa_mem_region_destroy(reg);
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    CHECK(after==before,"destroying the region leaves %zd bytes allocated",(ssize_t)(after-before));
}

/* deeper histories over a reduced alphabet */
void deep_body() {
    static const size_t inits[] = {0,24,64};
    size_t n0 = inits[choose(3,"init")];
    int D = thorough() ? 7 : 5;
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
    aa_mem_region_t local, *reg = &local; aa_mem_region_init(&local,n0);
    Model m; m.st.reserve(16);
    for( int d = 0; d < D; d ++ ) {
        int op = choose(8 + (int)m.st.size(),"op");
        if( d == 2 ) split();
        size_t fs = aa_mem_region_freesize(reg); uint8_t pt = m.pat(); const char *w = "alloc";
        size_t sz[] = {1,16,fs,fs+1};
        if( op < 4 ) { m.push(aa_mem_region_alloc(reg,sz[op]),sz[op],false,pt,w); }
        else if( op == 4 ) { w="mark"; m.st.push_back({true,(uint8_t*)aa_mem_region_ptr(reg),0,0}); }
        else if( op == 5 ) { w="release"; aa_mem_region_release(reg); m.st.clear(); }
        else if( op == 6 ) { w="tmprealloc"; size_t k = fs/2+1; uint8_t *t = (uint8_t*)aa_mem_region_tmpalloc(reg,k); m.fill(t,k,pt);
            size_t b = aa_mem_region_freesize(reg)+1; uint8_t *t2 = (uint8_t*)aa_mem_region_tmprealloc(reg,b);
            for(size_t i=0;i<k;i++) CHECK(t2[i]==Model::byte(pt,i),"tmprealloc lost byte %zu of %zu",i,k); }
        else if( op == 7 ) { w="printf"; std::string s(fs,'y'); char *c = aa_mem_region_printf(reg,"%s",s.c_str()); CHECK(s==c,"printf: wrong string");
            m.push(c,fs+1,false,pt,w); }
        else { w="pop"; size_t i=(size_t)(op-8); aa_mem_region_pop(reg,m.st[i].p); m.pop(i); }
        note("%s chunks=%zu free=%zu live=%zu",w,aa_mem_region_chunk_count(reg),aa_mem_region_freesize(reg),m.st.size());
        step(); m.verify(w); hist(reg,m);
    }
    aa_mem_region_destroy(reg);
    }
    CHECK(__sanitizer_get_current_allocated_bytes()==before,"leak after destroy");
}

/* long stack-disciplined histories: nested scopes, LIFO pops only */
void lifo_body() {
    static const size_t inits[] = {1,32,100};
    static const size_t sizes[] = {8,48,200};
    size_t n0 = inits[choose(3,"init")];
    int D = thorough() ? 14 : 10;
    size_t before = __sanitizer_get_current_allocated_bytes();
    aa_mem_region_t *reg = aa_mem_region_create(n0);
    {
    Model m; m.st.reserve(32);
    for( int d = 0; d < D; d ++ ) {
        int op = choose( m.st.empty() ? 3 : 4, "op");
        if( d == 4 ) split();
        if( op < 3 ) { uint8_t pt = m.pat(); size_t n = sizes[op]; m.push(aa_mem_region_alloc(reg,n),n,false,pt,"alloc"); }
        else { size_t i = m.st.size()-1; aa_mem_region_pop(reg,m.st[i].p); m.pop(i); }
        step(); m.verify(op<3?"alloc":"pop"); hist(reg,m);
    }
    }
    aa_mem_region_destroy(reg);
    CHECK(__sanitizer_get_current_allocated_bytes()==before,"leak after destroy");
}

/* nested scopes whose marks coincide */
void nested_body() {
    static const size_t sizes[] = {16,64,300};
    size_t a = pick(sizes,"A"), b = pick(sizes,"B"), c = pick(sizes,"C"), in = pick(sizes,"inner"), x = pick(sizes,"X");
    int popb = choose(2,"pop B first"); split();
    int lvl = choose(2,"levels");
    aa_mem_region_t *reg = aa_mem_region_create(16);
    Model m; m.st.reserve(16);
    m.push(aa_mem_region_alloc(reg,a),a,false,m.pat(),"A");
    if( popb ) { void *pb = aa_mem_region_alloc(reg,b); aa_mem_region_alloc(reg,c); aa_mem_region_pop(reg,pb); }
    void *m1 = aa_mem_region_ptr(reg);
    for( int k = 0; k <= lvl; k ++ ) { void *m2 = aa_mem_region_ptr(reg); aa_mem_region_alloc(reg,in*(size_t)(1+4*k)); aa_mem_region_pop(reg,m2); step(); }
    bool moved = aa_mem_region_ptr(reg) != m1;
    aa_mem_region_alloc(reg,x);
    m.verify("inner scopes");
    aa_mem_region_pop(reg,m1); step();
    auto &e = m.st[0];
    if( __asan_address_is_poisoned(e.p) || __asan_address_is_poisoned(e.p+e.n-1) ) {
        if( !(moved && popb) || !known("nested-equal-mark","A=%zu B=%zu C=%zu inner=%zu X=%zu: popping an outer mark after an inner scope with the same mark grew the region frees older live blocks",a,b,c,in,x) )
            fail("outer mark popped after an inner scope grew the region: older live block freed");
    } else m.verify("outer pop");
    hist(reg,m);
    aa_mem_region_destroy(reg);
}

/* flexible buffers */
void flexbuf_body() {
    size_t n = (size_t)choose(40,"n"); split();
    aa_flexbuf_t *f = aa_flexbuf_alloc(n);
    CHECK(f && f->n==n,"flexbuf size");
    for(size_t i=0;i<n;i++) CHECK(f->d[i]==0,"flexbuf not zeroed at %zu",i);
    for(size_t i=0;i<n;i++) f->d[i]=(uint8_t)(i+1);
    for(size_t i=0;i<n;i++) CHECK(f->d[i]==(uint8_t)(i+1),"flexbuf contents");
    CHECK(f->n==n,"flexbuf size clobbered"); step(); state(Hash()(n));
    aa_flexbuf_free(f); aa_flexbuf_free(NULL);
}
}
int main(int c, char **v) {
    return run(c,v,"C01",{ {"region",region_body}, {"deep",deep_body}, {"lifo",lifo_body}, {"nested",nested_body}, {"flexbuf",flexbuf_body} });
}
