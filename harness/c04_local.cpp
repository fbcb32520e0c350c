// Thread-local scratch region under every schedule.
// VARIANT: sched
// LIBS: nolib
// EXTRA: vsched.cpp?-std=c++17 @REPO@/src/mem.c?CLANG
#include "vsched.hpp"
#include "amino.h"
#include "amino/mem.h"
using mc::choose;

struct Live { char *p; size_t n; unsigned char tag; };
struct Th {
    std::vector<Live> st;         /* blocks in allocation order */
    aa_mem_region_t *reg=nullptr; /* region address while it must not move */
    size_t hint=0;
};
static std::vector<Th> TH;

static void verify(int t) {
    for( int u=0;u<(int)TH.size();u++ ) for( auto &b : TH[(size_t)u].st ) {
        CHECK( vs::is_live(b.p) || b.n==0, "block of thread %d was freed (seen by thread %d)", u, t );
        if( u==t ) for( size_t i=0;i<b.n;i++ ) CHECK( (unsigned char)b.p[i]==b.tag, "thread %d: block contents changed", t );
    }
    for( size_t u=0;u<TH.size();u++ ) for( auto &b : TH[u].st ) for( size_t w=0;w<TH.size();w++ ) for( auto &c : TH[w].st )
        if( &b!=&c && b.n && c.n ) CHECK( b.p+b.n<=c.p || c.p+c.n<=b.p, "blocks of threads %zu and %zu overlap", u, w );
    for( size_t u=0;u<TH.size();u++ ) for( size_t w=0;w<u;w++ )
        if( TH[u].reg && TH[w].reg ) CHECK( TH[u].reg!=TH[w].reg, "threads %zu and %zu share a scratch region", u, w );
}
static void touch_reg(int t) {
    aa_mem_region_t *r = aa_mem_region_local_get();
    Th &h=TH[(size_t)t];
    CHECK( r && vs::is_live(r), "thread %d: no live scratch region", t );
    if( h.reg ) CHECK( r==h.reg, "thread %d: scratch region changed without being asked to", t );
    h.reg=r;
}
static void add(int t, void *p, size_t n) {
    Th &h=TH[(size_t)t];
    CHECK( ((uintptr_t)p & 15)==0, "block not aligned");
    unsigned char tag=(unsigned char)(1+t*16+(int)h.st.size());
    memset(p,tag,n);
    h.st.push_back({(char*)p,n,tag});
}
enum { GET, ALLOC, BIG, TMP, POP, REL, INIT, DESTROY, NOP_ };
static void doop(int t, int op) {
    Th &h=TH[(size_t)t];
    switch(op) {
    case GET: touch_reg(t); break;
    case ALLOC: add(t,aa_mem_region_local_alloc(24),24); touch_reg(t); break;
    case BIG: add(t,aa_mem_region_local_alloc(300),300); touch_reg(t); break;
    case TMP: { char *p=(char*)aa_mem_region_local_tmpalloc(40); memset(p,0x77,40); vs::point("use temporary"); for(int i=0;i<40;i++) CHECK(p[i]==0x77,"temporary block changed"); break; }
    case POP: if( h.st.empty() ) { touch_reg(t); break; } { Live b=h.st.back(); h.st.pop_back(); aa_mem_region_local_pop(b.p); } break;
    case REL: h.st.clear(); aa_mem_region_local_release(); break;
    case INIT: h.st.clear(); h.reg=nullptr; aa_mem_region_local_init(64); touch_reg(t);
        CHECK( aa_mem_region_freesize(h.reg) >= 64, "initial size not honoured"); break;
    case DESTROY: h.st.clear(); h.reg=nullptr; aa_mem_region_local_destroy();
        CHECK( vs::live_blocks_of(t)==0, "destroy left %zu blocks of thread %d", vs::live_blocks_of(t), t); break;
    }
    verify(t);
}
static void prog(int nt, int len, int pb, vs::Gran g, const std::vector<int> &alpha) {
    int ops[3][4];
    for( int t=0;t<nt;t++ ) for( int i=0;i<len;i++ ) ops[t][i]=alpha[(size_t)choose((int)alpha.size(),"op")];
    for( int t=1;t<nt;t++ ) if( std::lexicographical_compare(ops[t],ops[t]+len,ops[t-1],ops[t-1]+len) ) mc::skip();
    mc::split();
    vs::begin(pb,g);
    TH.assign((size_t)nt,Th());
    for( int t=0;t<nt;t++ ) vs::spawn([=]{
        for( int i=0;i<len;i++ ) doop(t,ops[t][i]);
        TH[(size_t)t].st.clear(); TH[(size_t)t].reg=nullptr;   /* thread ends: its memory is returned */
    });
    vs::run();
    CHECK( vs::live_blocks()==0, "%zu blocks not returned after all threads ended", vs::live_blocks());
    mc::nontrivial(mc::Hash().bytes(ops[0],sizeof(int)*(size_t)len).bytes(ops[1],sizeof(int)*(size_t)len)(vs::preemptions())((int)g));
    vs::end();
}
static const std::vector<int> all={GET,ALLOC,BIG,TMP,POP,REL,INIT,DESTROY};
static void sp_first()  { int nt=2+choose(2,"threads"); prog(nt,1, nt==2?(mc::thorough()?100:5):(mc::thorough()?3:2), vs::SYNC, all); }
static void sp_acc()    { prog(2,2, mc::thorough()?2:1, vs::ACCESS, all); }
static void sp_sync()   { prog(2,2, mc::thorough()?5:3, vs::SYNC, all); }
static void sp_deep()   { prog(2,3, mc::thorough()?2:1, vs::SYNC, all); }
static void sp_three()  { prog(3,2, mc::thorough()?2:1, vs::SYNC, {ALLOC,POP,INIT,DESTROY}); }
static void sp_acc1()   { prog(2,1, mc::thorough()?4:2, vs::ACCESS, all); }
/* sequential: every op sequence of one thread, threads one after the other */
static void sp_seq() {
    int len = mc::thorough()?7:5;
    vs::begin(0,vs::SYNC);
    TH.assign(2,Th());
    std::vector<int> o1; for( int i=0;i<len;i++ ) { o1.push_back(all[(size_t)choose((int)all.size(),"op")]); if( i==1 ) mc::split(); }
    int o2=all[(size_t)choose((int)all.size(),"second")];
    vs::spawn([=]{ for( int o : o1 ) doop(0,o); TH[0].st.clear(); TH[0].reg=nullptr; });
    vs::run();
    CHECK( vs::live_blocks()==0, "%zu blocks not returned after the thread ended", vs::live_blocks());
    vs::spawn([=]{ doop(1,o2); doop(1,ALLOC); TH[1].st.clear(); TH[1].reg=nullptr; });
    vs::run();
    CHECK( vs::live_blocks()==0, "%zu blocks not returned after the second thread ended", vs::live_blocks());
    vs::end();
}
int main(int argc,char **argv) {
    return mc::run(argc,argv,"C04",{ {"first-use",sp_first},{"access-1",sp_acc1},{"access-2",sp_acc},{"sync-2",sp_sync},{"sync-3",sp_deep},{"three-threads",sp_three},{"sequential",sp_seq} });
}
