// NOBUILD
#include "vsched.hpp"
#include <ucontext.h>
#include <malloc.h>
#include <pthread.h>
#include <unordered_map>
#include <map>
#include <memory>
#include <exception>
#include <sys/mman.h>

extern "C" char __start_vsbss[] __attribute__((weak)), __stop_vsbss[] __attribute__((weak)),
                __start_vsdata[] __attribute__((weak)), __stop_vsdata[] __attribute__((weak));

namespace vs {
enum { MAXT = 8, STK = 128*1024 };
typedef std::array<uint32_t,MAXT> VC;
static void join(VC &a, const VC &b) { for(int i=0;i<MAXT;i++) if( b[(size_t)i] > a[(size_t)i] ) a[(size_t)i]=b[(size_t)i]; }

struct Thread {
    ucontext_t ctx; char *stk = nullptr;
    std::function<void()> f;
    bool done=false, started=false;
    const void *blocked=nullptr; const char *why="";
    bool detached=false, low=false;
    VC vc{};
    std::map<unsigned,void*> tls;
    uint64_t events=0; const char *last="";
    void *ret=nullptr;
};
static std::vector<std::unique_ptr<Thread>> T;
static int cur = -1;
static ucontext_t main_ctx;
static int bound = 2, used = 0;
static Gran gran = SYNC;
static std::exception_ptr ex;
static bool running = false;
static bool spurious = false;
static char *stacks = nullptr;

struct Mutex { int owner=-1; VC vc{}; bool destroyed=false; bool recursive=false; int count=0; };
struct Cond { std::vector<int> waiters; };
struct Once { int st=0; int owner=-1; VC vc{}; };
static std::map<const void*,Mutex> mutexes;
static std::map<const void*,Cond> conds;
static std::map<const void*,Once> onces;
struct Key { bool live=false; void (*d)(void*)=nullptr; };
static std::vector<Key> keys;

struct Block { size_t n; bool freed; int owner; };
static std::map<uintptr_t,Block> blocks;

/* race shadow: per byte */
struct Cell { uintptr_t a; uint32_t gen; uint32_t wclk; int8_t wt; bool watomic; VC r; VC ra; };
enum { CB = 14 };
static Cell *cells; static uint32_t gen = 0;
static std::map<uintptr_t,VC> avc;   /* release clocks of atomic locations */

static std::string snap_bss, snap_data; static bool snapped=false;

int self() { return cur; }
unsigned preemptions() { return (unsigned)used; }
void set_cond_spurious(bool on) { spurious = on; }

void begin(int b, Gran g) {
    if( !snapped ) {
        snapped = true;
        mallopt(M_MMAP_THRESHOLD,1<<30); mallopt(M_TRIM_THRESHOLD,1<<30); mallopt(M_TOP_PAD,64<<20);
        if( __start_vsbss ) snap_bss.assign(__start_vsbss, (size_t)(__stop_vsbss-__start_vsbss));
        if( __start_vsdata ) snap_data.assign(__start_vsdata, (size_t)(__stop_vsdata-__start_vsdata));
        cells = (Cell*)mmap(0,sizeof(Cell)<<CB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
        stacks = (char*)mmap(0,(size_t)STK*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    }
    if( snap_bss.size() ) ::memcpy(__start_vsbss,snap_bss.data(),snap_bss.size());
    if( snap_data.size() ) ::memcpy(__start_vsdata,snap_data.data(),snap_data.size());
    for( auto &x : blocks ) ::free((void*)x.first);
    blocks.clear(); T.clear(); mutexes.clear(); conds.clear(); onces.clear(); keys.clear(); avc.clear();
    gen++; bound=b; used=0; gran=g; cur=-1; ex=nullptr; spurious=false; running=false;
}
void end() {
    for( auto &x : blocks ) ::free((void*)x.first);
    blocks.clear(); T.clear();
}
static Block *find_block(const void *p, uintptr_t *base=nullptr) {
    auto it = blocks.upper_bound((uintptr_t)p);
    if( it == blocks.begin() ) return nullptr;
    --it;
    if( (uintptr_t)p >= it->first + std::max<size_t>(it->second.n,1) ) return nullptr;
    if( base ) *base = it->first;
    return &it->second;
}
bool is_live(const void *p) { Block *b=find_block(p); return b && !b->freed; }
bool was_freed(const void *p) { Block *b=find_block(p); return b && b->freed; }
size_t live_blocks() { size_t n=0; for(auto &x:blocks) n += !x.second.freed; return n; }
size_t live_blocks_of(int t) { size_t n=0; for(auto &x:blocks) n += !x.second.freed && x.second.owner==t; return n; }

static void trampoline(unsigned lo, unsigned hi) {
    int id = (int)lo; (void)hi;
    Thread *t = T[(size_t)id].get();
    try {
        t->f();
        /* thread-specific data destructors, as POSIX: up to 4 rounds */
        for( int round=0; round<4; round++ ) {
            bool any=false;
            for( size_t k=0;k<keys.size();k++ ) if( keys[k].live && keys[k].d && t->tls.count((unsigned)k) && t->tls[(unsigned)k] ) {
                void *v = t->tls[(unsigned)k]; t->tls[(unsigned)k]=nullptr; any=true;
                keys[k].d(v);
            }
            if( !any ) break;
        }
    } catch(...) { if( !ex ) ex = std::current_exception(); }
    t->done = true;
    setcontext(&main_ctx);
}
int spawn(std::function<void()> f) {
    if( T.size() >= MAXT ) mc::fail("scheduler: too many threads");
    int id = (int)T.size();
    T.emplace_back(new Thread);
    Thread *t = T.back().get();
    t->f = f;
    if( cur >= 0 ) { join(t->vc, T[(size_t)cur]->vc); T[(size_t)cur]->vc[(size_t)cur]++; }
    t->vc[(size_t)id] = 1;
    t->stk = stacks + (size_t)STK*(size_t)id;
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stk; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = nullptr;
    makecontext(&t->ctx,(void(*)())trampoline,2,(unsigned)id,0u);
    return id;
}
static bool ready(int i) { Thread *t=T[(size_t)i].get(); return !t->done && !t->blocked; }
/* a thread that relaxes runs on its own accord only when no other can */
static bool enabled(int i) {
    if( !ready(i) ) return false;
    if( T[(size_t)i]->low ) for( int k=0;k<(int)T.size();k++ ) if( ready(k) && !T[(size_t)k]->low ) return false;
    return true;
}

/* decide who runs next; `yielding` = current thread cannot go on */
static void resched(const char *what, bool can_continue) {
    if( cur < 0 ) return;
    Thread *me = T[(size_t)cur].get();
    me->events++; me->last = what;
    mc::step();
    int opts[MAXT], n=0;
    if( can_continue ) opts[n++] = cur;
    if( !can_continue || used < bound )
        for( int i=0;i<(int)T.size();i++ ) if( i!=cur && (can_continue ? ready(i) : enabled(i)) ) opts[n++]=i;
    if( n == 0 ) {
        std::string s="deadlock:";
        for( size_t i=0;i<T.size();i++ ) if( !T[i]->done ) s += " t"+std::to_string(i)+" waits in "+(T[i]->blocked?T[i]->why:"?");
        mc::fail("%s", s.c_str());
    }
    int k = n>1 ? mc::choose(n,"") : 0;
    int nx = opts[k];
    if( mc::verbose() ) mc::note("    t%d: %s%s", cur, what, nx!=cur? (" -> t"+std::to_string(nx)).c_str():"");
    mc::Hash h; for( size_t i=0;i<T.size();i++ ) h(T[i]->events)(T[i]->done)(T[i]->blocked!=nullptr); h(nx);
    mc::state(h);
    if( nx != cur ) {
        if( can_continue ) used++;
        cur = nx;
        swapcontext(&me->ctx,&T[(size_t)nx]->ctx);
        if( ex && me->done==false ) { /* another thread failed: stay dead, main never resumes us */ }
    }
}
void relax() {
    if( cur<0 ) return;
    Thread *me = T[(size_t)cur].get();
    me->low=true;
    bool any=false; for( int i=0;i<(int)T.size();i++ ) if( i!=cur && enabled(i) ) any=true;
    if( any ) resched("relax",false);
    me->low=false;
}
int others() { int r=0; for( int i=0;i<(int)T.size();i++ ) if( i!=cur && !T[(size_t)i]->done ) r = ready(i) ? 2 : (r>1?r:1); return r; }
bool waiting(int i) { return i<(int)T.size() && T[(size_t)i]->blocked && conds.count(T[(size_t)i]->blocked); }
bool blocked(int i) { return i<(int)T.size() && T[(size_t)i]->blocked; }
void point(const char *what) { if( cur>=0 ) resched(what,true); }
static void block_on(const void *o, const char *why) {
    Thread *me = T[(size_t)cur].get();
    me->blocked=o; me->why=why;
    resched(why,false);
}
static void wake(const void *o) { for( auto &t : T ) if( t->blocked==o ) t->blocked=nullptr; }

void run() {
    running = true;
    while(1) {
        /* pick a thread to (re)start: the previous one ended or none yet */
        int opts[MAXT], n=0; bool all=true;
        for( int i=0;i<(int)T.size();i++ ) { if( !T[(size_t)i]->done ) all=false; if( enabled(i) ) opts[n++]=i; }
        if( all ) break;
        if( n==0 ) {
            std::string s="deadlock:";
            for( size_t i=0;i<T.size();i++ ) if( !T[i]->done ) s += " t"+std::to_string(i)+" waits in "+T[i]->why;
            cur=-1; mc::fail("%s", s.c_str());
        }
        cur = opts[ n>1 ? mc::choose(n,"") : 0 ];
        swapcontext(&main_ctx,&T[(size_t)cur]->ctx);
        /* we come back here when a thread ended */
        if( ex ) { cur=-1; auto e=ex; ex=nullptr; std::rethrow_exception(e); }
        wake(T[(size_t)cur].get());
    }
    cur=-1; running=false;
}

/* ---- memory accesses ---- */
static inline bool on_stack(const void *p) {
    const char *c=(const char*)p;
    return c >= stacks && c < stacks+(size_t)STK*MAXT;
}
static Cell *cell(uintptr_t a) {
    size_t i = (a*0x9E3779B97F4A7C15ULL)>>(64-CB);
    for( int k=0;k<(1<<CB);k++, i=(i+1)&((1u<<CB)-1) ) {
        Cell *c=&cells[i];
        if( c->gen != gen ) { c->a=a; c->gen=gen; c->wclk=0; c->wt=-1; c->watomic=false; c->r.fill(0); c->ra.fill(0); return c; }
        if( c->a == a ) return c;
    }
    fprintf(stderr,"shadow full\n"); abort();
}
static void check_freed(const void *p, size_t n, bool w) {
    uintptr_t base; Block *b=find_block(p,&base);
    if( b && b->freed ) mc::fail("thread %d %s freed memory", cur, w?"writes":"reads");
    if( b && (uintptr_t)p+n > base+b->n ) mc::fail("thread %d accesses memory beyond a heap block", cur);
}
static void shadow(const void *p, size_t n, bool w, bool atomic, const char *what) {
    if( cur < 0 ) return;
    VC &vc = T[(size_t)cur]->vc;
    if( n > 64 ) n = 64;   /* large ranges: the first bytes represent the object */
    for( size_t i=0;i<n;i++ ) {
        Cell *c = cell((uintptr_t)p+i);
        if( c->wt >= 0 && c->wt != cur && c->wclk > vc[(size_t)c->wt] && !(atomic && c->watomic) )
            mc::fail("data race: thread %d %s unordered with a write by thread %d", cur, what, c->wt);
        if( w ) for( int t=0;t<MAXT;t++ ) if( t!=cur ) {
            if( c->r[(size_t)t] > vc[(size_t)t] ) mc::fail("data race: thread %d %s unordered with a read by thread %d", cur, what, t);
            if( !atomic && c->ra[(size_t)t] > vc[(size_t)t] ) mc::fail("data race: thread %d %s unordered with an atomic access by thread %d", cur, what, t);
        }
        if( w ) { c->wt=(int8_t)cur; c->wclk=vc[(size_t)cur]; c->watomic=atomic; if( atomic ) c->ra[(size_t)cur]=vc[(size_t)cur]; }
        else (atomic ? c->ra : c->r)[(size_t)cur]=vc[(size_t)cur];
    }
}
static void plain(const void *p, size_t n, bool w) {
    if( cur < 0 || on_stack(p) ) return;
    if( gran == ACCESS ) resched(w?"write":"read",true);
    check_freed(p,n,w);
    shadow(p,n,w,false,w?"writes":"reads");
}
void access(const void *p, size_t n, bool w, const char *) { plain(p,n,w); }

enum { RLX=0, CNS=1, ACQ=2, REL=3, AR=4, SC=5 };
static void at_pre(const volatile void *p, size_t n, bool w) {
    if( cur < 0 ) return;
    resched(w?"atomic update":"atomic load",true);
    check_freed((const void*)p,n,w);
    shadow((const void*)p,n,w,true,w?"atomically writes":"atomically reads");
}
static void at_acq(const volatile void *p, int o) {
    if( cur<0 ) return;
    if( o==ACQ||o==CNS||o==AR||o==SC ) { auto it=avc.find((uintptr_t)p); if( it!=avc.end() ) join(T[(size_t)cur]->vc,it->second); }
}
static void at_rel(const volatile void *p, int o, bool rmw) {
    if( cur<0 ) return;
    Thread *t=T[(size_t)cur].get();
    if( o==REL||o==AR||o==SC ) { VC &v=avc[(uintptr_t)p]; if( !rmw ) v.fill(0); join(v,t->vc); t->vc[(size_t)cur]++; }
    else if( !rmw ) avc.erase((uintptr_t)p);
}
void publish(const void *p) { at_rel(p,SC,true); }
void observe(const void *p) { at_acq(p,SC); }
void *alloc(size_t n) {
    void *p = ::malloc(n?n:1);
    ::memset(p,0xA5,std::min<size_t>(n?n:1,1024));
    blocks[(uintptr_t)p] = Block{n,false,cur};
    /* a fresh block has no history */
    return p;
}
} // namespace vs

using namespace vs;
extern "C" {
void *vs_malloc(size_t n) { if( cur>=0 ) resched("malloc",true); return vs::alloc(n); }
void *vs_calloc(size_t a, size_t b) { void *p=vs_malloc(a*b); ::memset(p,0,a*b); return p; }
void vs_free(void *p) {
    if( !p ) return;
    if( cur>=0 ) resched("free",true);
    auto it = blocks.find((uintptr_t)p);
    if( it == blocks.end() ) { mc::fail("thread %d frees a pointer that is not a heap block",cur); }
    if( it->second.freed ) mc::fail("thread %d frees a block twice",cur);
    vs::shadow(p,it->second.n,true,false,"frees memory");
    it->second.freed=true;
    ::memset(p,0xDD,std::min<size_t>(it->second.n,1024));
}
void *vs_realloc(void *p, size_t n) {
    void *q=vs_malloc(n);
    if( p ) { auto it=blocks.find((uintptr_t)p); if( it==blocks.end() || it->second.freed ) mc::fail("realloc of a dead block"); ::memcpy(q,p,std::min(n,it->second.n)); vs_free(p); }
    return q;
}
char *vs_strdup(const char *s) { size_t n=strlen(s)+1; char *p=(char*)vs_malloc(n); ::memcpy(p,s,n); return p; }
void *vs_memcpy(void *d, const void *s, size_t n) { if(n){ vs::plain(s,n,false); vs::plain(d,n,true);} return ::memcpy(d,s,n); }
void *vs_memmove(void *d, const void *s, size_t n) { if(n){ vs::plain(s,n,false); vs::plain(d,n,true);} return ::memmove(d,s,n); }
void *vs_memset(void *d, int c, size_t n) { if(n) vs::plain(d,n,true); return ::memset(d,c,n); }

int vs_mutex_lock(pthread_mutex_t *m) {
    if( cur<0 ) return 0;
    resched("lock",true);
    while(1) {
        Mutex &M=mutexes[m];
        if( M.destroyed ) mc::fail("lock of a destroyed mutex");
        if( M.owner == cur && M.recursive ) { M.count++; return 0; }
        if( M.owner == cur ) mc::fail("deadlock: thread %d locks a mutex it holds",cur);
        if( M.owner < 0 ) { M.owner=cur; vs::join(T[(size_t)cur]->vc,M.vc); return 0; }
        vs::block_on(m,"mutex lock");
    }
}
int vs_mutex_trylock(pthread_mutex_t *m) {
    if( cur<0 ) return 0;
    resched("trylock",true);
    Mutex &M=mutexes[m];
    if( M.owner >= 0 ) return 16; /* EBUSY */
    M.owner=cur; vs::join(T[(size_t)cur]->vc,M.vc); return 0;
}
static void unlock_nosched(const void *m) {
    Mutex &M=mutexes[m];
    if( M.owner != cur ) mc::fail("thread %d unlocks a mutex it does not hold",cur);
    if( M.count ) { M.count--; return; }
    M.owner=-1; vs::join(M.vc,T[(size_t)cur]->vc); T[(size_t)cur]->vc[(size_t)cur]++;
    vs::wake(m);
}
int vs_mutex_unlock(pthread_mutex_t *m) { if( cur<0 ) return 0; unlock_nosched(m); resched("unlock",true); return 0; }
int vs_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mutexes[m]=Mutex(); int t=0; if( a && !pthread_mutexattr_gettype(a,&t) && t==PTHREAD_MUTEX_RECURSIVE ) mutexes[m].recursive=true; return 0; }
int vs_mutex_destroy(pthread_mutex_t *m) { if( mutexes[m].owner>=0 ) mc::fail("destroy of a locked mutex"); mutexes[m].destroyed=true; return 0; }
int vs_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { conds[c]=Cond(); return 0; }
int vs_cond_destroy(pthread_cond_t *c) { if( conds[c].waiters.size() ) mc::fail("destroy of a condition variable with waiters"); return 0; }
int vs_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if( cur<0 ) return 0;
    Mutex &M=mutexes[m];
    if( M.owner != cur ) mc::fail("condition wait without holding the mutex");
    if( M.count ) mc::fail("deadlock: condition wait with a mutex locked twice");
    int me=cur;
    M.owner=-1; vs::join(M.vc,T[(size_t)cur]->vc); T[(size_t)cur]->vc[(size_t)cur]++;
    vs::wake(m);
    conds[c].waiters.push_back(me);
    vs::block_on(c,"cond wait");
    /* woken: reacquire */
    while(1) {
        Mutex &M2=mutexes[m];
        if( M2.owner<0 ) { M2.owner=cur; vs::join(T[(size_t)cur]->vc,M2.vc); return 0; }
        vs::block_on(m,"mutex relock");
    }
}
int vs_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    if( cur<0 ) return 0;
    /* nondeterministic time-out */
    if( mc::choose(2,"timedwait times out") ) { unlock_nosched(m); resched("timed wait",true); vs_mutex_lock(m); return 110; }
    return vs_cond_wait(c,m);
}
static void cond_wake(pthread_cond_t *c, int i) {
    auto &w=conds[c].waiters; int t=w[(size_t)i]; w.erase(w.begin()+i);
    T[(size_t)t]->blocked=nullptr;
}
int vs_cond_signal(pthread_cond_t *c) {
    if( cur<0 ) return 0;
    auto &w=conds[c].waiters;
    if( w.size() ) cond_wake(c, w.size()>1 ? mc::choose((int)w.size(),"signalled waiter") : 0);
    resched("cond signal",true);
    return 0;
}
int vs_cond_broadcast(pthread_cond_t *c) {
    if( cur<0 ) return 0;
    while( conds[c].waiters.size() ) cond_wake(c,0);
    resched("cond broadcast",true);
    return 0;
}
int vs_once(pthread_once_t *o, void (*f)(void)) {
    if( cur<0 ) { Once &O=onces[o]; if( O.st==0 ) { O.st=2; f(); } return 0; }
    resched("once",true);
    while(1) {
        Once &O=onces[o];
        if( O.st==2 ) { vs::join(T[(size_t)cur]->vc,O.vc); return 0; }
        if( O.st==0 ) {
            O.st=1; O.owner=cur;
            f();
            Once &O2=onces[o];
            O2.st=2; vs::join(O2.vc,T[(size_t)cur]->vc); T[(size_t)cur]->vc[(size_t)cur]++;
            vs::wake(o);
            resched("once done",true);
            return 0;
        }
        if( O.owner==cur ) mc::fail("deadlock: recursive once");
        vs::block_on(o,"once");
    }
}
int vs_key_create(pthread_key_t *k, void (*d)(void*)) {
    if( cur>=0 ) resched("key create",true);
    unsigned id=(unsigned)keys.size(); keys.push_back(Key()); keys[id].live=true; keys[id].d=d;
    vs::plain(k,sizeof(*k),true);
    *k=id; return 0;
}
int vs_key_delete(pthread_key_t k) { if( k>=keys.size()||!keys[k].live ) return 22; keys[k].live=false; return 0; }
static std::map<unsigned,void*> main_tls;
static std::map<unsigned,void*> &tls() { return cur>=0 ? T[(size_t)cur]->tls : main_tls; }
void *vs_getspecific(pthread_key_t k) {
    if( cur>=0 ) resched("getspecific",true);
    if( k>=keys.size() || !keys[k].live ) { mc::fail("thread %d uses a key that was never created",cur); }
    auto &m=tls(); auto it=m.find(k); return it==m.end()?nullptr:it->second;
}
int vs_setspecific(pthread_key_t k, const void *v) {
    if( cur>=0 ) resched("setspecific",true);
    if( k>=keys.size() || !keys[k].live ) { mc::fail("thread %d uses a key that was never created",cur); }
    tls()[k]=(void*)v; return 0;
}
int vs_thread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void*), void *arg) {
    int id = vs::spawn([f,arg]{ void *r=f(arg); T[(size_t)cur]->ret=r; });
    *t = (pthread_t)(id+1);
    resched("thread create",true);
    return 0;
}
int vs_thread_join(pthread_t t, void **ret) {
    int id=(int)t-1;
    if( id<0 || id>=(int)T.size() ) mc::fail("join of an invalid thread");
    if( cur>=0 ) {
        resched("join",true);
        while( !T[(size_t)id]->done ) vs::block_on(T[(size_t)id].get(),"join");
        vs::join(T[(size_t)cur]->vc,T[(size_t)id]->vc);
    }
    if( ret ) *ret=T[(size_t)id]->ret;
    return 0;
}
int vs_thread_detach(pthread_t) { return 0; }
pthread_t vs_thread_self(void) { return (pthread_t)(cur+1); }

/* ---- compiler instrumentation entry points (-fsanitize=thread ABI) ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
 void __tsan_read##n(void *p){ vs::plain(p,n,false); } void __tsan_write##n(void *p){ vs::plain(p,n,true); } \
 void __tsan_unaligned_read##n(void *p){ vs::plain(p,n,false); } void __tsan_unaligned_write##n(void *p){ vs::plain(p,n,true); } \
 void __tsan_read_write##n(void *p){ vs::plain(p,n,false); vs::plain(p,n,true);} \
 void __tsan_unaligned_read_write##n(void *p){ vs::plain(p,n,false); vs::plain(p,n,true);} \
 void __tsan_volatile_read##n(void *p){ vs::plain(p,n,false); } void __tsan_volatile_write##n(void *p){ vs::plain(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if(n) vs::plain(p,n,false); }
void __tsan_write_range(void *p, unsigned long n) { if(n) vs::plain(p,n,true); }
void *__tsan_memcpy(void *d,const void *s,size_t n) { return vs_memcpy(d,s,n); }
void *__tsan_memmove(void *d,const void *s,size_t n) { return vs_memmove(d,s,n); }
void *__tsan_memset(void *d,int c,size_t n) { return vs_memset(d,c,n); }
#define AT(B,TY) \
 TY __tsan_atomic##B##_load(const volatile TY *p,int o){ at_pre(p,sizeof(TY),false); at_acq(p,o); return *p; } \
 void __tsan_atomic##B##_store(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_rel(p,o,false); *p=v; } \
 TY __tsan_atomic##B##_exchange(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=v; return x; } \
 TY __tsan_atomic##B##_fetch_add(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)(x+v); return x; } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)(x-v); return x; } \
 TY __tsan_atomic##B##_fetch_and(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)(x&v); return x; } \
 TY __tsan_atomic##B##_fetch_or(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)(x|v); return x; } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)(x^v); return x; } \
 TY __tsan_atomic##B##_fetch_nand(volatile TY *p,TY v,int o){ at_pre(p,sizeof(TY),true); at_acq(p,o); at_rel(p,o,true); TY x=*p; *p=(TY)~(x&v); return x; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p,TY *e,TY v,int o,int fo){ at_pre(p,sizeof(TY),true); TY x=*p; if(x==*e){ at_acq(p,o); at_rel(p,o,true); *p=v; return 1;} at_acq(p,fo); *e=x; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p,TY *e,TY v,int o,int fo){ return __tsan_atomic##B##_compare_exchange_strong(p,e,v,o,fo); } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p,TY e,TY v,int o,int fo){ TY x=e; __tsan_atomic##B##_compare_exchange_strong(p,&x,v,o,fo); return x; }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int) { if(cur>=0) resched("fence",true); }
void __tsan_atomic_signal_fence(int) {}
}
