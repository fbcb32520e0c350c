#include "mc.hpp"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <atomic>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <ftw.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
           "handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32:alloc_dealloc_mismatch=1:"
           "malloc_context_size=6:max_free_fill_size=4096:max_malloc_fill_size=65536:malloc_fill_byte=123";
}
#endif

namespace mc {

enum { MAXD = 2048, NST_BITS = 24, MSG = 4096, MAXW = 64, SMP = 8 };

struct WorkerShm {
    volatile int space;
    volatile int depth;          /* current number of choices made */
    volatile int len;            /* length of the prescribed prefix */
    int choice[MAXD];
    int arity[MAXD];
    volatile uint64_t execs, steps, choices, pruned;
    volatile int failed;         /* harness-detected failure */
    volatile int done;
    volatile int timeout;
    char msg[MSG];
    uint64_t per_space[64];
    uint64_t per_space_steps[64];
    /* a few sample traces (choice strings) */
    int nsample; char sample[SMP][256];
};
struct Shm {
    WorkerShm w[MAXW];
    std::atomic<uint64_t> nstates, nnontriv;
    std::atomic<int> table_full, stop;
    std::atomic<int> nknown;
    char known[32][512];
    char known_key[32][128];
};

static Shm *shm;
static std::atomic<uint64_t> *tab_states, *tab_non;
static WorkerShm *W;             /* mine */
static int widx = 0, wcount = 1;
static bool replaying = false, partition = true;
static bool g_verbose = false, g_thorough = false;
static int g_seed = 1;
static std::string notes;
static const char *g_prop = "";
static std::set<std::string> g_known;
static double t_limit = 1e18;
static std::string g_scratch;
static const std::vector<Space> *g_spaces;
static bool split_done = false;

struct SkipEx {};
struct FailEx {};

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }

bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }
int seed() { return g_seed; }

static void tab_insert(std::atomic<uint64_t> *t, std::atomic<uint64_t> &n, uint64_t h) {
    if( !t ) return;
    if( h == 0 ) h = 1;
    uint64_t mask = (1ULL<<NST_BITS)-1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> (64-NST_BITS);
    for( int k = 0; k < 512; k ++, i = (i+1)&mask ) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if( cur == h ) return;
        if( cur == 0 ) {
            if( t[i].compare_exchange_strong(cur,h) ) { n++; return; }
            if( cur == h ) return;
        }
    }
    shm->table_full = 1;
}
void step(unsigned n) { W->steps += n; }
void state(uint64_t h) { tab_insert(tab_states, shm->nstates, h); }
void nontrivial(uint64_t h) { tab_insert(tab_non, shm->nnontriv, h); }

int choose(int n, const char *label) {
    if( n <= 0 ) { fprintf(stderr,"choose(%d,%s)\n",n,label); abort(); }
    int d = W->depth;
    if( d >= MAXD ) { fprintf(stderr,"choice depth exceeded\n"); abort(); }
    int c = 0;
    if( d < W->len ) {
        c = W->choice[d];
        if( c >= n ) { fprintf(stderr,"nondeterministic harness: choice %d of %d at depth %d (%s)\n",c,n,d,label); _exit(3); }
    } else {
        W->choice[d] = 0; W->len = d+1;
    }
    W->arity[d] = n;
    W->depth = d+1;
    W->choices ++;
    if( g_verbose && label && *label ) note("  choose %s = %d/%d", label, c, n);
    return c;
}
void skip() { throw SkipEx(); }
void split() {
    if( replaying || !partition || split_done ) return;
    split_done = true;
    Hash h; int d = W->depth;
    for( int i = 0; i < d; i ++ ) h(W->choice[i]);
    uint64_t x = h; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33;
    if( (int)(x % (uint64_t)wcount) != widx ) { W->pruned++; throw SkipEx(); }
}
void note(const char *fmt, ...) {
    if( !g_verbose ) return;
    char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof(b),fmt,ap); va_end(ap);
    fprintf(stderr, "%s\n", b);
}
void fail(const char *fmt, ...) {
    va_list ap; va_start(ap,fmt); vsnprintf(W->msg,MSG,fmt,ap); va_end(ap);
    W->failed = 1;
    throw FailEx();
}
bool known(const char *key, const char *fmt, ...) {
    if( !g_known.count(key) ) return false;
    for( int i = 0; i < shm->nknown; i ++ ) if( 0 == strcmp(shm->known_key[i],key) ) return true;
    int i = shm->nknown++;
    if( i < 32 ) {
        snprintf(shm->known_key[i],128,"%s",key);
        va_list ap; va_start(ap,fmt); vsnprintf(shm->known[i],512,fmt,ap); va_end(ap);
    } else shm->nknown = 32;
    return true;
}

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static pid_t scratch_owner = 0;
const char *scratch() {
    if( g_scratch.empty() || scratch_owner != getpid() ) {
        const char *base = getenv("MC_SCRATCH");
        char b[512]; snprintf(b,sizeof(b),"%s/w%d.XXXXXX", base?base:"/tmp", (int)getpid());
        if( !mkdtemp(b) ) { perror("mkdtemp"); _exit(3); }
        g_scratch = b; scratch_owner = getpid();
    }
    return g_scratch.c_str();
}
static void rm_scratch() {
    if( !g_scratch.empty() && scratch_owner == getpid() )
        nftw(g_scratch.c_str(), rm_cb, 16, FTW_DEPTH|FTW_PHYS);
}

/* one execution; returns false when it failed */
static bool execute(void (*body)(), bool *skipped) {
    W->depth = 0; W->failed = 0; split_done = false;
    *skipped = false;
    try { body(); }
    catch( SkipEx & ) { *skipped = true; }
    catch( FailEx & ) { return false; }
    return true;
}
/* next choice vector; false when the space is exhausted */
static bool advance() {
    int d = W->depth; /* executed depth: only this prefix was looked at */
    while( d > 0 ) {
        if( W->choice[d-1] + 1 < W->arity[d-1] ) { W->choice[d-1]++; W->len = d; return true; }
        d--;
    }
    W->len = 0;
    return false;
}

static void worker(int k) {
    widx = k; W = &shm->w[k];
    const char *only = getenv("MC_SPACE");
    for( size_t s = 0; s < g_spaces->size(); s ++ ) {
        if( only && !strstr((*g_spaces)[s].name, only) ) continue;
        W->space = (int)s; W->len = 0;
        uint64_t e0 = W->execs, s0 = W->steps;
        int sampled = 0;
        uint64_t nexts = 1;
        while(1) {
            bool sk;
            bool ok = execute((*g_spaces)[s].body, &sk);
            if( !ok ) { rm_scratch(); _exit(10); }
            if( !sk ) {
                W->execs++;
                uint64_t n = W->execs - e0;
                if( n == nexts && W->nsample < SMP && sampled < 2 ) {
                    nexts *= 97; sampled++;
                    int q = 0; char *o = W->sample[W->nsample];
                    q = snprintf(o,256,"%s:",(*g_spaces)[s].name);
                    for( int i = 0; i < W->depth && q < 240; i ++ ) q += snprintf(o+q,256-(size_t)q,"%s%d",i?".":"",W->choice[i]);
                    W->nsample++;
                }
            }
            if( !advance() ) break;
            if( (W->execs & 63) == 0 && (shm->stop || now() > t_limit) ) { W->timeout = 1; break; }
        }
        W->per_space[s] = W->execs - e0;
        W->per_space_steps[s] = W->steps - s0;
        if( W->timeout ) break;
    }
    W->done = 1;
    rm_scratch();
    _exit(0);
}

static std::string slurp(const std::string &f, size_t max=20000) {
    std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str();
    if( s.size() > max ) s = s.substr(0,max/2) + "\n...\n" + s.substr(s.size()-max/2);
    return s;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for( unsigned char c : s ) {
        if( c=='"' || c=='\\' ) { o+='\\'; o+=(char)c; }
        else if( c=='\n' ) o+="\\n";
        else if( c < 32 || c > 126 ) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; }
        else o+=(char)c;
    }
    return o+"\"";
}
static double cputime(pid_t p) {
    clockid_t c; struct timespec t;
    if( clock_getcpuclockid(p,&c) || clock_gettime(c,&t) ) return 0;
    return (double)t.tv_sec + 1e-9*(double)t.tv_nsec;
}
static void quiet_out(const char *err) {
    int fd = open(err, O_CREAT|O_WRONLY|O_TRUNC, 0644);
    if( fd >= 0 ) { dup2(fd,2); dup2(fd,1); close(fd); }
}

struct Outcome { bool bad; std::string msg; };

/* run one child with a hang watchdog.  kind: worker index>=0, or replay */
static Outcome supervise(pid_t p, WorkerShm *w, const char *errf, double hang) {
    uint64_t last = ~0ULL; double cpu0 = 0, wall0 = now();
    int st;
    while(1) {
        pid_t r = waitpid(p,&st,WNOHANG);
        if( r == p ) break;
        uint64_t e = w->execs + w->choices + w->pruned;
        double c = cputime(p);
        if( e != last ) { last = e; cpu0 = c; wall0 = now(); }
        else if( c-cpu0 > hang || now()-wall0 > 20*hang ) {
            kill(p,SIGKILL); waitpid(p,&st,0);
            return { true, "hang: no progress within one execution" };
        }
        usleep(5000);
    }
    if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) return { false, "" };
    if( WIFEXITED(st) && WEXITSTATUS(st) == 10 ) return { true, w->msg };
    if( WIFEXITED(st) && WEXITSTATUS(st) == 3 ) return { true, "harness error: "+slurp(errf,2000) };
    std::string e = slurp(errf, 6000);
    char b[128];
    if( WIFSIGNALED(st) ) snprintf(b,sizeof(b),"killed by signal %d", WTERMSIG(st));
    else snprintf(b,sizeof(b),"abnormal exit %d", WEXITSTATUS(st));
    size_t k = e.find("ERROR: AddressSanitizer");
    std::string m = b;
    if( k != std::string::npos ) m += ": " + e.substr(k, e.find('\n',k)-k);
    else if( (k = e.find("Assertion")) != std::string::npos ) m += ": " + e.substr(k, e.find('\n',k)-k);
    return { true, m + "\n" + e };
}

static std::string choices_str(WorkerShm *w, int n) {
    std::string s; char b[16];
    for( int i = 0; i < n; i ++ ) { snprintf(b,16,"%s%d",i?",":"",w->choice[i]); s+=b; }
    return s;
}

static Outcome replay_child(int space, const std::vector<int> &ch, const char *errf, bool verb) {
    WorkerShm *w = &shm->w[MAXW-1];
    memset((void*)w,0,sizeof(*w));
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if( p == 0 ) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if( errf ) quiet_out(errf);
        W = w; replaying = true; g_verbose = verb; widx = 0; wcount = 1;
        W->space = space;
        for( size_t i = 0; i < ch.size(); i ++ ) W->choice[i] = ch[i];
        W->len = (int)ch.size();
        bool sk; bool ok = execute((*g_spaces)[(size_t)space].body,&sk);
        if( verb && !ok ) fprintf(stderr,"FAILED: %s\n", W->msg);
        rm_scratch();
        _exit( ok ? 0 : 10 );
    }
    return supervise(p,w,errf?errf:"/dev/null",60);
}

int run(int argc, char **argv, const char *property, const std::vector<Space> &spaces) {
    g_prop = property; g_spaces = &spaces;
    const char *tier = getenv("VERIF_TIER");
    g_thorough = tier && !strcmp(tier,"thorough");
    if( getenv("VERIF_SEED") ) g_seed = atoi(getenv("VERIF_SEED"));
    std::string replay, out, outdir = ".";
    int nw = (int)sysconf(_SC_NPROCESSORS_ONLN); if( nw < 1 ) nw = 1; if( nw > 16 ) nw = 16;
    double limit = g_thorough ? 3300 : 600;
    double hang = 40;
    for( int i = 1; i < argc; i ++ ) {
        if( !strcmp(argv[i],"--replay") && i+1<argc ) replay = argv[++i];
        else if( !strcmp(argv[i],"--json") && i+1<argc ) out = argv[++i];
        else if( !strcmp(argv[i],"--dir") && i+1<argc ) outdir = argv[++i];
        else if( !strcmp(argv[i],"-j") && i+1<argc ) nw = atoi(argv[++i]);
        else if( !strcmp(argv[i],"--limit") && i+1<argc ) limit = atof(argv[++i]);
        else if( !strcmp(argv[i],"--known") && i+1<argc ) {
            std::stringstream ss(argv[++i]); std::string k;
            while( std::getline(ss,k,',') ) if( !k.empty() ) g_known.insert(k);
        }
    }
    shm = (Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    size_t ts = sizeof(uint64_t)<<NST_BITS;
    tab_states = (std::atomic<uint64_t>*)mmap(0,ts,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    tab_non = (std::atomic<uint64_t>*)mmap(0,ts,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if( shm == MAP_FAILED || (void*)tab_states == MAP_FAILED || (void*)tab_non == MAP_FAILED ) { perror("mmap"); return 2; }
    W = &shm->w[MAXW-2];

    if( !replay.empty() ) {
        /* file: "space <name>\nchoices a,b,c\n" */
        std::ifstream f(replay); std::string line, sp; std::vector<int> ch;
        while( std::getline(f,line) ) {
            if( line.rfind("space ",0)==0 ) sp = line.substr(6);
            if( line.rfind("choices ",0)==0 ) { std::stringstream ss(line.substr(8)); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) ch.push_back(atoi(t.c_str())); }
        }
        int si = -1; for( size_t i=0;i<spaces.size();i++ ) if( sp == spaces[i].name ) si=(int)i;
        if( si < 0 ) { fprintf(stderr,"unknown space '%s'\n",sp.c_str()); return 2; }
        Outcome o = replay_child(si,ch,NULL,true);
        printf("%s: %s\n", o.bad?"REPRODUCED":"not reproduced", o.msg.c_str());
        return o.bad ? 1 : 0;
    }

    double t0 = now(); t_limit = t0 + limit;
    std::vector<pid_t> pid((size_t)nw);
    std::vector<std::string> errf((size_t)nw);
    fflush(stdout); fflush(stderr);
    wcount = nw;
    for( int k = 0; k < nw; k ++ ) {
        errf[(size_t)k] = outdir + "/w" + std::to_string(k) + ".err";
        pid_t p = fork();
        if( p == 0 ) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            quiet_out(errf[(size_t)k].c_str()); worker(k);
        }
        pid[(size_t)k] = p;
    }
    /* watch all workers */
    std::vector<double> cpu0((size_t)nw,0), wall0((size_t)nw,now());
    std::vector<uint64_t> last((size_t)nw,~0ULL);
    std::vector<int> status((size_t)nw,-1); /* -1 running */
    std::vector<std::string> wmsg((size_t)nw);
    int running = nw, bad = -1;
    while( running ) {
        for( int k = 0; k < nw; k ++ ) if( status[(size_t)k] < 0 ) {
            WorkerShm *w = &shm->w[k];
            int st; pid_t r = waitpid(pid[(size_t)k],&st,WNOHANG);
            if( r == pid[(size_t)k] ) {
                running--;
                status[(size_t)k] = (WIFEXITED(st) && WEXITSTATUS(st)==0) ? 0 : 1;
                if( status[(size_t)k] ) {
                    if( WIFEXITED(st) && WEXITSTATUS(st)==10 ) wmsg[(size_t)k] = w->msg;
                    else {
                        std::string e = slurp(errf[(size_t)k],6000); char b[64];
                        if( WIFSIGNALED(st) ) snprintf(b,64,"killed by signal %d\n",WTERMSIG(st)); else snprintf(b,64,"abnormal exit %d\n",WEXITSTATUS(st));
                        wmsg[(size_t)k] = b + e;
                    }
                    if( bad < 0 ) bad = k;
                    shm->stop = 1;
                }
                continue;
            }
            uint64_t e = w->execs + w->choices + w->pruned; double c = cputime(pid[(size_t)k]);
            if( e != last[(size_t)k] ) { last[(size_t)k]=e; cpu0[(size_t)k]=c; wall0[(size_t)k]=now(); }
            else if( c-cpu0[(size_t)k] > hang || now()-wall0[(size_t)k] > 8*hang ) {
                kill(pid[(size_t)k],SIGKILL); waitpid(pid[(size_t)k],&st,0);
                running--; status[(size_t)k]=1; wmsg[(size_t)k]="hang: an execution did not terminate";
                if( bad < 0 ) bad = k;
                shm->stop = 1;
            }
        }
        usleep(3000);
    }
    uint64_t ex=0, stp=0, cho=0; bool tmo=false;
    std::vector<uint64_t> ps(spaces.size(),0), pst(spaces.size(),0);
    std::string samples;
    for( int k = 0; k < nw; k ++ ) {
        WorkerShm *w=&shm->w[k]; ex+=w->execs; stp+=w->steps; cho+=w->choices; tmo |= w->timeout!=0;
        for( size_t s=0;s<spaces.size();s++ ) { ps[s]+=w->per_space[s]; pst[s]+=w->per_space_steps[s]; }
        if( k < 2 ) for( int i=0;i<w->nsample;i++ ) samples += (samples.empty()?"":", ") + jstr(w->sample[i]);
    }
    int rc = 0; std::string vmsg, rpath;
    if( bad >= 0 ) {
        WorkerShm *w = &shm->w[bad];
        int sp = w->space; int n = w->len; /* prefix executed so far */
        std::vector<int> ch(w->choice, w->choice+n);
        std::string why = wmsg[(size_t)bad];
        rpath = outdir + "/violation.replay";
        std::string rerr = outdir + "/replay.err";
        Outcome o = replay_child(sp,ch,rerr.c_str(),true);
        bool confirmed = o.bad; std::string how = "isolated replay";
        if( !confirmed ) {
            /* depends on earlier executions in the same process: redo that worker */
            std::string e2 = outdir + "/rerun.err";
            memset((void*)w,0,sizeof(*w)); shm->stop = 0; t_limit = now()+limit;
            pid_t p = fork();
            if( p == 0 ) { prctl(PR_SET_PDEATHSIG, SIGKILL); quiet_out(e2.c_str()); worker(bad); }
            Outcome o2 = supervise(p,w,e2.c_str(),hang);
            confirmed = o2.bad; how = "second full run of the same worker partition";
            if( o2.bad ) { why = o2.msg; sp = w->space; ch.assign(w->choice,w->choice+w->len); }
        } else why = o.msg;
        std::ofstream f(rpath);
        f << "property " << property << "\nspace " << spaces[(size_t)sp].name << "\nchoices ";
        for( size_t i=0;i<ch.size();i++ ) f << (i?",":"") << ch[i];
        f << "\nconfirmed " << (confirmed?how:"NO") << "\nmessage " << why << "\n--- trace of the replay ---\n" << slurp(rerr,16000) << "\n";
        f.close();
        vmsg = std::string("[") + spaces[(size_t)sp].name + "] " + why.substr(0, 1500);
        if( confirmed ) rc = 1;
        else { fprintf(stderr,"WARNING: unconfirmed failure: %s\n", vmsg.c_str()); rc = 4; }
    }
    double wall = now()-t0;
    std::string js = "{";
    js += "\"property\": " + jstr(property);
    js += ", \"executions\": " + std::to_string(ex);
    js += ", \"steps\": " + std::to_string(stp);
    js += ", \"choices\": " + std::to_string(cho);
    js += ", \"states\": " + std::to_string((unsigned long)shm->nstates);
    js += ", \"nontrivial\": " + std::to_string((unsigned long)shm->nnontriv);
    js += std::string(", \"table_full\": ") + (shm->table_full?"true":"false");
    js += std::string(", \"timeout\": ") + (tmo?"true":"false");
    js += ", \"workers\": " + std::to_string(nw);
    js += ", \"spaces\": {";
    for( size_t s=0;s<spaces.size();s++ ) js += (s?", ":"") + jstr(spaces[s].name) + ": {\"executions\": " + std::to_string(ps[s]) + ", \"steps\": " + std::to_string(pst[s]) + "}";
    js += "}, \"samples\": [" + samples + "]";
    js += ", \"known\": [";
    for( int i=0;i<shm->nknown && i<32;i++ ) js += (i?", ":"") + std::string("{\"key\": ") + jstr(shm->known_key[i]) + ", \"what\": " + jstr(shm->known[i]) + "}";
    js += "]";
    js += ", \"rc\": " + std::to_string(rc) + ", \"violation\": " + jstr(vmsg) + ", \"replay\": " + jstr(rpath);
    char wb[64]; snprintf(wb,64,"%.3f",wall);
    js += std::string(", \"wall\": ") + wb + "}\n";
    if( !out.empty() ) { std::ofstream f(out); f << js; } else std::cout << js;
    return rc;
}
} // namespace mc
