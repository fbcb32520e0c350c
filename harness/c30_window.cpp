// The display window (sdl_win.c) on a controlled scheduler, the graphics library replaced by recording stand-ins: every schedule of the display thread and its clients.
// VARIANT: sched
// EXTRA: vsched.cpp?-std=c++17 @REPO@/src/mem.c?CLANG @REPO@/src/rx/sdl_win.c?-I/usr/include/SDL2,CLANG
// XF: -I/usr/include/SDL2
#include "vsched.hpp"
#include "amino.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include <SDL.h>
#include <SDL_opengl.h>
#include "amino/rx/scene_gl.h"
#include "amino/rx/scene_sdl.h"
#include "amino/rx/scene_win.h"
#include "amino/rx/scene_gl_internal.h"
#include "amino/rx/mp_seq.h"
#include <memory>
#include <set>
#include <tuple>
#include <climits>
using mc::choose;
extern "C" {
void aa_rx_win_get_config(struct aa_rx_win *, size_t, double *);
void *aa_rx_win_call(void *(*)(void*), void *);
void aa_sdl_dx(const double dx[6], int enable);
struct aa_sdl_display_params { struct timespec now, initial, last; int update, quit, first; };
}
/* ---- one recorded execution ---- */
struct Op { int kind, th; double v; long a, b; };
enum { W_=0, R_=1, S_=2, G_=3 };           /* set configuration, see on display, set scene, get configuration */
struct Env {
    long clock=0;
    std::vector<Op> h;
    struct aa_rx_sg *sg=nullptr, *sg2=nullptr; struct aa_rx_sg_sub *sub=nullptr;
    aa_gl_globals globals[3]; int nglobals=0, globals_live=0, windows=0, windows_live=0, contexts_live=0;
    int current=-1;                          /* thread the context is current in */
    int loop_thread=-1;                      /* thread inside the display loop */
    int frames=0, idle=0, free_frames=2, renders=0;
    int quit_frame=-1;                       /* user closes the window in this frame */
    std::vector<double> shown; long frame_a=0; bool rendered=false; double t=0; std::vector<double> times; bool want_plan=false;
    std::function<void(int)> on_frame;
    struct Pub { struct aa_rx_win *w=nullptr; Pub&operator=(struct aa_rx_win*x){ w=x; vs::publish(this); return *this; } operator struct aa_rx_win*(){ vs::observe(this); return w; } } win;
    long closed=0, soq=0, stop_a=0, run_b=0;
};
static Env *E;
static long tick(){ return ++E->clock; }
static struct timespec ts(double t){ struct timespec r; r.tv_sec=1000+(long)floor(t); r.tv_nsec=(long)llround((t-floor(t))*1e9); if(r.tv_nsec>=1000000000){ r.tv_sec++; r.tv_nsec-=1000000000; } return r; }
extern "C" {
const struct timespec *aa_sdl_display_params_get_time_now(struct aa_sdl_display_params *p){ return &p->now; }
const struct timespec *aa_sdl_display_params_get_time_last(struct aa_sdl_display_params *p){ return &p->last; }
const struct timespec *aa_sdl_display_params_get_time_initial(struct aa_sdl_display_params *p){ return &p->initial; }
int aa_sdl_display_params_get_update(struct aa_sdl_display_params *p){ return p->update; }
void aa_sdl_display_params_set_update(struct aa_sdl_display_params *p){ p->update=1; }
void aa_sdl_display_params_set_quit(struct aa_sdl_display_params *p){ p->quit=1; }
int aa_sdl_display_params_is_first(struct aa_sdl_display_params *p){ return p->first; }
struct aa_gl_globals *aa_gl_globals_create(void){ if(E->nglobals==3) mc::fail("more windows than threads creating one"); aa_gl_globals*g=&E->globals[E->nglobals++]; memset(g,0,sizeof *g); g->fps=10; g->world_E_cam[3]=1; E->globals_live++; return g; }
void aa_gl_globals_destroy(struct aa_gl_globals *g){ if(g->fps!=10) mc::fail("graphics state destroyed twice"); g->fps=-1; E->globals_live--; }
void aa_gl_globals_set_aspect(struct aa_gl_globals *g, double a){ g->aspect=a; }
void aa_gl_globals_set_camera(struct aa_gl_globals *g, const double T[7]){ vs::access(g->world_E_cam,1,true,"camera"); memcpy(g->world_E_cam,T,7*sizeof(double)); }
void aa_gl_globals_unmask_all(struct aa_gl_globals *g){ vs::access(&g->frame_mask,1,true,"mask"); }
void aa_sdl_gl_window(const char*,int,int,int,int,Uint32,SDL_Window **w,SDL_GLContext *c){ E->windows++; E->windows_live++; E->contexts_live++; vs::point("open window"); *w=(SDL_Window*)(intptr_t)(0x1000*E->windows); *c=(SDL_GLContext)(intptr_t)(0x100000*E->windows); E->current=vs::self(); }
int SDL_GL_MakeCurrent(SDL_Window *w, SDL_GLContext c){ if(!w||(c&&(intptr_t)c!=(intptr_t)w*0x100)) mc::fail("context made current for another window"); if(c){ if(E->current>=0&&E->current!=vs::self()) mc::fail("graphics context taken by thread %d while current in thread %d",vs::self(),E->current); E->current=vs::self(); } else if(E->current==vs::self()) E->current=-1; return 0; }
const char *SDL_GetError(void){ return "stand-in"; }
void SDL_GL_DeleteContext(SDL_GLContext c){ if(!c) mc::fail("no context to delete"); E->contexts_live--; if(E->loop_thread>=0&&E->loop_thread!=vs::self()) mc::fail("context deleted while the display loop runs"); E->current=-1; }
void SDL_DestroyWindow(SDL_Window *w){ if(!w) mc::fail("no window to destroy"); E->windows_live--; }
void aa_rx_sg_render(const struct aa_rx_sg *sg, const struct aa_gl_globals *g, size_t n, const double *tf, size_t ld){
    if(E->loop_thread!=vs::self()) mc::fail("rendering outside of the display thread"); if(g->fps!=10) mc::fail("rendering with destroyed graphics state"); vs::access(g->world_E_cam,1,false,"camera"); vs::access(&g->frame_mask,1,false,"mask");
    if(n!=aa_rx_sg_frame_count(sg)) mc::fail("%zu frames rendered, scene has %zu",n,aa_rx_sg_frame_count(sg));
    E->shown.assign(tf+(n-1)*ld+4,tf+(n-1)*ld+7); E->rendered=true; E->renders++; }
void aa_sdl_display_loop(SDL_Window *w, struct aa_gl_globals *g, aa_sdl_display_fun display, void *cx){
    if(E->loop_thread>=0) mc::fail("two display loops at a time"); if(E->current!=vs::self()) mc::fail("display loop without the graphics context"); E->loop_thread=vs::self(); (void)w;
    struct aa_sdl_display_params p; memset(&p,0,sizeof p); p.first=1; p.update=1; p.initial=p.now=ts(E->t);
    do { p.last=p.now; if(E->times.size() && E->frames) { E->t+=E->times[(size_t)std::min<size_t>((size_t)E->frames,E->times.size()-1)]; } p.now=ts(E->t); E->rendered=false; E->frame_a=tick();
        display(cx,&p); long b=tick(); if(g->fps!=10) mc::fail("graphics state destroyed under the display loop");
        if(E->rendered && !E->want_plan) E->h.push_back({R_,vs::self(),E->shown[0],E->frame_a,b});
        if(E->on_frame) E->on_frame(E->frames); p.first=0; p.update=0; E->frames++;
        vs::point("wait for events");
        if(E->quit_frame>=0 && E->frames>E->quit_frame) { if(E->frames>E->quit_frame+1 && vs::others()==2) vs::relax(); p.quit=1; E->closed=tick(); }
        else if(!p.quit && E->frames>=E->free_frames) { int o=vs::others(); if(o==2){ vs::relax(); E->idle=0; } else if(o==0) { if(!E->want_plan) p.quit=1; } else if(++E->idle>3) { std::string s; for(int i=0;i<8;i++) if(vs::blocked(i)) s+=" "+std::to_string(i); mc::fail("the display loop runs but threads%s wait forever",s.c_str()); } }
        if(E->frames>40) mc::fail("the display loop does not end");
    } while(!p.quit);
    E->loop_thread=-1; }
}
/* register history: is there an order of the operations that respects real time and explains every read? */
static bool lin(const std::vector<Op>&h, double init){ size_t n=h.size(); std::vector<char> used(n,0); std::set<std::tuple<std::vector<char>,double,double>> seen; std::function<bool(double,double,size_t)> go=[&](double sc,double v,size_t k)->bool{ if(k==n) return true; if(!seen.insert({used,sc,v}).second) return false; long lim=LONG_MAX; for(size_t i=0;i<n;i++) if(!used[i]) lim=std::min(lim,h[i].b);
    for(size_t i=0;i<n;i++) if(!used[i] && h[i].a<=lim){ if((h[i].kind==R_ && fabs(h[i].v-v-100*sc)>1e-9) || (h[i].kind==G_ && fabs(h[i].v-v)>1e-12)) continue; used[i]=1; if(go(h[i].kind==S_?h[i].v:sc,h[i].kind==W_?h[i].v:h[i].kind==S_?0:v,k+1)) return true; used[i]=0; } return false; }; return go(0,init,0); }
static std::string hist(const std::vector<Op>&h){ std::string s; for(auto&o:h){ char b[80]; snprintf(b,80," %s(%g)@t%d[%ld,%ld]",o.kind==W_?"set":o.kind==S_?"scene":o.kind==G_?"get":"see",o.v,o.th,o.a,o.b); s+=b; } return s; }
static struct aa_rx_sg *mksg(int n,double x0=0){ static const double ax[3][3]={{1,0,0},{0,1,0},{0,0,1}}; double q0[4]={0,0,0,1}; struct aa_rx_sg*sg=aa_rx_sg_create(); const char*nm[]={"x","y","z"},*cn[]={"qx","qy","qz"}; for(int i=0;i<n;i++) { double v0[3]={i?0:x0,0,0}; aa_rx_sg_add_frame_prismatic(sg,i?nm[i-1]:"",nm[i],q0,v0,cn[i],ax[i],0); } aa_rx_sg_init(sg); return sg; }
static void setup(Env&e,int pb,int n=1){ E=&e; vs::begin(pb,vs::SYNC); e.sg=mksg(n); }
static void wset(struct aa_rx_win*w,double v){ long a=tick(); aa_rx_win_set_config(w,1,&v); E->h.push_back({W_,vs::self(),v,a,tick()}); }
static void bset(struct aa_rx_win*w,double v){ double x[2]={v,-7}; struct aa_dvec d=AA_DVEC_INIT(1,x,2); long a=tick(); aa_rx_win_set_bconfig(w,&d); E->h.push_back({W_,vs::self(),v,a,tick()}); }
static void wget(struct aa_rx_win*w){ double v=-99; long a=tick(); aa_rx_win_get_config(w,1,&v); E->h.push_back({G_,vs::self(),v,a,tick()}); }
static void finish(Env&e,bool destroyed){ if(destroyed){ CHECK(e.windows_live==0&&e.globals_live==0&&e.contexts_live==0,"windows %d, graphics states %d, contexts %d left after destroy",e.windows_live,e.globals_live,e.contexts_live); CHECK(vs::live_blocks()==0,"%zu heap blocks left after destroy",vs::live_blocks()); } if(e.sub) aa_rx_sg_sub_destroy(e.sub); aa_rx_sg_destroy(e.sg); if(e.sg2) aa_rx_sg_destroy(e.sg2); vs::end(); E=nullptr; }

/* ---- calls into the display thread ---- */
struct Call { int id; int runs=0; int th=-1; bool done=false; bool nested=false; int kind=0; void*res=nullptr; };
enum { PLAIN, NESTED, CREATE, SETQ, STOP };
static void *body(void *x){ Call*c=(Call*)x; c->runs++; c->th=vs::self(); vs::point("in called function");
    if(c->kind==NESTED){ Call d{c->id+100}; void*r=aa_rx_win_call(body,&d); if(r!=(void*)(intptr_t)(c->id+101)||d.runs!=1||d.th!=vs::self()) mc::fail("call %d: nested call gave %p after %d runs",c->id,r,d.runs); }
    if(c->kind==CREATE) { c->res=aa_rx_win_default_create("w",40,20); if(c->res) E->win=(struct aa_rx_win*)c->res; }
    if(c->kind==SETQ) { if(E->win) wset(E->win,2); }
    if(c->kind==STOP) { if(E->win) aa_rx_win_stop(E->win); }
    return (void*)(intptr_t)(c->id+1); }
static void client(Call*c,int rt){ void*r=aa_rx_win_call(body,c); CHECK(r==(void*)(intptr_t)(c->id+1),"call %d returned %ld, its function returned %d",c->id,(long)(intptr_t)r,c->id+1); CHECK(c->runs==1,"call %d: function ran %d times",c->id,c->runs); CHECK(rt<0||c->th==rt,"call %d ran in thread %d, not in the display thread",c->id,c->th); c->done=true; }
static void calls(){ bool T=mc::thorough(); int n=1+choose(2,"clients"); int k0=choose(5,"kind"), k1=n>1?choose(T?5:3,"kind"):0; int two=choose(2,"calls of the first client")+1; int mode=choose(3,"window"); if(mode==2){ if(k0==STOP) k0=PLAIN; if(k1==STOP) k1=PLAIN; } /* 0 made by the display thread first, 1 display thread waits for it, 2 asynchronous display thread */ 
    mc::split(); Env e; setup(e,T?(n==1?3:2):n==1||(two==1&&mode!=1&&(k1==PLAIN||k0==PLAIN))?2:1); Call c[3]={{0},{1},{2}}; c[0].kind=k0; c[1].kind=k1; c[2].kind=PLAIN; auto live=std::make_shared<int>(0);
    if(mode==2) vs::spawn([&,n,two]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); aa_rx_win_run_async(); });
    else vs::spawn([&,mode]{ if(mode==0){ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); } aa_rx_win_run(); vs::relax(); while(vs::others()) { aa_rx_win_run(); vs::relax(); } });
    for(int i=0;i<n;i++) vs::spawn([&,i]{ client(&c[i],mode==2?-1:0); if(i==0&&two==2) client(&c[2],mode==2?-1:0); });
    if(mode==1) vs::spawn([&]{ struct aa_rx_win*w=aa_rx_win_default_create("w",40,20); if(w) e.win=w; });
    vs::run(); mc::step(); CHECK(e.windows==1,"%d windows opened",e.windows); bool made=(struct aa_rx_win*)e.win!=nullptr; CHECK(made,"no window"); mc::nontrivial(mc::Hash()(mode)(n)(k0)(k1)(two)(vs::preemptions())(e.frames)(c[0].th)(c[1].th));
    vs::spawn([&]{ aa_rx_win_destroy(e.win); }); vs::run(); finish(e,true); }

/* ---- configuration as a register: setters, readers and the display ---- */
static void updates(){ bool T=mc::thorough(); int prog[2][2]; int n=2; for(int i=0;i<n;i++) for(int k=0;k<2;k++) prog[i][k]=choose(4,"client step"); /* set, block set, get, new scene */ mc::split(); Env e; setup(e,2); e.sg2=mksg(1,100);
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); double z=0; e.h.push_back({W_,0,z,tick(),tick()}); }); vs::run(); (void)T;
    vs::spawn([&]{ aa_rx_win_run(); });
    for(int i=0;i<n;i++) vs::spawn([&,i]{ for(int k=0;k<2;k++) switch(prog[i][k]){ case 0: wset(e.win,1+2*i+k); break; case 1: bset(e.win,11+2*i+k); break; case 2: wget(e.win); break; case 3: { long a=tick(); aa_rx_win_set_sg(e.win,e.sg2); e.h.push_back({S_,vs::self(),1,a,tick()}); break; } } });
    vs::run(); mc::step(); CHECK(e.renders>0,"nothing displayed"); vs::spawn([&]{ wget(e.win); aa_rx_win_destroy(e.win); }); vs::run();
    CHECK(lin(e.h,0),"configurations set, displayed and read have no consistent order:%s",hist(e.h).c_str()); mc::nontrivial(mc::Hash()(prog[0][0])(prog[0][1])(prog[1][0])(prog[1][1])(e.frames)(vs::preemptions())); finish(e,true); }

static void camera(){ int prog[2][2]; for(int i=0;i<2;i++) for(int k=0;k<2;k++) prog[i][k]=choose(2,"set or get"); mc::split(); Env e; setup(e,mc::thorough()?3:2);
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); }); vs::run(); e.want_plan=true; e.h.clear(); vs::spawn([&]{ e.quit_frame=2; aa_rx_win_run(); });
    for(int i=0;i<2;i++) vs::spawn([&,i]{ for(int k=0;k<2;k++){ double T[7]={0,0,0,1,0,0,0}; long a=tick(); if(prog[i][k]){ aa_rx_win_get_tf_cam(e.win,T); CHECK(T[4]==T[5]&&T[4]==T[6],"camera pose is torn: %g %g %g",T[4],T[5],T[6]); E->h.push_back({G_,vs::self(),T[4],a,tick()}); } else { T[4]=T[5]=T[6]=1+2*i+k; aa_rx_win_set_tf_cam(e.win,T); E->h.push_back({W_,vs::self(),T[4],a,tick()}); } } });
    vs::run(); mc::step(); CHECK(lin(e.h,0),"camera poses set and read have no consistent order:%s",hist(e.h).c_str()); vs::spawn([&]{ aa_rx_win_destroy(e.win); }); vs::run(); mc::nontrivial(mc::Hash()(prog[0][0])(prog[0][1])(prog[1][0])(prog[1][1])(vs::preemptions())); finish(e,true); }

/* ---- display functions and their contexts ---- */
struct Cx { int id; int destroyed=0; int shown=0; int th=-1; };
static int show(struct aa_rx_win*w, void*x, struct aa_sdl_display_params*p){ Cx*c=(Cx*)x; (void)p; if(w!=E->win) mc::fail("display function called for another window"); if(c->destroyed) mc::fail("display context %d used after its destructor",c->id); vs::point("display"); if(c->destroyed) mc::fail("display context %d destroyed while in use",c->id); c->shown++; E->h.push_back({R_,vs::self(),(double)c->id,E->frame_a,tick()}); return 0; }
static void kill_cx(void*x){ Cx*c=(Cx*)x; c->destroyed++; vs::point("destructor"); if(c->destroyed>1) mc::fail("display context %d destroyed twice",c->id); }
static void displays(){ int n=1+choose(2,"clients"); int k=1+choose(2,"contexts per client"); int destr=choose(2,"destructor"); int dest=choose(2,"destroyed by a client"); mc::split(); Env e; setup(e,2); e.free_frames=3; Cx cx[6]; for(int i=0;i<6;i++) cx[i].id=i+1;
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_display(e.win,show,&cx[0],destr?kill_cx:NULL); e.h.push_back({W_,0,1,tick(),tick()}); }); vs::run();
    vs::spawn([&]{ aa_rx_win_run(); });
    for(int i=0;i<n;i++) vs::spawn([&,i]{ for(int j=0;j<k;j++){ Cx*c=&cx[1+2*i+j]; long a=tick(); aa_rx_win_set_display(e.win,show,c,destr?kill_cx:NULL); e.h.push_back({W_,vs::self(),(double)c->id,a,tick()}); } });
    vs::run(); mc::step(); (void)dest; CHECK(lin(e.h,0),"display functions set and called have no consistent order:%s",hist(e.h).c_str());
    vs::spawn([&]{ aa_rx_win_destroy(e.win); }); vs::run(); for(int i=0;i<6;i++){ bool used=i==0||((i-1)/2<n&&(i-1)%2<k); CHECK(cx[i].destroyed==(used&&destr?1:0),"destructor of display context %d called %d times",i+1,cx[i].destroyed); } mc::nontrivial(mc::Hash()(n)(k)(destr)(e.frames)(vs::preemptions())); finish(e,true); }

/* ---- creating, ending and restarting ---- */
static void life(){ bool T=mc::thorough(); int creators=1+choose(2,"creators"); int stopper=choose(4,"ended by"); int by_call=creators==2&&stopper==0?choose(2,"second creator uses a call"):0; /* 0 stop, 1 close, 2 close ignored then stop, 3 stop before the window runs */ int async=choose(2,"asynchronous"); int again=choose(2,"second window"); mc::split(); Env e; setup(e,T?(creators==1&&!again?3:2):again||(creators==2&&stopper==2)?1:2); struct aa_rx_win*w[2]={NULL,NULL}; if(stopper==1||stopper==2) e.quit_frame=1; int ran=0; bool sawoff=false; Call c{7}; c.kind=CREATE;
    auto spin=[&](int k){ struct aa_rx_win*x; while(!(x=e.win)) { vs::point("wait"); vs::relax(); } return x; (void)k; };
    vs::spawn([&]{ if(async) aa_rx_win_run_async(); else { aa_rx_win_run(); e.run_b=tick(); ran=1; } });
    vs::spawn([&]{ w[0]=aa_rx_win_default_create("a",40,20); if(w[0]){ if(stopper==2) { aa_rx_win_stop_on_quit(w[0],0); e.soq=tick(); } if(stopper==3) aa_rx_win_stop(w[0]); e.win=w[0]; } });
    if(creators==2) vs::spawn([&]{ if(by_call){ void*r=aa_rx_win_call(body,&c); CHECK(r==(void*)(intptr_t)8&&c.runs==1,"creating call returned %p",r); w[1]=(struct aa_rx_win*)c.res; c.done=true; } else { w[1]=aa_rx_win_default_create("b",40,20); } if(w[1]) { if(stopper==2) { aa_rx_win_stop_on_quit(w[1],0); e.soq=tick(); } e.win=w[1]; } });
    if(stopper==0||stopper==2) vs::spawn([&]{ struct aa_rx_win*x=spin(0); while(by_call&&!c.done) { vs::point("wait"); vs::relax(); } if(stopper==2) { while(e.frames<3 && aa_rx_win_is_running(x)) { vs::point("wait"); vs::relax(); } } e.stop_a=tick(); aa_rx_win_stop(x); CHECK(!aa_rx_win_is_running(x),"running after stop"); sawoff=true; });
    vs::run(); mc::step(); CHECK((w[0]!=NULL)+(w[1]!=NULL)==1,"%d windows created by %d creators",(w[0]!=NULL)+(w[1]!=NULL),creators); CHECK(e.windows==1,"%d windows opened",e.windows); CHECK(async||ran,"run did not return"); if(stopper==2&&!async&&e.closed>e.soq) CHECK(e.stop_a&&e.stop_a<e.run_b,"closing the window ended the display loop although that was turned off"); (void)sawoff;
    bool off=false; vs::spawn([&]{ off=!aa_rx_win_is_running(e.win); aa_rx_win_destroy(e.win); }); vs::run(); CHECK(off,"running after the display loop ended"); int f=e.frames; mc::nontrivial(mc::Hash()(creators)(by_call)(stopper)(async)(again)(f)(vs::preemptions())(w[0]!=NULL));
    if(again){ e.quit_frame=f+1; e.win=NULL; vs::spawn([&]{ e.win=aa_rx_win_default_create("c",40,20); CHECK(e.win,"no second window after the first was destroyed"); aa_rx_win_run(); aa_rx_win_destroy(e.win); }); vs::run(); CHECK(e.frames>f,"second window not displayed"); }
    finish(e,true); }
/* stop and destroy while the display thread runs */
static void destroy_running(){ int how=choose(3,"stop first, poll, destroy at once"); int user=choose(2,"another client"); mc::split(); Env e; setup(e,2); e.free_frames=1; 
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); aa_rx_win_run_async(); }); 
    struct aa_rx_win*w=NULL; vs::spawn([&]{ while(!(w=e.win)||e.frames<1) { vs::point("wait"); vs::relax(); } if(user) { double q=3; aa_rx_win_set_config(w,1,&q); } if(how<2) aa_rx_win_stop(w); if(how==1) while(aa_rx_win_is_running(w)) { vs::point("poll"); vs::relax(); } aa_rx_win_destroy(w); });
    vs::run(); mc::step(); mc::nontrivial(mc::Hash()(how)(user)(e.frames)(vs::preemptions())); finish(e,true); }
/* the user closes the window while calls are waiting */
static void pending(){ int n=1+choose(2,"clients"); int nest=choose(2,"kind"); mc::split(); Env e; setup(e,2); e.quit_frame=1; Call c[2]={{0},{1}}; c[0].kind=nest?NESTED:PLAIN; int after=0; std::vector<int> wait;
    e.on_frame=[&](int f){ if(f==1) for(int i=1;i<=n;i++) if(vs::waiting(i)) wait.push_back(i); };
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); aa_rx_win_set_sg(e.win,e.sg); aa_rx_win_run(); for(int i:wait) CHECK(c[i-1].runs==1,"call %d waited when the window was closed and was not answered",i-1); while(vs::others()) { after++; aa_rx_win_run(); vs::relax(); } });
    for(int i=0;i<n;i++) vs::spawn([&,i]{ client(&c[i],0); }); vs::run(); mc::step(); mc::nontrivial(mc::Hash()(n)(nest)(after)(e.frames)(vs::preemptions())(wait.size())); vs::spawn([&]{ aa_rx_win_destroy(e.win); }); vs::run(); finish(e,true); }

/* ---- what is displayed: plans at given times, workspace dragging ---- */
static void plan(){ bool T=mc::thorough(); int ns=choose(T?4:3,"plans"); int len[3]={0,0,0}; for(int i=0;i<ns;i++) len[i]=choose(T?4:3,"points"); int seq=ns!=1||choose(2,"as sequence"); int t0=choose(3,"first frame at"); int dts=choose(4,"frame distance"); int mid=choose(2,"set while displaying"); mc::split(); static const double T0[]={0,.3,7.95},DT[]={.1,.4,.8,1.1}; const double dt=.8;
    Env e; setup(e,0,2); e.want_plan=true; e.t=T0[t0]; int NF=16; e.times={DT[dts]}; e.quit_frame=NF-1; std::vector<std::vector<double>> pts[3]; int all=0; std::vector<double> flat[3]; for(int i=0;i<ns;i++) for(int k=0;k<len[i];k++){ double a=i*10+k+.5*k*k,b=-3*k+i; flat[i].push_back(a); flat[i].push_back(b); pts[i].push_back({a,b}); all++; }
    std::vector<std::vector<double>> got; std::vector<double> at; e.on_frame=[&](int f){ at.push_back(e.t); got.push_back(e.rendered?e.shown:std::vector<double>()); if(mid&&f==2){ } };
    struct aa_rx_mp_seq*sq=NULL; auto set=[&]{ if(seq){ sq=aa_rx_mp_seq_create(); for(int i=0;i<ns;i++) aa_rx_mp_seq_append_all(sq,e.sg,(size_t)len[i],flat[i].data()); aa_rx_win_set_display_seq(e.win,sq); } else { aa_rx_win_set_display_plan(e.win,e.sg,(size_t)len[0],flat[0].data()); std::fill(flat[0].begin(),flat[0].end(),77.); } };
    if(mid) e.on_frame=[&](int f){ at.push_back(e.t); got.push_back(e.rendered?e.shown:std::vector<double>()); if(f==2) set(); };
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); if(mid){ aa_rx_win_set_sg(e.win,e.sg); } else set(); aa_rx_win_run(); aa_rx_win_destroy(e.win); }); vs::run(); if(sq) aa_rx_mp_seq_destroy(sq);
    double start=at[0]; bool began=!mid; for(size_t f=mid?3:1;f<at.size();f++){ mc::step(); if(!all){ CHECK(got[f].empty(),"frame %zu: an empty plan displays something",f); continue; } if(!began){ start=at[f]; began=true; }
        double t=at[f]-start, eps=1e-6; CHECK(got[f].size()==3,"frame %zu: nothing displayed",f); bool ok=false; std::string ex; /* the frame's place in the plan, either side of a boundary */
        for(int s=-1;s<=1;s++){ double u=t+s*eps; if(u<0) continue; long i=(long)floor(u/dt); bool reset=i>=all; if(reset) i=0; double fr=reset?0:u/dt-(double)i; int p=0; long o=i; while(o>=len[p]) o-=len[p++]; std::vector<double> a=pts[p][(size_t)o],b=o+1<len[p]?pts[p][(size_t)o+1]:a; bool m=true; for(int k=0;k<2;k++) if(fabs(got[f][k]-(a[k]+fr*(b[k]-a[k])))>1e-4) m=false; if(m){ ok=true; if(reset) start=at[f]; break; } char bb[60]; snprintf(bb,60," (%g,%g)",a[0]+fr*(b[0]-a[0]),a[1]+fr*(b[1]-a[1])); ex+=bb; }
        CHECK(ok,"frame %zu, %.3f s into the plan: displayed (%g,%g), expected%s",f,t,got[f][0],got[f][1],ex.c_str()); }
    mc::nontrivial(mc::Hash()(ns)(len[0])(len[1])(len[2])(seq)(t0)(dts)(mid)); finish(e,true); }
static void drag(){ bool T=mc::thorough(); int NF=T?5:4; int cmd[5]; for(int i=0;i<NF;i++) cmd[i]=choose(T?5:4,"pointer"); int lim=choose(2,"limits"); int sub=choose(2,"set while displaying"); mc::split(); static const double DX[5][6]={{0},{1,0,0,0,0,0},{0,.6,0,0,0,0},{0,-.5,1,0,0,0},{-1,0,-1,0,0,0}}; Env e; E=&e; vs::begin(0,vs::SYNC); 
    struct aa_rx_sg*sg; { double q0[4]={0,0,0,1}; static const double ax[3][3]={{1,0,0},{0,1,0},{0,0,1}}; sg=aa_rx_sg_create(); const char*nm[]={"x","y","z"},*cn[]={"qx","qy","qz"}; for(int i=0;i<3;i++){ aa_rx_sg_add_frame_prismatic(sg,i?nm[i-1]:"",nm[i],q0,NULL,cn[i],ax[i],0); aa_rx_sg_set_limit_pos(sg,cn[i],lim?-.08:-10,lim?.08:10); } aa_rx_sg_init(sg); } e.sg=sg; e.sub=aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"z")); e.quit_frame=NF-1; e.want_plan=true;
    double x[3]={0,0,0}; int f0=0; bool on=false; std::vector<std::vector<double>> want,got; const double dt=.1; auto input=[&](int c){ aa_sdl_dx(DX[c],c!=0); };
    e.on_frame=[&](int f){ got.push_back(e.rendered?e.shown:std::vector<double>()); if(f+1<NF) input(cmd[f+1]); (void)f0; };
    vs::spawn([&]{ e.win=aa_rx_win_default_create("w",40,20); input(cmd[0]); aa_rx_win_set_sg_sub(e.win,e.sub); (void)sub; aa_rx_win_run(); double q[3]; aa_rx_win_get_config(e.win,3,q); got.push_back({q[0],q[1],q[2]}); aa_rx_win_destroy(e.win); double z[6]={0}; aa_sdl_dx(z,0); }); vs::run(); (void)on;
    for(int f=0;f<NF;f++){ mc::step(); if(cmd[f]){ const double*d=DX[cmd[f]]; double v[3]={.5*d[2],-.5*d[0],.5*d[1]}; for(int k=0;k<3;k++) { x[k]+=dt*v[k]; } }
        CHECK(got[(size_t)f].size()==3,"frame %d: nothing displayed",f); for(int k=0;k<3;k++){ double g=got[(size_t)f][(size_t)k]; CHECK(g==g,"frame %d: not a number",f); if(!lim) CHECK(fabs(g-x[k])<2e-3*(1+f),"frame %d axis %d: dragged to %g, pointer moved to %g",f,k,g,x[k]); else { double last=f?got[(size_t)f-1][(size_t)k]:0; CHECK(fabs(g)<.08+.1,"frame %d axis %d: %g far outside of the limits",f,k,g); if(fabs(last)>=.08) CHECK(fabs(g)<=fabs(last)+1e-12,"frame %d axis %d: moved from %g to %g beyond the limit",f,k,last,g); } } }
    mc::nontrivial(mc::Hash()(lim)(cmd[0])(cmd[1])(cmd[2])(cmd[3])); finish(e,true); }
int main(int c,char**v){ return mc::run(c,v,"C30",{{"calls",calls},{"updates",updates},{"camera",camera},{"displays",displays},{"life",life},{"destroy running",destroy_running},{"pending calls",pending},{"plan",plan},{"drag",drag}}); }
