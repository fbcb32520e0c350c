// Reference-counted geometry under every schedule.
// VARIANT: sched
// LIBS: nolib
// EXTRA: vsched.cpp?-std=c++17 @REPO@/src/refcount.c?CLANG @REPO@/src/rx/scene_geom.c?CLANG @REPO@/src/rx/geom_opt.c?CLANG
#include "vsched.hpp"
#include "amino.h"
#include "amino/mem.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_geom_internal.h"
#include <unistd.h>

extern "C" {
/* the atomic versions are not declared for C++ */
unsigned aa_mem_ref_inc_atomic(unsigned *);
unsigned aa_mem_ref_dec_atomic(unsigned *);
extern void (*aa_gl_buffers_destroy_fun)( struct aa_gl_buffers * );
extern void (*aa_rx_cl_geom_destroy_fun)( struct aa_rx_cl_geom * );
/* referenced by scene_geom.c, not used here */
void aa_rx_sg_add_geom(struct aa_rx_sg*, const char*, struct aa_rx_geom*) { abort(); }
}
using mc::choose; using mc::fail;

static vs::Gran G; static int PB;
static int cl_destroyed, mesh_destroyed;
static void on_cl(struct aa_rx_cl_geom *) { vs::point("collision object destructor"); cl_destroyed++; }
static void on_mesh(void *ctx) { vs::point("mesh destructor"); (*(int*)ctx)++; }

static void mode() {
    int m = choose(3,"granularity");
    if( m == 0 ) { G=vs::ACCESS; PB = mc::thorough()?4:2; }
    else if( m==1 ) { G=vs::SYNC; PB = mc::thorough()?100:3; }
    else { G=vs::ACCESS; PB=0; }
}

/* ---- raw counters ---- */
static void sp_counter() {
    bool mtx = choose(2,"mutex");
    int nt = 2+choose(2,"threads");
    unsigned start = (unsigned)mc::pick({0u,1u,3u},"start");
    /* per thread: a sequence of inc(1)/dec(0) */
    int ops[3][3]; int nops = nt==2 ? 3 : 2;
    for( int t=0;t<nt;t++ ) for( int i=0;i<nops;i++ ) ops[t][i]=choose(2,"inc");
    mc::split();
    vs::begin( mc::thorough()? 100 : (nt==2?100:2), vs::ACCESS);
    static unsigned cnt; cnt = start+8;
    std::vector<unsigned> seen; int inc=0,dec=0;
    std::vector<std::pair<bool,unsigned>> hist;
    for( int t=0;t<nt;t++ ) vs::spawn([&,t]{
        for( int i=0;i<nops;i++ ) {
            unsigned r = ops[t][i] ? (mtx?aa_mem_ref_inc_mutex(&cnt):aa_mem_ref_inc_atomic(&cnt))
                                   : (mtx?aa_mem_ref_dec_mutex(&cnt):aa_mem_ref_dec_atomic(&cnt));
            hist.push_back({ops[t][i]!=0,r});
        }
    });
    vs::run();
    for( auto &h : hist ) (h.first?inc:dec)++;
    CHECK( cnt == start+8+(unsigned)inc-(unsigned)dec, "count %u after %d increments and %d decrements of %u", cnt, inc, dec, start+8);
    /* the returned values must be explained by one order of the updates:
       follow the chain of values (Eulerian trail over +-1 edges) */
    std::function<bool(unsigned,unsigned)> ok = [&](unsigned v, unsigned used)->bool {
        if( used+1 == (1u<<hist.size()) ) return true;
        for( size_t i=0;i<hist.size();i++ ) if( !(used>>i&1) && hist[i].second==v )
            if( ok(hist[i].first?v+1:v-1, used|1u<<i) ) return true;
        return false;
    };
    CHECK( ok(start+8,0), "returned previous counts are not explained by any order of the updates" );
    vs::end();
}

static struct aa_rx_geom *mkgeom(int kind, struct aa_rx_mesh *m) {
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    double d3[3]={1,2,3}, d2[2]={1,2};
    struct aa_rx_geom *g=nullptr;
    switch(kind) {
    case 0: g=aa_rx_geom_box(o,d3); break;
    case 1: g=aa_rx_geom_sphere(o,2); break;
    case 2: g=aa_rx_geom_cylinder(o,1,2); break;
    case 3: g=aa_rx_geom_cone(o,1,2,3); break;
    case 4: g=aa_rx_geom_grid(o,d2,d2,1); break;
    case 5: g=aa_rx_geom_torus(o,1,2,3); break;
    default: g=aa_rx_geom_mesh(o,m); break;
    }
    aa_rx_geom_opt_destroy(o);
    return g;
}
static void use(struct aa_rx_geom *g) {
    enum aa_rx_geom_shape ty;
    (void)aa_rx_geom_shape(g,&ty);
    (void)aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(g));
}

/* ---- a geometry shared by several threads ---- */
static void sp_geom() {
    mode();
    int kind = choose(7,"shape");
    int nt = 2+choose(2,"threads");
    bool cl = choose(2,"has collision object");
    /* program of each thread, which starts with one reference:
       0: destroy   1: use, destroy   2: copy, destroy, use, destroy   3: copy, use both, destroy both */
    int prog[3]; for( int t=0;t<nt;t++ ) prog[t]=choose(4,"program");
    for( int t=1;t<nt;t++ ) if( prog[t]<prog[t-1] ) mc::skip();   /* threads are symmetric */
    mc::split();
    if( nt==3 && G==vs::ACCESS && PB>0 && !mc::thorough() && prog[1] ) mc::skip();
    vs::begin(PB,G);
    cl_destroyed=mesh_destroyed=0;
    int md=0;
    aa_rx_cl_geom_destroy_fun = on_cl;
    struct aa_rx_mesh *m = nullptr;
    if( kind==6 ) {
        m = aa_rx_mesh_create();
        float v[9]={0,0,0,1,0,0,0,1,0}; unsigned ix[3]={0,1,2};
        aa_rx_mesh_set_vertices(m,3,v,1); aa_rx_mesh_set_indices(m,1,ix,1); aa_rx_mesh_set_normals(m,3,v,1);
        m->destructor=on_mesh; m->destructor_context=&md;
    }
    struct aa_rx_geom *g = mkgeom(kind,m);
    if( cl ) aa_rx_geom_set_collision(g,(struct aa_rx_cl_geom*)0x10);
    if( m ) aa_rx_mesh_destroy(m);     /* the geometry holds the only reference */
    for( int t=1;t<nt;t++ ) { struct aa_rx_geom *c=aa_rx_geom_copy(g); CHECK(c==g,"copy is not a reference"); }
    CHECK( aa_rx_geom_refcount(g)==(unsigned)nt, "refcount %u, expected %d", aa_rx_geom_refcount(g), nt);
    int left = nt;       /* references held */
    for( int t=0;t<nt;t++ ) vs::spawn([&,t]{
        if( prog[t]==1 ) use(g);
        if( prog[t]==2 ) { left++; struct aa_rx_geom *c=aa_rx_geom_copy(g); left--; aa_rx_geom_destroy(g); use(c); }
        if( prog[t]==3 ) { left++; struct aa_rx_geom *c=aa_rx_geom_copy(g); use(g); use(c); left--; aa_rx_geom_destroy(c); }
        CHECK( vs::is_live(g), "geometry freed while thread %d holds it", t );
        CHECK( cl_destroyed==0, "collision object destroyed while the geometry is held");
        CHECK( md==0, "mesh destroyed while its geometry is held");
        left--;
        aa_rx_geom_destroy(g);
    });
    vs::run();
    CHECK( !vs::is_live(g), "geometry not freed after its last reference was dropped");
    CHECK( cl_destroyed==(cl?1:0), "collision object destroyed %d times", cl_destroyed);
    CHECK( md==(m?1:0), "mesh destructor called %d times", md);
    CHECK( vs::live_blocks()==0, "%zu heap blocks leaked", vs::live_blocks());
    mc::nontrivial(mc::Hash()(kind)(nt)(cl)(prog[0])(prog[1])(G)(vs::preemptions()));
    vs::end();
}

/* ---- a mesh shared by several geometries, released by several threads ---- */
static void sp_mesh() {
    mode();
    int nt = 2+choose(2,"threads");
    /* 0: own geometry on the mesh, destroy   1: plain mesh reference (via its creator), destroyed
       2: modify_opt of own geometry, destroy old then new  3: make a second geometry of the mesh, destroy both */
    int prog[3]; for( int t=0;t<nt;t++ ) prog[t]=choose(4,"program");
    mc::split();
    int creators=0; for( int t=0;t<nt;t++ ) creators += prog[t]==1;
    if( creators > 1 ) mc::skip();
    if( nt==3 && G==vs::ACCESS && PB>0 && !mc::thorough() && prog[1]>1 ) mc::skip();
    vs::begin(PB,G);
    int md=0;
    aa_rx_cl_geom_destroy_fun = on_cl; cl_destroyed=0;
    struct aa_rx_mesh *m = aa_rx_mesh_create();
    float v[9]={0,0,0,1,0,0,0,1,0}; unsigned ix[3]={0,1,2};
    aa_rx_mesh_set_vertices(m,3,v,1); aa_rx_mesh_set_indices(m,1,ix,0);
    m->destructor=on_mesh; m->destructor_context=&md;
    struct aa_rx_geom *g[3];
    for( int t=0;t<nt;t++ ) g[t] = prog[t]==1 ? nullptr : mkgeom(6,m);
    if( !creators ) aa_rx_mesh_destroy(m);
    for( int t=0;t<nt;t++ ) vs::spawn([&,t]{
        auto held = [&]{ CHECK(md==0 && vs::is_live(m),"mesh destroyed while thread %d holds it",t);
                         size_t n; const float *p=aa_rx_mesh_get_vertices(m,&n); CHECK(n==3 && vs::is_live(p),"mesh data gone while held"); };
        switch(prog[t]) {
        case 0: held(); aa_rx_geom_destroy(g[t]); break;
        case 1: held(); aa_rx_mesh_destroy(m); break;
        case 2: { struct aa_rx_geom_opt *o=aa_rx_geom_opt_create(); aa_rx_geom_opt_set_scale(o,3);
                  struct aa_rx_geom *h=aa_rx_geom_modify_opt(g[t],o); aa_rx_geom_opt_destroy(o);
                  aa_rx_geom_destroy(g[t]); held(); use(h); aa_rx_geom_destroy(h); break; }
        case 3: { struct aa_rx_geom *h=mkgeom(6,m); aa_rx_geom_destroy(g[t]); held(); aa_rx_geom_destroy(h); break; }
        }
    });
    vs::run();
    CHECK( md==1, "mesh destructor called %d times", md);
    CHECK( !vs::is_live(m), "mesh not freed");
    CHECK( vs::live_blocks()==0, "%zu heap blocks leaked", vs::live_blocks());
    mc::nontrivial(mc::Hash()(nt)(prog[0])(prog[1])(G)(vs::preemptions()));
    vs::end();
}

/* ---- single-threaded histories: every sequence of operations ---- */
static void sp_hist() {
    const int D = mc::thorough()?7:5;
    vs::begin(0,vs::SYNC);
    struct aa_rx_mesh *m=nullptr; int mref=0, mown=0, md=0; bool ever=false;
    struct G1 { struct aa_rx_geom *g; int ref; int kind; double scale; };
    std::vector<G1> gs; static const float v[9]={0,0,0,1,0,0,0,1,0}; static const unsigned ix[3]={0,1,2}; static const uint8_t px[4]={1,2,3,4};
    bool texset=false;
    for( int i=0;i<D;i++ ) {
        int op=choose(10,"op"); if( i==2 ) mc::split();
        size_t k = gs.size()? (size_t)choose((int)gs.size(),"geom"):0;
        mc::step();
        switch(op) {
        case 0: if( ever ) mc::skip(); ever=true; m=aa_rx_mesh_create(); mref=1; mown=1; m->destructor=on_mesh; m->destructor_context=&md; break;
        case 1: if( !mref || gs.size()>=3 ) mc::skip(); gs.push_back({mkgeom(6,m),1,6,1}); mref++; break;
        case 2: if( gs.size()>=3 ) mc::skip(); gs.push_back({mkgeom(i%6,nullptr),1,i%6,1}); break;
        case 3: if( gs.empty() ) mc::skip(); if( !gs[k].ref ) mc::skip(); REQUIRE( aa_rx_geom_copy(gs[k].g)==gs[k].g ); gs[k].ref++; break;
        case 4: if( gs.empty() || !gs[k].ref ) mc::skip();
            aa_rx_geom_destroy(gs[k].g); if( --gs[k].ref==0 && gs[k].kind==6 ) mref--; break;
        case 5: if( !mown ) mc::skip(); aa_rx_mesh_destroy(m); mown=0; mref--; break;
        case 6: { if( gs.empty() || !gs[k].ref || gs.size()>=3 ) mc::skip();
            struct aa_rx_geom_opt *o=aa_rx_geom_opt_create(); aa_rx_geom_opt_set_scale(o,2+i); aa_rx_geom_opt_set_collision(o,i%2);
            struct aa_rx_geom *h=aa_rx_geom_modify_opt(gs[k].g,o); aa_rx_geom_opt_destroy(o);
            CHECK(h!=gs[k].g && aa_rx_geom_refcount(h)==1,"modify_opt did not create a new geometry");
            CHECK(aa_rx_geom_opt_get_collision(aa_rx_geom_get_opt(h))==i%2,"options lost");
            gs.push_back({h,1,gs[k].kind,2.0+i}); if( gs[k].kind==6 ) mref++; break; }
        case 7: if( !mref ) mc::skip(); aa_rx_mesh_set_vertices(m,3,v,choose(2,"copy")); break;
        case 8: { if( !mref ) mc::skip(); int w=choose(4,"what"), c=choose(2,"copy");
            if(w==0) aa_rx_mesh_set_normals(m,3,v,c); if(w==1) aa_rx_mesh_set_indices(m,1,ix,c);
            if(w==2) aa_rx_mesh_set_rgba(m,1,1,px,c); if(w==3) aa_rx_mesh_set_uv(m,3,v,c); break; }
        case 9: { if( !mref ) mc::skip(); struct aa_rx_geom_opt *o=aa_rx_geom_opt_create(); aa_rx_mesh_set_texture(m,o); aa_rx_geom_opt_destroy(o); texset=true; break; }
        }
        if( ever ) {
            CHECK( md==(mref?0:1), "mesh destructor called %d times with %d references left", md, mref);
            CHECK( vs::is_live(m)==(mref>0), "mesh %s with %d references", mref?"freed":"not freed", mref);
            if( mref ) CHECK( aa_rx_mesh_refcount(m)==(unsigned)mref, "mesh count %u, %d references", aa_rx_mesh_refcount(m), mref);
        }
        for( auto &g : gs ) {
            CHECK( vs::is_live(g.g)==(g.ref>0), "geometry %s with %d references", g.ref?"freed":"not freed", g.ref);
            if( g.ref ) {
                CHECK( aa_rx_geom_refcount(g.g)==(unsigned)g.ref, "geometry count %u, %d references", aa_rx_geom_refcount(g.g), g.ref);
                enum aa_rx_geom_shape ty; void *s=aa_rx_geom_shape(g.g,&ty);
                static const enum aa_rx_geom_shape tys[]={AA_RX_BOX,AA_RX_SPHERE,AA_RX_CYLINDER,AA_RX_CONE,AA_RX_GRID,AA_RX_TORUS,AA_RX_MESH};
                CHECK( ty==tys[g.kind], "shape type changed");
                CHECK( aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(g.g))==g.scale, "options changed");
                const double *d=(const double*)s;
                static const int nd[]={3,1,2,3,5,3,0};
                if( g.kind==6 ) CHECK( s==m, "mesh of geometry changed");
                (void)d; (void)nd;
            }
        }
        mc::state(mc::Hash()(mref)(mown)(gs.size())(op)(i)(gs.size()?gs[k].ref:0));
    }
    for( auto &g : gs ) while( g.ref ) { aa_rx_geom_destroy(g.g); g.ref--; if(!g.ref && g.kind==6) mref--; }
    if( mown ) { aa_rx_mesh_destroy(m); mref--; }
    CHECK( vs::live_blocks()==0, "%zu heap blocks leaked after the last reference", vs::live_blocks());
    if( ever ) CHECK( md==1, "mesh destructor called %d times", md);
    (void)texset;
    vs::end();
}
/* shape parameters survive modify_opt */
static void sp_shape() {
    int kind=choose(6,"shape"); mc::split();
    vs::begin(0,vs::SYNC);
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create();
    double a=mc::pick({.5,2.,7.}), b=mc::pick({.25,3.}), c=mc::pick({1.5,4.}), d3[3]={a,b,c}, d2[2]={a,b}, e2[2]={c,a*b};
    struct aa_rx_geom *g=nullptr;
    switch(kind){ case 0:g=aa_rx_geom_box(o,d3);break; case 1:g=aa_rx_geom_sphere(o,a);break; case 2:g=aa_rx_geom_cylinder(o,a,b);break;
      case 3:g=aa_rx_geom_cone(o,a,b,c);break; case 4:g=aa_rx_geom_grid(o,d2,e2,c);break; case 5:g=aa_rx_geom_torus(o,a,b,c);break; }
    aa_rx_geom_opt_set_scale(o,9);
    struct aa_rx_geom *h=aa_rx_geom_modify_opt(g,o); aa_rx_geom_opt_destroy(o);
    for( int i=0;i<2;i++ ) {
        struct aa_rx_geom *x = i?h:g; enum aa_rx_geom_shape ty; void *s=aa_rx_geom_shape(x,&ty); mc::step();
        CHECK( aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(x))==(i?9:1),"scale");
        switch(kind){
        case 0:{auto*p=(struct aa_rx_shape_box*)s; CHECK(p->dimension[0]==a&&p->dimension[1]==b&&p->dimension[2]==c,"box dimensions");break;}
        case 1:{auto*p=(struct aa_rx_shape_sphere*)s; CHECK(p->radius==a,"radius");break;}
        case 2:{auto*p=(struct aa_rx_shape_cylinder*)s; CHECK(p->height==a&&p->radius==b,"cylinder");break;}
        case 3:{auto*p=(struct aa_rx_shape_cone*)s; CHECK(p->height==a&&p->start_radius==b&&p->end_radius==c,"cone");break;}
        case 4:{auto*p=(struct aa_rx_shape_grid*)s; CHECK(p->dimension[0]==a&&p->dimension[1]==b&&p->delta[0]==c&&p->delta[1]==a*b&&p->width==c,"grid");break;}
        case 5:{auto*p=(struct aa_rx_shape_torus*)s; CHECK(p->angle==a&&p->major_radius==b&&p->minor_radius==c,"torus");break;}
        }
    }
    aa_rx_geom_destroy(g); aa_rx_geom_destroy(h);
    CHECK( vs::live_blocks()==0,"leak");
    vs::end();
}
int main(int argc,char **argv) {
    return mc::run(argc,argv,"C03",{ {"counter",sp_counter},{"geom",sp_geom},{"mesh",sp_mesh},{"history",sp_hist},{"shape",sp_shape} });
}
