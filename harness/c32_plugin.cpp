// Compiled scenes and meshes: every sequence of loading, copying, attaching and destroying, up to a depth; which plugins are mapped after each step.
// LIBS: collision plugins
#include "mc.hpp"
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_geom_internal.h"
#include "amino/rx/scene_plugin.h"
#include "amino/rx/scene_collision.h"
#include <dlfcn.h>
#include <unistd.h>
#include <map>
#include <set>
using mc::choose;
typedef std::string S;

static S dir() {
    char b[4096]; ssize_t n = readlink("/proc/self/exe",b,sizeof(b)-1); b[n<0?0:n] = 0;
    S s(b); s = s.substr(0,s.rfind('/')); return s.substr(0,s.rfind('/'))+"/";
}
static S path(int p) { return dir()+(p?"plugin-b.so":"plugin-a.so"); }
static bool mapped(int p) { void *h = dlopen(path(p).c_str(),RTLD_LAZY|RTLD_NOLOAD); if(h) dlclose(h); return h!=NULL; }
static const float V0[2] = {1.5f,-2.25f};

static void mesh_is(const struct aa_rx_mesh *m, int p, const char *where) {
    const float V = V0[p], n[9] = {0,0,1,0,1,0,1,0,0};
    CHECK(m->n_vertices==3 && m->n_indices==1 && m->width_rgba==1 && m->height_rgba==1,"mesh of %s has the wrong size",where);
    for(int i=0;i<9;i++) CHECK(m->vertices[i]==(i%4==0?V:0) && m->normals[i]==n[i],"mesh of %s: vertex data %d",where,i);
    for(unsigned i=0;i<3;i++) CHECK(m->indices[i]==i && m->uv[2*i]==.25f && m->uv[2*i+1]==.5f,"mesh of %s: index %u",where,i);
    for(int i=0;i<4;i++) CHECK(m->rgba[i]==10*(i+1),"mesh of %s: colour %d",where,i);
}

struct Graph {
    struct aa_rx_sg *sg = NULL;
    std::map<S,S> parent;                       // frames
    std::multiset<std::pair<S,int>> geoms;      // frame, plugin of the mesh
    std::set<int> uses;                         // plugins whose functions made something in here
    std::set<int> attached;                     // meshes loaded on their own and attached here
};
struct MeshSlot { struct aa_rx_mesh *m = NULL; int p = 0; bool held = false; };

struct World {
    Graph g[2]; MeshSlot m[1]; int nm = 0;
    ~World() { for(Graph &x : g) if( x.sg ) aa_rx_sg_destroy(x.sg); if( m[0].held ) aa_rx_mesh_destroy(m[0].m); }
};
static std::multiset<std::pair<S,int>> seen;
static const struct aa_rx_sg *seen_sg;
static void see(void *, aa_rx_frame_id f, struct aa_rx_geom *g) {
    enum aa_rx_geom_shape t; void *s = aa_rx_geom_shape(g,&t);
    S n = aa_rx_sg_frame_name(seen_sg,f);
    CHECK(t==AA_RX_MESH,"geometry of %s is not a mesh",n.c_str());
    const struct aa_rx_mesh *m = (const struct aa_rx_mesh*)s;
    int p = m->vertices[0]==V0[0]?0:1;
    mesh_is(m,p,n.c_str());
    seen.insert({n,p});
}
static void verify(World &w, const char *what) {
    std::set<int> used;
    for(Graph &g : w.g) if( g.sg ) {
        used.insert(g.uses.begin(),g.uses.end()); used.insert(g.attached.begin(),g.attached.end());
        CHECK(aa_rx_sg_init(g.sg)==0,"%s: scene does not initialize",what);
        CHECK(aa_rx_sg_frame_count(g.sg)==g.parent.size(),"%s: %zu frames, expected %zu",what,aa_rx_sg_frame_count(g.sg),g.parent.size());
        size_t nq = 0;
        for(auto &f : g.parent) {
            aa_rx_frame_id i = aa_rx_sg_frame_id(g.sg,f.first.c_str()); CHECK(i>=0,"%s: no frame %s",what,f.first.c_str());
            aa_rx_frame_id j = aa_rx_sg_frame_parent(g.sg,i);
            S pn = j==AA_RX_FRAME_ROOT ? "" : aa_rx_sg_frame_name(g.sg,j);
            CHECK(pn==f.second,"%s: parent of %s is '%s', expected '%s'",what,f.first.c_str(),pn.c_str(),f.second.c_str());
            if( f.first=="a0"||f.first=="b0" ) {
                nq++; int p = f.first=="b0"; double lo,hi; aa_rx_config_id c = aa_rx_sg_config_id(g.sg,p?"bq":"aq");
                CHECK(c>=0 && aa_rx_sg_get_limit_pos(g.sg,c,&lo,&hi)==0 && lo==-1 && hi==V0[p]*V0[p],"%s: limits",what);
            }
            if( f.first!="r" ) { double E[7]; int p = f.first[0]=='b'; std::vector<double> q(2,0.), R(7*g.parent.size()), A(7*g.parent.size());
                aa_rx_sg_tf(g.sg,aa_rx_sg_config_count(g.sg),q.data(),g.parent.size(),R.data(),7,A.data(),7); memcpy(E,&R[7*i],sizeof E);
                CHECK(E[4]==V0[p]&&E[5]==2&&E[6]==3,"%s: pose of %s",what,f.first.c_str()); }
        }
        CHECK(aa_rx_sg_config_count(g.sg)==nq,"%s: %zu variables, expected %zu",what,aa_rx_sg_config_count(g.sg),nq);
        seen.clear(); seen_sg = g.sg; aa_rx_sg_map_geom(g.sg,see,NULL);
        CHECK(seen==g.geoms,"%s: %zu geometries, expected %zu",what,seen.size(),g.geoms.size());
    }
    for(MeshSlot &m : w.m) if( m.held ) { used.insert(m.p); mesh_is(m.m,m.p,"a held mesh"); }
    for(int p=0;p<2;p++) CHECK(mapped(p)==(used.count(p)>0),"%s: plugin %s is %s although it is %s use",what,p?"b":"a",mapped(p)?"loaded":"not loaded",used.count(p)?"in":"not in");
    mc::Hash h; for(Graph &g : w.g) { h(g.sg!=NULL); for(auto &f : g.parent) h.str(f.first).str(f.second); for(auto &x : g.geoms) h.str(x.first)(x.second); for(int u : g.uses) h(u); for(int u : g.attached) h(u+10); }
    for(MeshSlot &m : w.m) h(m.held)(m.p); mc::state(h);
}
static void run(int depth) {
    World w; S log = "at the start"; verify(w,log.c_str()); int did = 0;
    for(int d=0;d<depth;d++) {
        int op = choose(7,"operation"); if( d==1 ) mc::split();
        mc::step();
        if( op==6 ) break;
        if( op==0 ) {                                           /* load a scene */
            int p = choose(2,"plugin"), hand = choose(2,"scene"), k = choose(2,"graph"); Graph &g = w.g[k];
            if( k==1 && !w.g[0].sg && !w.g[1].sg ) mc::skip();  /* the slots are symmetric */
            S root = ""; bool at = false;
            if( g.sg ) { std::vector<S> r(1,""); for(auto &f : g.parent) r.push_back(f.first); root = r[choose((int)r.size(),"root")]; at = true; }
            S P = p?"b":"a", made = hand?P+"h":P+"0";
            for(S f=root;f!="";f=g.parent[f]) if( f==made || f==P+"1" ) mc::skip();      /* below itself */
            if( !at ) at = choose(2,"form");
            struct aa_rx_sg *r = !at||(root==""&&choose(2,"form")) ? aa_rx_dl_sg(path(p).c_str(),hand?"hand":"arm",g.sg) : aa_rx_dl_sg_at(path(p).c_str(),hand?"hand":"arm",g.sg,root.c_str());
            CHECK(r!=NULL,"loading a scene fails"); CHECK(!g.sg||r==g.sg,"loading into a graph gives another graph");
            g.sg = r; g.uses.insert(p);
            auto put = [&](S f,S q){ g.parent[f] = q; for(auto i=g.geoms.begin();i!=g.geoms.end();) if(i->first==f) i = g.geoms.erase(i); else ++i; };
            if( hand ) { put(P+"h",root); g.geoms.insert({P+"h",p}); }
            else { put(P+"0",root); put(P+"1",P+"0"); g.geoms.insert({P+"1",p}); }
            log = "after loading "+S(hand?"hand":"arm")+" of "+P; did++;
        } else if( op==1 ) {                                    /* loading fails */
            int k = choose(2,"graph"), why = choose(3,"reason"), mesh = choose(2,"mesh"); if( mesh&&k ) mc::skip();
            S f = why==0 ? dir()+"no-such-plugin.so" : why==1 ? path(0) : path(1), n = "absent";
            if( mesh ) CHECK(!aa_rx_dl_mesh(f.c_str(),n.c_str()),"loading an absent mesh returns something");
            else CHECK(!aa_rx_dl_sg(f.c_str(),n.c_str(),w.g[k].sg),"loading an absent scene returns something");
            log = "after a failing load";
        } else if( op==2 ) {                                    /* copy */
            int k = choose(2,"graph"); if( !w.g[k].sg || w.g[1-k].sg ) mc::skip();
            CHECK(aa_rx_sg_init(w.g[k].sg)==0,"init"); w.g[1-k] = w.g[k]; w.g[1-k].sg = aa_rx_sg_copy(w.g[k].sg); CHECK(w.g[1-k].sg,"copy"); log = "after copying"; did++;
        } else if( op==3 ) {                                    /* destroy */
            int k = choose(2,"graph"); if( !w.g[k].sg ) mc::skip();
            aa_rx_sg_destroy(w.g[k].sg); w.g[k] = Graph(); log = "after destroying a scene";
        } else if( op==4 ) {                                    /* a mesh on its own */
            MeshSlot &m = w.m[0];
            if( m.held ) { aa_rx_mesh_destroy(m.m); m = MeshSlot(); log = "after destroying a mesh"; }
            else { m.p = choose(2,"plugin"); m.m = aa_rx_dl_mesh(path(m.p).c_str(),"body"); CHECK(m.m,"loading a mesh fails"); m.held = true; log = "after loading a mesh"; did++; }
        } else {                                                /* attach the mesh to a new frame, or use collision objects */
            int k = choose(2,"graph"); Graph &g = w.g[k]; if( !g.sg ) mc::skip();
            if( choose(2,"collision") ) { CHECK(aa_rx_sg_init(g.sg)==0,"init"); aa_rx_sg_cl_init(g.sg); struct aa_rx_cl *cl = aa_rx_cl_create(g.sg); aa_rx_cl_destroy(cl); log = "after making collision objects"; }
            else {
                if( !w.m[0].held ) mc::skip();
                g.parent["r"] = ""; aa_rx_sg_add_frame_fixed(g.sg,"","r",NULL,NULL); for(auto i=g.geoms.begin();i!=g.geoms.end();) if(i->first=="r") i = g.geoms.erase(i); else ++i;
                struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_attach(g.sg,"r",aa_rx_geom_mesh(o,w.m[0].m)); aa_rx_geom_opt_destroy(o);
                g.geoms.insert({"r",w.m[0].p}); g.attached.clear(); g.attached.insert(w.m[0].p); log = "after attaching a mesh";
            }
        }
        verify(w,log.c_str());
    }
    int first = choose(2,"destroyed first");
    for(int i=0;i<2;i++) { Graph &g = w.g[i^first]; if( g.sg ) { aa_rx_sg_destroy(g.sg); g = Graph(); verify(w,"after destroying a scene at the end"); } }
    if( w.m[0].held ) { aa_rx_mesh_destroy(w.m[0].m); w.m[0] = MeshSlot(); verify(w,"after destroying the mesh at the end"); }
    if( did>1 ) mc::nontrivial(mc::Hash().str(log)(did)(first));
}
static void sp_plugins() { run(mc::thorough()?4:3); }

/* error texts: every combination of the defined bits */
static void sp_err() {
    int e = choose(32,"error"); mc::split(); static const char *T[] = {"no_solution","no_inverse_kinematics","no_motion_plan","invalid_frame","invalid_parameter"};
    const int C[] = {AA_RX_NO_SOLUTION,AA_RX_NO_IK,AA_RX_NO_MP,AA_RX_INVALID_FRAME,AA_RX_INVALID_PARAMETER}; int code = 0; S want; for(int i=0;i<5;i++) if( e>>i&1 ) { code |= C[i]; want += (want.empty()?"":":")+S(T[i]); }
    if( !e ) { want = "OK"; CHECK(AA_RX_OK==0,"AA_RX_OK"); }
    struct aa_mem_region reg; aa_mem_region_init(&reg,64); mc::step();
    S before = aa_rx_errstr(&reg,code); S pad((char*)aa_mem_region_alloc(&reg,8)?"":""); char *t = aa_rx_errstr(&reg,code);
    CHECK(before==want && t==want,"error %x reads '%s', expected '%s'",code,t,want.c_str());
    aa_mem_region_destroy(&reg); mc::nontrivial(mc::Hash()(e)); mc::state(mc::Hash()(e));
}
int main(int c,char**v){ return mc::run(c,v,"C32",{{"plugins",sp_plugins},{"error texts",sp_err}}); }
