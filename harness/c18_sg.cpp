// LIBS: collision
// Scene graph structure: words of editing operations against a map model.
#include "mc.hpp"
#include <map>
#include <set>
#include <cmath>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_dyn.h"
using mc::choose; using std::string;
typedef std::pair<string,string> PR;
struct MF { int type; string parent,cfg; double axis[3]; bool inert; double mass; std::vector<int> geoms; };
struct Lim { bool has[4]; double lo[4],hi[4]; };
struct Model { std::map<string,MF> f; std::map<string,Lim> lim; std::set<PR> allowed, unknown; int ngeom=0; };
static PR pr(const string&a,const string&b){ return a<b?PR(a,b):PR(b,a); }
static const char *NM[]={"b","a","c"};      /* children may sort before or after their parents */
static const char *CN[]={"a","b","c","x","zz"};
static bool missing(const Model&m){ for(auto&k:m.f) if(k.second.parent!=""&&!m.f.count(k.second.parent)) return true; return false; }
static bool cyclic(const Model&m){ for(auto&k:m.f){ string p=k.second.parent; for(int i=0;i<5&&p!="";i++){ auto it=m.f.find(p); if(it==m.f.end()) break; p=it->second.parent; if(i==4&&p!="") return true; } } return false; }
struct GC { std::map<int,std::vector<double>> got; };
static void gcb(void*cx,aa_rx_frame_id id,struct aa_rx_geom*g){ enum aa_rx_geom_shape t; void*s=aa_rx_geom_shape(g,&t); CHECK(t==AA_RX_SPHERE,"geometry changed its shape to %d",(int)t); ((GC*)cx)->got[id].push_back(((struct aa_rx_shape_sphere*)s)->radius); }
static void check(struct aa_rx_sg*sg,const Model&m,const char*who){
    size_t n=m.f.size(); CHECK(aa_rx_sg_frame_count(sg)==n,"%s: %zu frames, expected %zu",who,aa_rx_sg_frame_count(sg),n); std::set<string> seen,cfg;
    for(size_t i=0;i<n;i++){ string s=aa_rx_sg_frame_name(sg,(aa_rx_frame_id)i); auto it=m.f.find(s); CHECK(it!=m.f.end(),"%s: frame %zu is called '%s', which was not added",who,i,s.c_str()); CHECK(seen.insert(s).second,"%s: frame '%s' has two indices",who,s.c_str());
        CHECK(aa_rx_sg_frame_id(sg,s.c_str())==(aa_rx_frame_id)i,"%s: frame '%s' is %zu but its name maps to %d",who,s.c_str(),i,(int)aa_rx_sg_frame_id(sg,s.c_str())); const MF&f=it->second; CHECK((int)aa_rx_sg_frame_type(sg,(aa_rx_frame_id)i)==f.type,"%s: frame '%s' has type %d, expected %d",who,s.c_str(),(int)aa_rx_sg_frame_type(sg,(aa_rx_frame_id)i),f.type);
        aa_rx_frame_id p=aa_rx_sg_frame_parent(sg,(aa_rx_frame_id)i); CHECK(p<(aa_rx_frame_id)i,"%s: parent %d of frame %zu does not precede it",who,(int)p,i); CHECK(p==AA_RX_FRAME_ROOT?f.parent=="":(p>=0&&f.parent==aa_rx_sg_frame_name(sg,p)),"%s: parent of '%s' is %d, expected '%s'",who,s.c_str(),(int)p,f.parent.c_str());
        double ms=aa_rx_sg_frame_get_mass(sg,(aa_rx_frame_id)i); const double*in=aa_rx_sg_frame_get_inertia(sg,(aa_rx_frame_id)i); if(f.inert){ CHECK(ms==f.mass,"%s: mass of '%s' is %g, expected %g",who,s.c_str(),ms,f.mass); CHECK(in,"%s: '%s' lost its inertia",who,s.c_str()); for(int k=0;k<9;k++) CHECK(in[k]==f.mass+k,"%s: inertia of '%s'",who,s.c_str()); } else CHECK(std::isnan(ms)&&!in,"%s: '%s' has inertia it was not given",who,s.c_str());
        if(f.type!=AA_RX_FRAME_FIXED){ cfg.insert(f.cfg); aa_rx_config_id c=aa_rx_sg_frame_config(sg,(aa_rx_frame_id)i); CHECK(c>=0&&f.cfg==aa_rx_sg_config_name(sg,c),"%s: frame '%s' moves with variable %d, expected '%s'",who,s.c_str(),(int)c,f.cfg.c_str()); const double*ax=aa_rx_sg_frame_axis(sg,(aa_rx_frame_id)i); CHECK(!memcmp(ax,f.axis,24),"%s: axis of '%s'",who,s.c_str()); }
        else CHECK(aa_rx_sg_frame_config(sg,(aa_rx_frame_id)i)==AA_RX_CONFIG_NONE,"%s: fixed frame '%s' has a variable",who,s.c_str()); }
    for(auto nm:{"a","b","c","zz","root"}) if(!m.f.count(nm)) CHECK(aa_rx_sg_frame_id(sg,nm)==AA_RX_FRAME_NONE,"%s: absent frame '%s' has index %d",who,nm,(int)aa_rx_sg_frame_id(sg,nm));
    CHECK(aa_rx_sg_frame_id(sg,"")==AA_RX_FRAME_ROOT&&!strcmp(aa_rx_sg_frame_name(sg,AA_RX_FRAME_ROOT),""),"%s: root frame",who); CHECK(aa_rx_sg_frame_parent(sg,AA_RX_FRAME_ROOT)==AA_RX_FRAME_NONE,"%s: parent of the root",who);
    for(int bad:{(int)AA_RX_FRAME_NONE,(int)n,(int)n+3,-7}) CHECK(!strcmp(aa_rx_sg_frame_name(sg,(aa_rx_frame_id)bad),"?"),"%s: frame index %d of %zu has a name",who,bad,n);
    /* configuration variables */
    size_t nc=cfg.size(); CHECK(aa_rx_sg_config_count(sg)==nc,"%s: %zu variables, expected %zu",who,aa_rx_sg_config_count(sg),nc); const char*names[8]; CHECK(aa_rx_sg_config_names(sg,8,names)==nc,"%s: number of variable names",who); std::set<string> cs;
    for(size_t i=0;i<nc;i++){ string s=aa_rx_sg_config_name(sg,(aa_rx_config_id)i); CHECK(s==names[i],"%s: variable names differ",who); CHECK(cfg.count(s)&&cs.insert(s).second,"%s: variable %zu is called '%s'",who,i,s.c_str()); CHECK(aa_rx_sg_config_id(sg,s.c_str())==(aa_rx_config_id)i,"%s: variable '%s' maps to %d, expected %zu",who,s.c_str(),(int)aa_rx_sg_config_id(sg,s.c_str()),i);
        double lo=-7,hi=-7; auto it=m.lim.find(s); const Lim none={}; const Lim&l= it==m.lim.end()? none: it->second; int r[4]; double L[4],H[4]; for(int k=0;k<4;k++){ lo=hi=-7; r[k]= k==0?aa_rx_sg_get_limit_pos(sg,(aa_rx_config_id)i,&lo,&hi): k==1?aa_rx_sg_get_limit_vel(sg,(aa_rx_config_id)i,&lo,&hi): k==2?aa_rx_sg_get_limit_acc(sg,(aa_rx_config_id)i,&lo,&hi): aa_rx_sg_get_limit_eff(sg,(aa_rx_config_id)i,&lo,&hi); L[k]=lo; H[k]=hi;
            if(l.has[k]) CHECK(r[k]==0&&lo==l.lo[k]&&hi==l.hi[k],"%s: limit %d of '%s' is %d [%g,%g], expected [%g,%g]",who,k,s.c_str(),r[k],lo,hi,l.lo[k],l.hi[k]); else CHECK(r[k]!=0&&lo==-7&&hi==-7,"%s: variable '%s' has limit %d it was not given",who,s.c_str(),k); }
        double ce=aa_rx_sg_config_center(sg,(aa_rx_config_id)i); CHECK(ce==(l.has[0]?(l.lo[0]+l.hi[0])/2:0),"%s: center of '%s' is %g",who,s.c_str(),ce); }
    for(auto nm:CN) if(!cfg.count(nm)) CHECK(aa_rx_sg_config_id(sg,nm)==AA_RX_CONFIG_NONE,"%s: absent variable '%s' has index %d",who,nm,(int)aa_rx_sg_config_id(sg,nm));
    for(int bad:{(int)nc,(int)nc+1,(int)n,(int)n+2,(int)AA_RX_CONFIG_NONE,-9}) if(bad<0||bad>=(int)nc) CHECK(!strcmp(aa_rx_sg_config_name(sg,(aa_rx_config_id)bad),"NONE"),"%s: variable index %d of %zu has a name",who,bad,nc);
    { std::vector<const char*> q; for(auto&c:cfg) q.push_back(c.c_str()); q.push_back("zz"); std::vector<aa_rx_config_id> id(q.size()+1,(aa_rx_config_id)-77); aa_rx_sg_config_indices(sg,q.size(),q.data(),id.data()); for(size_t i=0;i<q.size();i++) CHECK(id[i]==aa_rx_sg_config_id(sg,q[i]),"%s: config_indices of '%s'",who,q[i]); CHECK(id[q.size()]==-77,"%s: config_indices wrote past its end",who);
        /* gather and scatter along those indices */
        size_t k=nc; std::vector<double> all(nc+1),sub(k+1,-5); for(size_t i=0;i<nc;i++) all[i]=10.+(double)i; all[nc]=-3; aa_rx_sg_config_get(sg,nc,k,id.data(),all.data(),sub.data()); for(size_t i=0;i<k;i++) CHECK(sub[i]==10.+id[i],"%s: config_get",who); CHECK(sub[k]==-5,"%s: config_get wrote past its end",who); for(size_t i=0;i<k;i++) sub[i]=100.+(double)i; size_t part=k?k-1:0; aa_rx_sg_config_set(sg,nc,part,id.data(),sub.data(),all.data()); for(size_t i=0;i<k;i++) CHECK(all[(size_t)id[i]]==(i<part?100.+(double)i:10.+id[i]),"%s: config_set",who); CHECK(all[nc]==-3,"%s: config_set",who);
        std::vector<double> cq(nc+2,-4); aa_rx_sg_center_configs(sg,nc,cq.data()); for(size_t i=0;i<nc;i++) CHECK(cq[i]==aa_rx_sg_config_center(sg,(aa_rx_config_id)i),"%s: center_configs",who); CHECK(cq[nc]==-4,"%s: center_configs wrote past its end",who); }
    /* geometry */
    GC gc; aa_rx_sg_map_geom(sg,gcb,&gc); size_t tot=0; for(auto&k:m.f) if(!k.second.geoms.empty()){ tot++; auto&v=gc.got[aa_rx_sg_frame_id(sg,k.first.c_str())]; CHECK(v.size()==k.second.geoms.size(),"%s: frame '%s' has %zu geometries, expected %zu",who,k.first.c_str(),v.size(),k.second.geoms.size()); for(size_t i=0;i<v.size();i++) CHECK(v[i]==1+k.second.geoms[i],"%s: geometry %zu of '%s' is another one's",who,i,k.first.c_str()); } CHECK(gc.got.size()==tot,"%s: geometry on %zu frames, expected %zu",who,gc.got.size(),tot);
    /* allowed collisions */
    aa_rx_sg_cl_init(sg); struct aa_rx_cl_set*s=aa_rx_cl_set_create(sg); aa_rx_sg_cl_set_copy(sg,s); for(auto&x:m.f) for(auto&y:m.f) if(x.first<y.first){ PR p(x.first,y.first); if(m.unknown.count(p)) continue; int g=aa_rx_cl_set_get(s,aa_rx_sg_frame_id(sg,x.first.c_str()),aa_rx_sg_frame_id(sg,y.first.c_str())); CHECK(!!g==!!m.allowed.count(p),"%s: collision of '%s' and '%s' is %sallowed",who,x.first.c_str(),y.first.c_str(),g?"":"not "); } aa_rx_cl_set_destroy(s); }
static const double AX[3][3]={{1,0,0},{0,0,1},{0,-2,0}};
static void add(struct aa_rx_sg*sg,Model&m,int type,const string&parent,const string&name,const char*cfg,int ax){ static const double q[4]={0,0,0,1},v[3]={1,2,3}; MF f; f.type=type; f.parent=parent; f.inert=false; f.mass=0; memcpy(f.axis,AX[ax],24); f.cfg= type==AA_RX_FRAME_FIXED?"": cfg?cfg:name; if(m.f.count(name)) for(auto&a:m.allowed) (void)a; m.f[name]=f; mc::step();
    if(type==AA_RX_FRAME_FIXED) aa_rx_sg_add_frame_fixed(sg,parent.c_str(),name.c_str(),ax?q:NULL,ax==2?NULL:v); else if(type==AA_RX_FRAME_REVOLUTE) aa_rx_sg_add_frame_revolute(sg,parent.c_str(),name.c_str(),q,v,cfg,AX[ax],.5); else aa_rx_sg_add_frame_prismatic(sg,parent.c_str(),name.c_str(),NULL,v,cfg,AX[ax],0); }
static struct aa_rx_geom_opt*opt(){ static struct aa_rx_geom_opt*o=aa_rx_geom_opt_create(); return o; }
struct Alive { struct aa_rx_sg*sg; Model m; };
static void word(int start,int depth,int kinds){
    std::vector<Alive> old; struct aa_rx_sg*sg=aa_rx_sg_create(); Model m; bool clean=true;
    struct Guard { struct aa_rx_sg*&s; std::vector<Alive>&o; ~Guard(){ if(s) aa_rx_sg_destroy(s); for(auto&a:o) aa_rx_sg_destroy(a.sg); } } guard{sg,old};
    CHECK(aa_rx_sg_config_count(sg)==0&&aa_rx_sg_frame_count(sg)==0,"a new scene graph is not empty");
    if(start>=1){ clean=false; add(sg,m,AA_RX_FRAME_REVOLUTE,"","c",NULL,1); add(sg,m,AA_RX_FRAME_PRISMATIC,"c","b","x",2); add(sg,m,AA_RX_FRAME_FIXED,"b","a",NULL,1); }
    if(start>=2){ CHECK(aa_rx_sg_init(sg)==0,"init of a valid graph failed"); clean=true; aa_rx_sg_set_limit_pos(sg,"x",-1,3); m.lim["x"]=Lim{{true},{-1},{3}}; aa_rx_sg_set_limit_vel(sg,"a",-5,6); m.lim["a"]=Lim{{false,true},{0,-5},{0,6}}; aa_rx_sg_allow_collision_name(sg,"b","a",1); m.allowed.insert(pr("a","b")); double I[9]; for(int i=0;i<9;i++) I[i]=4+i; aa_rx_sg_frame_set_inertial(sg,"b",4,I); m.f["b"].inert=true; m.f["b"].mass=4; aa_rx_geom_attach(sg,"a",aa_rx_geom_sphere(opt(),1)); m.f["a"].geoms.push_back(m.ngeom++); }
    int each=choose(2,"index after each operation");
    for(int d=0;d<depth;d++){ int k=choose(kinds,"operation"); if(d==0) mc::split();
        if(k<3){ string nm=NM[k]; int pi=choose(4,"parent"); string p= pi==0?"":pi==1?"zz":NM[(k+pi-1)%3]; int t=choose(4,"joint"); add(sg,m,t==0?AA_RX_FRAME_FIXED:t==1||t==3?AA_RX_FRAME_REVOLUTE:AA_RX_FRAME_PRISMATIC,p,nm,t==1?NULL:"x",t%3); }
        else if(k<6){ string nm=NM[k-3]; mc::step(); bool had=m.f.erase(nm); for(auto it=m.allowed.begin();it!=m.allowed.end();) if(it->first==nm||it->second==nm){ m.unknown.insert(*it); it=m.allowed.erase(it); } else ++it; (void)had; int byown=choose(2,"name from the graph"); if(byown){ if(!clean||aa_rx_sg_frame_id(sg,nm.c_str())<0) mc::skip(); aa_rx_sg_rm_frame(sg,aa_rx_sg_frame_name(sg,aa_rx_sg_frame_id(sg,nm.c_str()))); } else aa_rx_sg_rm_frame(sg,nm.c_str()); }
        else if(k<9){ string nm=NM[k-6]; if(!m.f.count(nm)) mc::skip(); int pi=choose(4,"new parent"); string p= pi==0?"":pi==1?"zz":NM[(k-6+pi-1)%3]; double E[7]={0,0,1,0,5,6,7}; mc::step(); if(pi!=1&&each&&clean&&m.f.count(p)) aa_rx_sg_reparent_id(sg,aa_rx_sg_frame_id(sg,p.c_str()),aa_rx_sg_frame_id(sg,nm.c_str()),E); else aa_rx_sg_reparent_name(sg,pi==0&&each?NULL:p.c_str(),nm.c_str(),E); m.f[nm].parent=p; }
        else if(k==9){ const char*c=CN[choose(5,"variable")]; int w=choose(4,"limit"); double lo=-2-d,hi=3+d; mc::step(); (w==0?aa_rx_sg_set_limit_pos:w==1?aa_rx_sg_set_limit_vel:w==2?aa_rx_sg_set_limit_acc:aa_rx_sg_set_limit_eff)(sg,c,lo,hi); Lim&l=m.lim[c]; l.has[w]=true; l.lo[w]=lo; l.hi[w]=hi; }
        else if(k==10){ string nm=NM[choose(3,"frame")]; if(!m.f.count(nm)) mc::skip(); double I[9]; double ms=10*(d+1); for(int i=0;i<9;i++) I[i]=ms+i; mc::step(); aa_rx_sg_frame_set_inertial(sg,nm.c_str(),ms,I); m.f[nm].inert=true; m.f[nm].mass=ms; }
        else if(k==11){ string nm=NM[choose(3,"frame")]; if(!m.f.count(nm)) mc::skip(); mc::step(); aa_rx_geom_attach(sg,nm.c_str(),aa_rx_geom_sphere(opt(),1+m.ngeom)); m.f[nm].geoms.push_back(m.ngeom++); }
        else if(k==12){ int pi=choose(6,"pair"); string x=NM[pi/2],y=NM[(pi/2+1+pi%2)%3]; int al=choose(2,"allowed"); if(!m.f.count(x)||!m.f.count(y)) mc::skip(); mc::step(); if(each&&clean) aa_rx_sg_allow_collision(sg,aa_rx_sg_frame_id(sg,x.c_str()),aa_rx_sg_frame_id(sg,y.c_str()),al); else aa_rx_sg_allow_collision_name(sg,x.c_str(),y.c_str(),al); m.unknown.erase(pr(x,y)); if(al) m.allowed.insert(pr(x,y)); else m.allowed.erase(pr(x,y)); }
        else if(k==13){ if(missing(m)||cyclic(m)) mc::skip(); CHECK(aa_rx_sg_init(sg)==0,"init of a valid graph failed"); clean=true; mc::step(2); struct aa_rx_sg*cp=aa_rx_sg_copy(sg); check(cp,m,"copy"); int how=choose(3,"continue with"); if(how==0){ aa_rx_sg_destroy(sg); sg=cp; } else if(how==1){ old.push_back({sg,m}); sg=cp; } else old.push_back({cp,m}); }
        else if(k==14){ string x=NM[choose(3,"from")],y=NM[choose(3,"to")]; if(x==y||!m.f.count(x)||!m.f.count(y)) mc::skip(); mc::step(); aa_rx_sg_copy_frame_geom(sg,x.c_str(),y.c_str()); auto g=m.f[x].geoms; for(int i:g) m.f[y].geoms.push_back(i); }
        if(k<9) clean=false; if(cyclic(m)) mc::skip();      /* a frame that is its own ancestor is not a scene */
        if(each||d==depth-1){ int r=aa_rx_sg_init(sg); mc::step(); if(missing(m)) CHECK(r==AA_RX_INVALID_FRAME,"a frame with an unknown parent was accepted (%d)",r); else { clean=true; CHECK(r==0,"init of a valid graph failed (%d)",r); check(sg,m,"graph"); CHECK(aa_rx_sg_init(sg)==0,"second init"); } }
        mc::Hash h; for(auto&f:m.f) h.str(f.first).str(f.second.parent)(f.second.type)(f.second.inert)(f.second.geoms.size()); for(auto&l:m.lim) h.str(l.first)(l.second); for(auto&a:m.allowed) h.str(a.first).str(a.second); mc::state(h); }
    for(auto&o:old){ CHECK(aa_rx_sg_init(o.sg)==0,"init of an untouched graph"); check(o.sg,o.m,"the other copy"); } { struct aa_rx_sg*s=sg; sg=NULL; aa_rx_sg_destroy(s); } while(!old.empty()){ check(old.back().sg,old.back().m,"the surviving copy"); struct aa_rx_sg*s=old.back().sg; old.pop_back(); aa_rx_sg_destroy(s); }
    mc::nontrivial(mc::Hash()(m.f.size())(m.lim.size())(m.allowed.size())(m.ngeom)); }
static void sp_empty(){ word(0,mc::thorough()?3:2,12); }
static void sp_tree(){ word(1,mc::thorough()?3:2,15); }
static void sp_full(){ word(2,mc::thorough()?3:2,15); }
/* adding and linking only, one operation deeper */
static void sp_build(){ word(0,mc::thorough()?4:3,3); }
int main(int c,char**v){ return mc::run(c,v,"C18",{{"edits of an empty graph",sp_empty},{"edits of a tree",sp_tree},{"edits of a populated graph",sp_full},{"construction",sp_build}}); }
