// reference scenes: trees of joints with long double poses
#ifndef SCENEMODEL_HPP
#define SCENEMODEL_HPP
#include "posemodel.hpp"
#include <map>
#include <set>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
/* joint: type, axis (length scales the motion), offset */
struct JT { int type; double axis[3],off; const char*cfg; };
static const double HALF2=0.70710678118654752440;
struct Frame { std::string name,parent,cfg; int type; Pose E; bool hasq,hasv; double q[4],v[3],axis[3],off; };
typedef std::map<std::string,double> Conf;
struct Scene { std::vector<Frame> f;       /* parents first */
    int find(const std::string&n) const { for(size_t i=0;i<f.size();i++) if(f[i].name==n) return (int)i; return -1; }
    Frame&add(const std::string&name,const std::string&parent,const JT&j,const double*rv,const double*t){ Frame x; x.name=name; x.parent=parent; x.type=j.type; x.cfg= j.type==AA_RX_FRAME_FIXED?"": j.cfg?j.cfg:name; memcpy(x.axis,j.axis,24); x.off=j.off; x.hasq=rv; x.hasv=t; V3 w= rv?from3(rv):v3(0,0,0); toq(qexp(w),x.q); for(int i=0;i<3;i++) x.v[i]=t?t[i]:0; x.E={qmat(fromq(x.q)),from3(x.v)}; f.push_back(x); return f.back(); }
    struct aa_rx_sg*make(bool reversed=false) const { struct aa_rx_sg*sg=aa_rx_sg_create(); for(size_t k=0;k<f.size();k++){ const Frame&x=f[reversed?f.size()-1-k:k]; const double*q=x.hasq?x.q:NULL,*v=x.hasv?x.v:NULL; const char*c= x.cfg==x.name?NULL:x.cfg.c_str();
            if(x.type==AA_RX_FRAME_FIXED) aa_rx_sg_add_frame_fixed(sg,x.parent.c_str(),x.name.c_str(),q,v); else if(x.type==AA_RX_FRAME_REVOLUTE) aa_rx_sg_add_frame_revolute(sg,x.parent.c_str(),x.name.c_str(),q,v,c,x.axis,x.off); else aa_rx_sg_add_frame_prismatic(sg,x.parent.c_str(),x.name.c_str(),q,v,c,x.axis,x.off); } if(aa_rx_sg_init(sg)) mc::fail("init of a valid scene failed"); return sg; }
    std::set<std::string> configs() const { std::set<std::string> s; for(auto&x:f) if(x.type!=AA_RX_FRAME_FIXED) s.insert(x.cfg); return s; }
    Pose rel(int i,const Conf&c) const { const Frame&x=f[(size_t)i]; if(x.type==AA_RX_FRAME_FIXED) return x.E; LD a=(LD)c.at(x.cfg)+x.off; V3 w=a*from3(x.axis); Pose J={m3eye(),v3(0,0,0)}; if(x.type==AA_RX_FRAME_REVOLUTE) J.R=rexp(w); else J.t=w; return x.E*J; }
    Pose abs(int i,const Conf&c) const { const Frame&x=f[(size_t)i]; Pose r=rel(i,c); int p=find(x.parent); return p<0? r : abs(p,c)*r; }
    bool below(int i,int anc) const { for(;i>=0;i=find(f[(size_t)i].parent)) if(i==anc) return true; return false; }
    bool movedby(int i,const std::string&cfg) const { for(;i>=0;i=find(f[(size_t)i].parent)) if(f[(size_t)i].cfg==cfg&&cfg!="") return true; return false; } };
struct SG { struct aa_rx_sg*p; SG(struct aa_rx_sg*q):p(q){} ~SG(){ aa_rx_sg_destroy(p); } SG(const SG&)=delete; operator struct aa_rx_sg*() const { return p; } };
inline std::vector<double> qvec(struct aa_rx_sg*sg,const Conf&c){ std::vector<double> q(aa_rx_sg_config_count(sg)); for(auto&k:c){ int i=(int)aa_rx_sg_config_id(sg,k.first.c_str()); if(i>=0) q[(size_t)i]=k.second; } return q; }
/* joints used by the enumerations; entry 7 and 8 share a variable */
static const JT JTS[]={{AA_RX_FRAME_FIXED,{0,0,0},0,NULL},{AA_RX_FRAME_REVOLUTE,{0,0,1},0,NULL},{AA_RX_FRAME_PRISMATIC,{1,0,0},0,NULL},{AA_RX_FRAME_REVOLUTE,{-.48,.6,.64},.5,NULL},{AA_RX_FRAME_PRISMATIC,{0,-2,1},.25,NULL},{AA_RX_FRAME_REVOLUTE,{0,-2,0},-1,NULL},{AA_RX_FRAME_REVOLUTE,{1,0,0},0,"s"},{AA_RX_FRAME_PRISMATIC,{0,.5,0},-3,"s"}};
static const int NJT=8;
static const double RVS[][3]={{0,0,1.5707963267948966},{.3,-1.2,2},{0,3.141592653589793,0},{-1e-4,0,0}}, TVS[][3]={{1,2,3},{-.5,0,0},{0,0,-10},{.1,.2,-.3}};
/* derivative of a pose by Richardson-extrapolated long double differences */
inline void deriv(const Scene&S,int i,const Conf&c,const std::string&v,V3&w,V3&dp){ auto D=[&](double h,V3&w,V3&dp){ Conf a=c,b=c; a[v]+=h; b[v]-=h; LD H=(LD)a[v]-b[v]; Pose A=S.abs(i,a),B=S.abs(i,b),P=S.abs(i,c); M3 W=((1/H)*(A.R+(LD)-1*B.R))*tr(P.R); w=v3((W(2,1)-W(1,2))/2,(W(0,2)-W(2,0))/2,(W(1,0)-W(0,1))/2); dp=(1/H)*(A.t-B.t); }; V3 w1,p1,w2,p2; D(1e-3,w1,p1); D(2e-3,w2,p2); w=(1.L/3)*((LD)4*w1-w2); dp=(1.L/3)*((LD)4*p1-p2); }
#endif
