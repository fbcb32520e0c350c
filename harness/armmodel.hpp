// Small serial arms, strided vectors and reference Jacobians shared by the workspace harnesses.
#pragma once
#include "scenemodel.hpp"
#include "lamodel.hpp"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_wk.h"
#include "amino/mat_internal.h"
#include "amino/rx/scene_wk_internal.h"
using mc::choose; using std::string; typedef std::vector<double> V;
struct Sub { struct aa_rx_sg_sub*p; ~Sub(){ aa_rx_sg_sub_destroy(p); } };
struct FK { struct aa_rx_fk*p; ~FK(){ aa_rx_fk_destroy(p); } };
struct Opt { struct aa_rx_wk_opts*p; Opt():p(aa_rx_wk_opts_create()){} ~Opt(){ aa_rx_wk_opts_destroy(p); } };
[[maybe_unused]] static const char*JN[]={"j0","j1","j2","j3","j4","j5","j6"};
[[maybe_unused]] static const double ARMT[][3]={{0,0,.4},{.1,0,.3},{0,.2,.4},{.3,0,0},{0,0,.35},{0,.1,.1},{.2,0,.1}};
/* a serial arm: joint k of kind js[k] from JTS */
[[maybe_unused]] static Scene arm(const std::vector<int>&js){ Scene S; for(size_t k=0;k<js.size();k++) S.add(JN[k],k?JN[k-1]:"",JTS[js[k]],k%2?RVS[k%4]:NULL,ARMT[k]); [[maybe_unused]] static const JT fx={AA_RX_FRAME_FIXED,{0,0,0},0,NULL}; S.add("tip",JN[js.size()-1],fx,RVS[1],TVS[3]); return S; }
[[maybe_unused]] static Scene arm7(int n){ Scene S; [[maybe_unused]] static const JT z={AA_RX_FRAME_REVOLUTE,{0,0,1},0,NULL},y={AA_RX_FRAME_REVOLUTE,{0,1,0},0,NULL}; for(int k=0;k<n;k++) S.add(JN[k],k?JN[k-1]:"",k%2?y:z,NULL,ARMT[k]); [[maybe_unused]] static const JT fx={AA_RX_FRAME_FIXED,{0,0,0},0,NULL}; S.add("tip",JN[n-1],fx,NULL,TVS[3]); return S; }
[[maybe_unused]] static const double QV[][7]={{.7,-1.1,.6,1.3,-.9,.8,.2},{0,0,0,0,0,0,0},{-.5,.9,-1.2,.4,1,-.7,-1.5}};
[[maybe_unused]] static Ref jac(const Scene&S,const Conf&c,size_t n){ Ref J(6,n); for(size_t i=0;i<n;i++){ V3 w,d; deriv(S,(int)n,c,JN[i],w,d); for(int k=0;k<3;k++){ J((size_t)AA_TF_DX_W+(size_t)k,i)=(double)w[k]; J((size_t)AA_TF_DX_V+(size_t)k,i)=(double)d[k]; } } return J; }
[[maybe_unused]] static Conf conf(const double*q,size_t n){ Conf c; for(size_t i=0;i<n;i++) c[JN[i]]=q[i]; return c; }
[[maybe_unused]] static Scene pick_arm(bool big=true){ int k=choose(big?6:3,"arm"); if(k<3){ std::vector<int> js; for(int i=0;i<=k;i++) js.push_back(1+choose(i==2&&!mc::thorough()?3:5,"joint")); return arm(js); } return arm7(k+2); }
[[maybe_unused]] static V vec(const Ref&R){ V v(R.m); for(size_t i=0;i<R.m;i++) v[i]=R(i,0); return v; }
[[maybe_unused]] static Ref col(const V&v){ Ref r(v.size(),1); r.a=v; return r; }
struct SV { V b; struct aa_dvec v; SV(const V&x,size_t inc):b((x.size()-1)*inc+1){ for(size_t i=0;i<b.size();i++) b[i]=mc::Buf::canary(i); for(size_t i=0;i<x.size();i++) b[i*inc]=x[i]; b.shrink_to_fit(); v=AA_DVEC_INIT(x.size(),b.data(),inc); }
    V get() const { V r(v.len); for(size_t i=0;i<v.len;i++) r[i]=b[i*v.inc]; return r; } void gaps(const char*w){ for(size_t i=0;i<b.size();i++) if(i%v.inc) CHECK(b[i]==mc::Buf::canary(i),"%s wrote between the elements",w); } };
[[maybe_unused]] static void same(const V&a,const V&e,double tol,const char*w){ double s=1; for(double x:e) s=std::max(s,fabs(x)); for(size_t i=0;i<e.size();i++) CHECK(fabs(a[i]-e[i])<=tol*s,"%s: element %zu is %.12g, expected %.12g",w,i,a[i],e[i]); }
[[maybe_unused]] static double pinvstar(const struct aa_rx_wk_opts*o,double w){ if(o->s2min>0) return 1/std::max(w,o->s2min); if(o->k_dls>0) return 1/(w+o->k_dls); return w>1e-8?1/w:0; }
[[maybe_unused]] static void qe(const Pose&P,V3 w,double*E){ (void)w; struct Mx{ double R[9]; } m; tom(P.R,m.R); double q[4]; aa_tf_rotmat2quat(m.R,q); memcpy(E,q,32); to3(P.t,E+4); }
[[maybe_unused]] static V3 rlog(const M3&R){ LD q[4],t=R(0,0)+R(1,1)+R(2,2); int b=3; LD m=t; for(int i=0;i<3;i++) if(R(i,i)>m){ m=R(i,i); b=i; } if(b==3){ q[3]=sqrtl(1+t)/2; q[0]=(R(2,1)-R(1,2))/(4*q[3]); q[1]=(R(0,2)-R(2,0))/(4*q[3]); q[2]=(R(1,0)-R(0,1))/(4*q[3]); } else { int c=(b+1)%3,d=(b+2)%3; q[b]=sqrtl(1+2*R(b,b)-t)/2; q[c]=(R(c,b)+R(b,c))/(4*q[b]); q[d]=(R(d,b)+R(b,d))/(4*q[b]); q[3]=(R(d,c)-R(c,d))/(4*q[b]); } LD n=sqrtl(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]); if(n<1e-18L) return v3(0,0,0); LD s=q[3]<0?-1:1; return (s*2*atan2l(n,s*q[3])/n)*v3(q[0],q[1],q[2]); }
