// reference shapes: convex parts with exact projection and support functions; certified distances by alternating projection
#ifndef SHAPEMODEL_HPP
#define SHAPEMODEL_HPP
#include "scenemodel.hpp"
#include "amino/rx/scene_geom.h"
struct Part { int kind; V3 d,t[3]; LD z0,z1; };      /* 0 box (half sizes d), 1 sphere (d0), 2 cylinder (radius d0, z0..z1), 3 triangle */
inline LD clampl_(LD x,LD a,LD b){ return x<a?a:x>b?b:x; }
inline V3 proj(const Part&s,V3 p){ switch(s.kind){ case 0: return v3(clampl_(p[0],-s.d[0],s.d[0]),clampl_(p[1],-s.d[1],s.d[1]),clampl_(p[2],-s.d[2],s.d[2])); case 1: { LD n=nrm(p); return n<=s.d[0]?p:(s.d[0]/n)*p; } case 2: { LD n=sqrtl(p[0]*p[0]+p[1]*p[1]),k=n<=s.d[0]?1:s.d[0]/n; return v3(k*p[0],k*p[1],clampl_(p[2],s.z0,s.z1)); } }
    V3 a=s.t[0],b=s.t[1],c=s.t[2],ab=b-a,ac=c-a,ap=p-a; LD d1=dot(ab,ap),d2=dot(ac,ap); if(d1<=0&&d2<=0) return a; V3 bp=p-b; LD d3=dot(ab,bp),d4=dot(ac,bp); if(d3>=0&&d4<=d3) return b; LD vc=d1*d4-d3*d2; if(vc<=0&&d1>=0&&d3<=0) return a+(d1/(d1-d3))*ab; V3 cp=p-c; LD d5=dot(ab,cp),d6=dot(ac,cp); if(d6>=0&&d5<=d6) return c; LD vb=d5*d2-d1*d6; if(vb<=0&&d2>=0&&d6<=0) return a+(d2/(d2-d6))*ac; LD va=d3*d6-d5*d4; if(va<=0&&d4-d3>=0&&d5-d6>=0) return b+((d4-d3)/((d4-d3)+(d5-d6)))*(c-b); LD dn=1/(va+vb+vc); return a+(vb*dn)*ab+(vc*dn)*ac; }
inline LD supp(const Part&s,V3 n){ switch(s.kind){ case 0: return s.d[0]*fabsl(n[0])+s.d[1]*fabsl(n[1])+s.d[2]*fabsl(n[2]); case 1: return s.d[0]*nrm(n); case 2: return s.d[0]*sqrtl(n[0]*n[0]+n[1]*n[1])+std::max(n[2]*s.z0,n[2]*s.z1); } return std::max(dot(n,s.t[0]),std::max(dot(n,s.t[1]),dot(n,s.t[2]))); }
inline V3 centre(const Part&s){ if(s.kind==3) return (1.L/3)*(s.t[0]+s.t[1]+s.t[2]); if(s.kind==2) return v3(0,0,(s.z0+s.z1)/2); return v3(0,0,0); }
inline Part shrink(Part s,LD k){ V3 c=centre(s); if(s.kind==3){ for(auto&x:s.t) x=c+k*(x-c); } else { s.d=k*s.d; if(s.kind==2){ LD h=k*(s.z1-s.z0)/2; s.z0=c[2]-h; s.z1=c[2]+h; } } return s; }
struct Dist { LD lo,hi; V3 a,b; };       /* certified bounds of the distance and the points found */
inline Dist pdist(const Part&A,const Pose&PA,const Part&B,const Pose&PB,int iters=4000){ Pose IA=inv(PA),IB=inv(PB); V3 a=PA*centre(A),b=PB*centre(B); Dist r={0,1e9L,a,b}; for(int k=0;k<iters;k++){ b=PB*proj(B,IB*a); V3 a2=PA*proj(A,IA*b); a=a2; V3 d=b-a; LD n=nrm(d); if(n<r.hi){ r.hi=n; r.a=a; r.b=b; } if(n<1e-12L){ r.lo=0; return r; } V3 u=(1/n)*d; LD ha=supp(A,tr(PA.R)*u)+dot(u,PA.t),hb=supp(B,(LD)-1*(tr(PB.R)*u))-dot(u,PB.t); LD lo=-hb-ha; r.lo=std::max(r.lo,lo); if(r.hi-r.lo<1e-9L) return r; } return r; }
typedef std::vector<Part> Solid;
inline Dist sdist(const Solid&A,const Pose&PA,const Solid&B,const Pose&PB){ Dist r={1e9L,1e9L,v3(0,0,0),v3(0,0,0)}; for(auto&x:A) for(auto&y:B){ Dist d=pdist(x,PA,y,PB); if(d.hi<r.hi){ r.hi=d.hi; r.a=d.a; r.b=d.b; } r.lo=std::min(r.lo,d.lo); } return r; }
/* 1: overlap by a margin, 0: apart by a margin, -1: too close to call */
inline int overlap(const Solid&A,const Pose&PA,const Solid&B,const Pose&PB,const Dist&d){ if(d.lo>2e-3L) return 0; for(auto&x:A) for(auto&y:B) if(pdist(shrink(x,.97L),PA,shrink(y,.97L),PB,400).hi<1e-9L) return 1; return -1; }
inline LD todist(const Solid&A,const Pose&P,V3 p){ LD m=1e9L; V3 l=inv(P)*p; for(auto&x:A) m=std::min(m,nrm(proj(x,l)-l)); return m; }
/* alphabet of shapes; each has its amino geometry and its reference solid */
static const float TV[]={0,0,0, 1,0,0, 0,.8f,0, .2f,.2f,.9f}; static const unsigned TI[]={0,2,1, 0,1,3, 1,2,3, 2,0,3};
static const float QV_[]={-.5f,-.5f,0, .5f,-.5f,0, .5f,.5f,.2f, -.5f,.5f,.1f}; static const unsigned QI[]={0,1,2, 0,2,3};
static const int NSHAPE=9;
inline Solid solid(int k){ Solid s; Part p; p.z0=p.z1=0; auto mesh=[&](const float*v,const unsigned*ix,size_t n,double sc){ for(size_t i=0;i<n;i++){ Part t; t.kind=3; t.d=v3(0,0,0); t.z0=t.z1=0; for(int j=0;j<3;j++){ const float*q=v+3*ix[3*i+(size_t)j]; t.t[j]=v3(sc*q[0],sc*q[1],sc*q[2]); } s.push_back(t); } }; switch(k){ case 0: p.kind=0; p.d=v3(.5,.3,.2); s.push_back(p); break; case 1: p.kind=1; p.d=v3(.5,.5,.5); s.push_back(p); break; case 2: p.kind=2; p.d=v3(.3,.3,.3); p.z1=1; s.push_back(p); break; case 3: mesh(TV,TI,4,1); break; case 4: p.kind=2; p.d=v3(.5,.5,.5); p.z1=.8; s.push_back(p); break; case 5: p.kind=0; p.d=v3(.75,.15,.3); s.push_back(p); break; case 6: mesh(TV,TI,4,1.5); break; case 7: p.kind=1; p.d=v3(.2,.2,.2); s.push_back(p); break; case 8: mesh(QV_,QI,2,1); break; } return s; }
inline struct aa_rx_geom*geometry(int k,struct aa_rx_geom_opt*o){ auto mesh=[&](const float*v,size_t nv,const unsigned*ix,size_t n){ struct aa_rx_mesh*m=aa_rx_mesh_create(); aa_rx_mesh_set_vertices(m,nv,v,1); aa_rx_mesh_set_indices(m,n,ix,1); struct aa_rx_geom*g=aa_rx_geom_mesh(o,m); aa_rx_mesh_destroy(m); return g; }; double d0[3]={1,.6,.4},d5[3]={.5,.1,.2}; aa_rx_geom_opt_set_scale(o,1); switch(k){ case 0: return aa_rx_geom_box(o,d0); case 1: return aa_rx_geom_sphere(o,.5); case 2: return aa_rx_geom_cylinder(o,1,.3); case 3: return mesh(TV,4,TI,4); case 4: aa_rx_geom_opt_set_scale(o,.5); return aa_rx_geom_cylinder(o,1.6,1); case 5: aa_rx_geom_opt_set_scale(o,3); return aa_rx_geom_box(o,d5); case 6: aa_rx_geom_opt_set_scale(o,1.5); return mesh(TV,4,TI,4); case 7: aa_rx_geom_opt_set_scale(o,.4); return aa_rx_geom_sphere(o,.5); } return mesh(QV_,4,QI,2); }
#endif
