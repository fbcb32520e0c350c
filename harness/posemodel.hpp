// reference rigid motions on top of rotmodel.hpp
#ifndef POSEMODEL_HPP
#define POSEMODEL_HPP
#include "rotmodel.hpp"
struct Pose { M3 R; V3 t; };
inline Pose operator*(const Pose&a,const Pose&b){ return {a.R*b.R,a.R*b.t+a.t}; }
inline V3 operator*(const Pose&a,V3 p){ return a.R*p+a.t; }
inline Pose inv(const Pose&a){ M3 T=tr(a.R); return {T,(LD)-1*(T*a.t)}; }
struct Rep { Pose P; double T[12],E[7],S[8]; };       /* the same pose in all three representations */
inline void dq(Q4 q,V3 t,double*S){ Q4 d=(LD).5*(q4(t[0],t[1],t[2],0)*q); toq(q,S); toq(d,S+4); }
inline Rep rep(V3 w,V3 t,int neg){ Rep r; r.P={rexp(w),t}; tom(r.P.R,r.T); to3(t,r.T+9); Q4 q=qexp(w); if(neg) q=(-1)*q; toq(q,r.E); to3(t,r.E+4); dq(q,t,r.S); return r; }
inline void sameT(const double*T,const Pose&P,double tol,const char*w){ sameR(T,P.R,tol,w); sameV(T+9,P.t,tol,w); }
inline void sameQV(const double*q,const double*v,const Pose&P,double tol,const char*w){ sameQR(q,P.R,tol,w); sameV(v,P.t,tol,w); }
inline void sameE(const double*E,const Pose&P,double tol,const char*w){ sameQV(E,E+4,P,tol,w); }
inline void sameS(const double*S,const Pose&P,double tol,const char*w){ sameQR(S,P.R,tol,w); double e[8]; dq(fromq(S),P.t,e); for(int i=4;i<8;i++) CHECK(fabs(S[i]-e[i])<=tol*(1+(double)nrm(P.t)),"%s: dual part (%g %g %g %g), expected (%g %g %g %g)",w,S[4],S[5],S[6],S[7],e[4],e[5],e[6],e[7]); }
#endif
