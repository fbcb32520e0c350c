// reference rotations and rigid motions (long double, no amino code)
#ifndef ROTMODEL_HPP
#define ROTMODEL_HPP
#include "mc.hpp"
typedef long double LD;
struct V3 { LD a[3]; LD &operator[](int i){return a[i];} LD operator[](int i)const{return a[i];} };
inline V3 v3(LD x,LD y,LD z){ V3 v; v.a[0]=x;v.a[1]=y;v.a[2]=z; return v; }
inline V3 operator+(V3 a,V3 b){ return v3(a[0]+b[0],a[1]+b[1],a[2]+b[2]); }
inline V3 operator-(V3 a,V3 b){ return v3(a[0]-b[0],a[1]-b[1],a[2]-b[2]); }
inline V3 operator*(LD k,V3 b){ return v3(k*b[0],k*b[1],k*b[2]); }
inline LD dot(V3 a,V3 b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 cross(V3 a,V3 b){ return v3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
inline LD nrm(V3 a){ return sqrtl(dot(a,a)); }
inline V3 unit(V3 a){ return (1/nrm(a))*a; }
inline V3 from3(const double*p){ return v3(p[0],p[1],p[2]); }
inline void to3(V3 v,double*p){ for(int i=0;i<3;i++) p[i]=(double)v[i]; }
struct M3 { LD a[3][3]; LD &operator()(int i,int j){return a[i][j];} LD operator()(int i,int j)const{return a[i][j];} };
inline M3 m3eye(){ M3 m; for(int i=0;i<3;i++)for(int j=0;j<3;j++) m(i,j)=i==j; return m; }
inline M3 operator*(const M3&A,const M3&B){ M3 C; for(int i=0;i<3;i++)for(int j=0;j<3;j++){ LD s=0; for(int k=0;k<3;k++) s+=A(i,k)*B(k,j); C(i,j)=s; } return C; }
inline M3 operator+(const M3&A,const M3&B){ M3 C; for(int i=0;i<3;i++)for(int j=0;j<3;j++) C(i,j)=A(i,j)+B(i,j); return C; }
inline M3 operator*(LD k,const M3&A){ M3 C; for(int i=0;i<3;i++)for(int j=0;j<3;j++) C(i,j)=k*A(i,j); return C; }
inline V3 operator*(const M3&A,V3 v){ V3 r; for(int i=0;i<3;i++) r[i]=A(i,0)*v[0]+A(i,1)*v[1]+A(i,2)*v[2]; return r; }
inline M3 tr(const M3&A){ M3 C; for(int i=0;i<3;i++)for(int j=0;j<3;j++) C(i,j)=A(j,i); return C; }
inline M3 skew(V3 w){ M3 m; LD t[3][3]={{0,-w[2],w[1]},{w[2],0,-w[0]},{-w[1],w[0],0}}; memcpy(m.a,t,sizeof t); return m; }
inline LD det(const M3&A){ return dot(v3(A(0,0),A(1,0),A(2,0)),cross(v3(A(0,1),A(1,1),A(2,1)),v3(A(0,2),A(1,2),A(2,2)))); }
/* exp of a rotation vector by scaled sinc evaluated in long double */
inline LD sinc_(LD t){ return fabsl(t)<1e-4L? 1-t*t/6+t*t*t*t/120 : sinl(t)/t; }
inline LD cosc_(LD t){ LD h=sinc_(t/2); return h*h/2; }         /* (1-cos t)/t^2 */
inline LD sinm_(LD t){ return fabsl(t)<1e-2L? 1.L/6-t*t/120+t*t*t*t/5040-t*t*t*t*t*t/362880 : (1-sinc_(t))/(t*t); }  /* (1-sinc)/t^2 */
inline M3 rexp(V3 w){ LD t=nrm(w); M3 K=skew(w); return m3eye()+sinc_(t)*K+cosc_(t)*(K*K); }
inline M3 rvmat(V3 w){ LD t=nrm(w); M3 K=skew(w); return m3eye()+cosc_(t)*K+sinm_(t)*(K*K); }  /* left Jacobian */
struct Q4 { LD v[4]; LD &operator[](int i){return v[i];} LD operator[](int i)const{return v[i];} };  /* x y z w */
inline Q4 q4(LD x,LD y,LD z,LD w){ Q4 q; q[0]=x;q[1]=y;q[2]=z;q[3]=w; return q; }
inline Q4 qexp(V3 w){ LD t=nrm(w); LD s=sinc_(t/2)/2; return q4(s*w[0],s*w[1],s*w[2],cosl(t/2)); }  /* rotation vector to quaternion */
inline Q4 operator*(Q4 a,Q4 b){ V3 x=v3(a[0],a[1],a[2]),y=v3(b[0],b[1],b[2]); V3 r=a[3]*y+b[3]*x+cross(x,y); return q4(r[0],r[1],r[2],a[3]*b[3]-dot(x,y)); }
inline Q4 operator*(LD k,Q4 a){ return q4(k*a[0],k*a[1],k*a[2],k*a[3]); }
inline Q4 operator+(Q4 a,Q4 b){ return q4(a[0]+b[0],a[1]+b[1],a[2]+b[2],a[3]+b[3]); }
inline Q4 qc(Q4 a){ return q4(-a[0],-a[1],-a[2],a[3]); }
inline LD qn(Q4 a){ return sqrtl(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]+a[3]*a[3]); }
inline void toq(Q4 q,double*p){ for(int i=0;i<4;i++) p[i]=(double)q[i]; }
inline Q4 fromq(const double*p){ return q4(p[0],p[1],p[2],p[3]); }
inline M3 qmat(Q4 q){ LD n=q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; M3 K=skew(v3(q[0],q[1],q[2])); return m3eye()+(2*q[3]/n)*K+(2/n)*(K*K); }
inline void tom(const M3&R,double*p){ for(int j=0;j<3;j++)for(int i=0;i<3;i++) p[3*j+i]=(double)R(i,j); }
inline M3 fromm(const double*p){ M3 R; for(int j=0;j<3;j++)for(int i=0;i<3;i++) R(i,j)=p[3*j+i]; return R; }
inline LD mdist(const M3&A,const M3&B){ LD d=0; for(int i=0;i<3;i++)for(int j=0;j<3;j++){ LD e=fabsl(A(i,j)-B(i,j)); if(!(e<=d)) d=e; } return d; }
inline LD vdist(V3 a,V3 b){ LD d=0; for(int i=0;i<3;i++){ LD e=fabsl(a[i]-b[i]); if(!(e<=d)) d=e; } return d; }
inline void sameR(const M3&A,const M3&B,double tol,const char*w){ LD d=mdist(A,B); CHECK(d<=tol,"%s: different rotation (difference %Lg)",w,d); }
inline void sameR(const double*p,const M3&B,double tol,const char*w){ sameR(fromm(p),B,tol,w); }
inline void sameV(V3 a,V3 b,double tol,const char*w){ LD s=1; for(int i=0;i<3;i++) s=std::max(s,fabsl(b[i])); LD d=vdist(a,b); CHECK(d<=tol*s,"%s: (%Lg %Lg %Lg), expected (%Lg %Lg %Lg)",w,a[0],a[1],a[2],b[0],b[1],b[2]); }
inline void sameV(const double*p,V3 b,double tol,const char*w){ sameV(from3(p),b,tol,w); }
inline void sameQ(const double*p,Q4 b,double tol,const char*w){ for(int i=0;i<4;i++){ LD e=fabsl(p[i]-b[i]); CHECK(e<=tol*std::max((LD)1,fabsl(b[i])),"%s: (%g %g %g %g), expected (%Lg %Lg %Lg %Lg)",w,p[0],p[1],p[2],p[3],b[0],b[1],b[2],b[3]); } }
/* same rotation: quaternion up to sign, unit length */
inline void sameQR(const double*p,const M3&R,double tol,const char*w){ Q4 q=fromq(p); LD n=qn(q); CHECK(fabsl(n-1)<=tol,"%s: quaternion (%g %g %g %g) of length %Lg",w,p[0],p[1],p[2],p[3],n); sameR(qmat(q),R,tol,w); }
inline void properR(const double*p,double tol,const char*w){ M3 R=fromm(p); sameR(R*tr(R),m3eye(),tol,w); LD d=det(R); CHECK(fabsl(d-1)<=tol,"%s: determinant %Lg",w,d); }
/* ---- alphabets ---- */
static const LD PI_L=3.14159265358979323846264338327950288L;
static const double AXES[][3]={{1,0,0},{0,1,0},{0,0,1},{-1,0,0},{0,-1,0},{0,0,-1},{1,1,0},{0,1,1},{-1,0,1},{1,1,1},{1,-1,1},{-1,-1,-1},{1,2,-3},{.2,-.9,.1},{1e-3,1,-1e-3},{1e-8,-1e-8,1}};
static const LD ANGS[]={0,1e-300L,1e-16L,1e-12L,1e-9L,1.4e-8L,1.6e-8L,1e-6L,1e-5L,1.1e-4L,1.3e-4L,2.2e-4L,2.6e-4L,1e-3L,1e-2L,.1L,.5L,1,PI_L/3,PI_L/2,2,2*PI_L/3,2.5L,3,PI_L-1.5e-2L,PI_L-1.3e-2L,PI_L-1e-3L,PI_L-1e-5L,PI_L-1e-7L,PI_L-1e-9L,PI_L-1e-12L,PI_L};
static const int NAX=(int)(sizeof AXES/sizeof AXES[0]), NANG=(int)(sizeof ANGS/sizeof ANGS[0]);
inline V3 axis_(int i){ if(i<NAX) return unit(from3(AXES[i])); i-=NAX; V3 v=v3(i/25-2,i/5%5-2,i%5-2); if(i==62) v=v3(1,20,-300); return unit(v); }
inline LD ang_(int i){ if(i<NANG) return ANGS[i]; i-=NANG; if(i<120) return powl(10,-16+i*16.4L/120); return PI_L-powl(10,-12+(i-120)*.3L); }
inline V3 pick_rvq(const char*l="rotation"){ int a=mc::choose(NAX,l), t=mc::choose(NANG,"angle"); return ang_(t)*axis_(a); }   /* always the quick grid */
inline V3 pick_rv(const char*l="rotation"){ bool T=mc::thorough(); int a=mc::choose(T?NAX+125:NAX,l), t=mc::choose(T?NANG+160:NANG,"angle"); return ang_(t)*axis_(a); }
/* smaller set for pairs */
static const int SA[]={0,1,2,4,6,9,12,13}; static const LD ST[]={0,1e-9L,1e-5L,1e-3L,.7L,PI_L/2,2.2L,PI_L-1e-6L,PI_L};
inline V3 pick_rvs(const char*l="rotation"){ int a=mc::choose(8,l), t=mc::choose(9,"angle"); if(t==0&&a) mc::skip(); return ST[t]*axis_(SA[a]); }
static const double PTS[][3]={{1,0,0},{0,1,0},{0,0,1},{1,-2,3},{-.5,.25,10}};
static const double TRS[][3]={{0,0,0},{1,0,0},{0,-2,0},{0,0,.5},{1,2,3},{-4,.25,-1e-3},{100,-50,7}};
#endif
