// Rotation interpolation, its derivatives, rotation averages and angles against a long double model.
#include "rotmodel.hpp"
#include "amino.h"
extern "C" { void aa_tf_rotmat_angle(const double*,double*,double*,double*); void aa_tf_qslerpdiff_f(double,const double*,const double*,double*); void aa_tf_qslerpdiffalg_f(double,const double*,const double*,double*); void aa_tf_qsquad(double,const double*,const double*,const double*,const double*,double*); void aa_tf_qsquad_param(const double*,const double*,const double*,double*); }
using mc::choose;
static LD qd(Q4 a,Q4 b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]+a[3]*b[3]; }
static Q4 qln_(Q4 q){ LD n=nrm(v3(q[0],q[1],q[2])),k= n<1e-9L&&q[3]>0? 1/q[3] : n==0? 0 : atan2l(n,q[3])/n; return q4(k*q[0],k*q[1],k*q[2],logl(qn(q))); }
static Q4 qpw(Q4 q,LD t){ Q4 l=qln_(q); return qexp((2*t)*v3(l[0],l[1],l[2])); }
static Q4 slerp(LD t,Q4 a,Q4 b,int flip=0){ Q4 r=qc(a)*b; if((r[3]<0)!=(flip!=0)) r=(-1)*r; Q4 p=qpw(r,t); LD n=qn(p); return a*((1/n)*p); }
static LD diff(const double*p,Q4 e){ LD d=0; for(int i=0;i<4;i++){ LD x=fabsl(p[i]-e[i]); if(!(x<=d)) d=x; } return d; }
static const double TAU[]={0,1e-9,.1,.25,.5,.75,.9,1};
static Q4 unitize(Q4 q){ return (1/qn(q))*q; }
struct Pair { double a[4],b[4]; Q4 A,B; bool half; };
static Pair pick_pair(bool dense=true){ V3 r1=pick_rvs("first"); mc::split(); V3 d=dense? pick_rv("relative") : pick_rvq("relative"); int sg=choose(4,"signs"); Q4 A=qexp(r1),B=A*qexp(d); if(sg&1) A=(-1)*A; if(sg&2) B=(-1)*B; Pair p; toq(A,p.a); toq(B,p.b); p.A=unitize(fromq(p.a)); p.B=unitize(fromq(p.b)); p.half=fabsl(qd(p.A,p.B))<1e-9L; return p; }
static void near(const double*x,Q4 e,Q4 e2,bool half,double tol,const char*w,double t){ LD d=diff(x,e); if(half) d=std::min(d,diff(x,e2)); CHECK(d<=tol,"%s at %g: (%.12g %.12g %.12g %.12g), expected (%.12Lg %.12Lg %.12Lg %.12Lg)",w,t,x[0],x[1],x[2],x[3],e[0],e[1],e[2],e[3]); }
static void sp_interp(){ Pair p=pick_pair(); for(double t:TAU){ double r[4]; mc::step(2); Q4 e=slerp(t,p.A,p.B),f=slerp(t,p.A,p.B,1); aa_tf_qslerp(t,p.a,p.b,r); near(r,e,f,p.half,1e-9,"qslerp",t); aa_tf_qslerpalg(t,p.a,p.b,r); near(r,e,f,p.half,1e-9,"qslerpalg",t); }
    LD ang=2*atan2l(qn(p.A+(-1)*p.B),qn(p.A+p.B)); NEAR(aa_tf_quhypangle2(p.a,p.b),(double)ang,1e-12,"angle between quaternions"); NEAR(aa_tf_qangle_rel(p.a,p.b),(double)std::min(ang,PI_L-ang),1e-9,"relative angle"); mc::nontrivial(mc::Hash().bytes(p.a,32).bytes(p.b,32)); }
template<class F> static Q4 nd(F f,LD t,LD h=1e-5L){ return (1/(12*h))*(f(t-2*h)+(-1)*f(t+2*h)+8*(f(t+h)+(-1)*f(t-h))); }
static void sp_diff(){ Pair p=pick_pair(); for(double t:TAU){ double r[4]; mc::step(4); auto f0=[&](LD x){ return slerp(x,p.A,p.B); }; auto f1=[&](LD x){ return slerp(x,p.A,p.B,1); }; Q4 e=nd(f0,t),f=p.half? nd(f1,t) : e; aa_tf_qslerpdiff(t,p.a,p.b,r); near(r,e,f,p.half,1e-8,"qslerpdiff",t); aa_tf_qslerpdiffalg(t,p.a,p.b,r); near(r,e,f,p.half,1e-8,"qslerpdiffalg",t); aa_tf_qslerpdiff_f(t,p.a,p.b,r); near(r,e,f,p.half,1e-8,"qslerpdiff_f",t); aa_tf_qslerpdiffalg_f(t,p.a,p.b,r); near(r,e,f,p.half,1e-8,"qslerpdiffalg_f",t); } mc::nontrivial(mc::Hash().bytes(p.a,32).bytes(p.b,32)); }
/* interpolation between moving rotations */
static const double WV[][3]={{0,0,0},{1,0,0},{-.3,2,.5},{0,-4,1}};
static void mv(const Pair&p,LD t,V3 w1,V3 w2,Q4&a,Q4&b){ a=qexp(t*w1)*p.A; b=qexp(t*w2)*p.B; }
static bool badang(const Pair&p){ LD c=fabsl(qd(p.A,p.B)); if(c<.05L) return true; LD s=nrm(v3((qc(p.A)*p.B)[0],(qc(p.A)*p.B)[1],(qc(p.A)*p.B)[2])); return s>1e-10L && s<1e-6L; }   /* next to a half turn, or where double precision cannot resolve the angle */
static void sp_chain(){ Pair p=pick_pair(false); if(badang(p)) mc::skip(); V3 w1=from3(WV[choose(mc::thorough()?4:3,"w1")]),w2=from3(WV[choose(mc::thorough()?4:3,"w2")]); double u=mc::pick({.3,0.,1.,.5},"u"),du=mc::pick({1.,0.,-2.},"du"); if(!mc::thorough()&&(u==.5||du==0)) mc::skip(); bool fl=qd(p.A,p.B)<0; auto f=[&](LD t){ Q4 a,b; mv(p,t,w1,w2,a,b); return slerp(u+du*t,a,fl? (-1)*b : b); }; Q4 e=nd(f,0),q=slerp(u,p.A,p.B); double d1[4],d2[4],r[4],dr[4]; toq(.5L*(q4(w1[0],w1[1],w1[2],0)*p.A),d1); toq(.5L*(q4(w2[0],w2[1],w2[2],0)*p.B),d2); mc::step(); aa_tf_qslerpchaindiff(u,du,p.a,d1,p.b,d2,r,dr); near(r,q,q,false,1e-9,"qslerpchaindiff: value",u); near(dr,e,e,false,1e-6,"qslerpchaindiff: derivative",u); mc::nontrivial(mc::Hash().bytes(p.a,32).bytes(p.b,32).bytes(dr,32)); }
static void sp_three(){ Q4 Q[4]; double q[4][4]; Q[0]=qexp(.7L*axis_(choose(8,"q1"))); mc::split(); Q[1]=qexp(1.1L*axis_(choose(NAX,"q2"))); Q[2]=qexp(-.4L*axis_(choose(8,"q3"))); Q[3]=qexp(mc::pick({(LD)0,(LD).9L},"q4")*axis_(9)); int sg=choose(8,"signs"); for(int i=0;i<4;i++){ if(i&&sg>>(i-1)&1) Q[i]=(-1)*Q[i]; toq(Q[i],q[i]); } double u1=mc::pick({0.,.6},"u12"),u3=mc::pick({.2,1.},"u34"),u=mc::pick({0.,.4,1.},"u"),du=mc::pick({1.,-.5},"du"); auto g=[&](LD t){ return slerp(u+du*t,slerp(u1+.7L*t,Q[0],Q[1]),slerp(u3-1.3L*t,Q[2],Q[3])); }; Q4 x=slerp(u1,Q[0],Q[1]),y=slerp(u3,Q[2],Q[3]); if(fabsl(qd(x,y))<.05L||fabsl(qd(Q[0],Q[1]))<.01L||fabsl(qd(Q[2],Q[3]))<.01L) mc::skip(); LD sn=sqrtl(std::max((LD)0,1-qd(x,y)*qd(x,y))); if(sn>1e-10L&&sn<1e-6L) mc::skip(); Q4 e=nd(g,0),v=g(0); double r[4],dr[4]; mc::step(); aa_tf_qslerp3diff(u1,.7,q[0],q[1],u3,-1.3,q[2],q[3],u,du,r,dr); near(r,v,v,false,1e-9,"qslerp3diff: value",u); near(dr,e,e,false,1e-6,"qslerp3diff: derivative",u); mc::nontrivial(mc::Hash().bytes(dr,32).bytes(r,32)); }
static void sp_squad(){ Q4 Q[4]; double q[4][4]; Q[0]=qexp(.7L*axis_(choose(8,"q1"))); mc::split(); Q[1]=qexp(1.1L*axis_(choose(NAX,"q2"))); Q[2]=qexp(-.4L*axis_(choose(8,"q3"))); Q[3]=qexp(.9L*axis_(choose(NAX,"q4"))); for(int i=0;i<4;i++) toq(Q[i],q[i]); double h=mc::pick({0.,.25,.5,1.},"h"); Q4 a=slerp(h,Q[0],Q[1]),b=slerp(h,Q[2],Q[3]); double r[4],s[4]; mc::step(2); if(fabsl(qd(Q[0],Q[1]))>.01L&&fabsl(qd(Q[2],Q[3]))>.01L&&fabsl(qd(a,b))>.01L){ Q4 e=slerp(2*h*(1-h),a,b); aa_tf_qsquad(h,q[0],q[1],q[2],q[3],r); near(r,e,e,false,1e-9,"qsquad",h); }
    aa_tf_qsquad_param(q[0],q[1],q[2],s); Q4 l=qln_(qc(Q[1])*Q[0])+qln_(qc(Q[1])*Q[2]); Q4 e=Q[1]*qexp(-.5L*v3(l[0],l[1],l[2])); near(s,e,e,false,1e-9,"qsquad_param",h); mc::nontrivial(mc::Hash().bytes(q,sizeof q)(h)); }
/* averages: dominant eigenvector of the weighted sum of outer products */
static bool dominant(const LD M0[4][4],Q4&v){ LD M[4][4],E[4][4]; memcpy(M,M0,sizeof M); for(int i=0;i<4;i++)for(int j=0;j<4;j++) E[i][j]=i==j; for(int s=0;s<60;s++) for(int p=0;p<4;p++)for(int q=p+1;q<4;q++){ if(fabsl(M[p][q])<1e-25L) continue; LD th=(M[q][q]-M[p][p])/(2*M[p][q]),t=(th>=0?1:-1)/(fabsl(th)+sqrtl(th*th+1)),c=1/sqrtl(t*t+1),si=t*c; for(int k=0;k<4;k++){ LD a=M[k][p],b=M[k][q]; M[k][p]=c*a-si*b; M[k][q]=si*a+c*b; } for(int k=0;k<4;k++){ LD a=M[p][k],b=M[q][k]; M[p][k]=c*a-si*b; M[q][k]=si*a+c*b; } for(int k=0;k<4;k++){ LD a=E[k][p],b=E[k][q]; E[k][p]=c*a-si*b; E[k][q]=si*a+c*b; } }
    int b=0; for(int i=1;i<4;i++) if(M[i][i]>M[b][b]) b=i; for(int i=0;i<4;i++) if(i!=b&&M[b][b]-M[i][i]<1e-3L*fabsl(M[b][b])) return false; v=q4(E[0][b],E[1][b],E[2][b],E[3][b]); return true; }
static void sp_avg(){ int n=choose(mc::thorough()?5:4,"count")+1; mc::split(); size_t ld=4+(size_t)choose(2,"pad"); static const double RV[][3]={{0,0,0},{.3,0,0},{0,-1,.5},{1,1,1},{-.2,.1,2.5},{3.1,0,0}}; double q[5*5]={0},w[5],x[4],y[4]; Q4 Q[5]; int ew=choose(4,"weights"); for(int i=0;i<n;i++){ Q[i]=qexp(from3(RV[choose(6,"rotation")])); if(i<3&&choose(2,"sign")) Q[i]=(-1)*Q[i]; toq(Q[i],q+(size_t)i*ld); w[i]= ew==0||ew==3? 1.0/n : ew==1? (i+1.0) : (i==n-1?10:.1); } if(ew==3){ for(int i=0;i<n;i++) w[i]=1; }
    LD M[4][4]={{0}}; for(int i=0;i<n;i++)for(int a=0;a<4;a++)for(int b=0;b<4;b++) M[a][b]+=w[i]*Q[i][a]*Q[i][b]; double Md[16]; aa_tf_quat_davenport_matrix((size_t)n,w,q,ld,Md); for(int a=0;a<4;a++)for(int b=0;b<4;b++) NEAR(Md[4*b+a],(double)M[a][b],1e-12,"Davenport matrix"); Q4 e; if(!dominant(M,e)) mc::skip(); void*p0=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(3); aa_tf_quat_davenport((size_t)n,ew==0?NULL:w,q,ld,x); CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==p0,"temporary memory was not released"); sameQR(x,qmat(e),1e-8,"average");
    double r[25],wr[5]; for(int i=0;i<n;i++){ memcpy(r+(size_t)(n-1-i)*ld,q+(size_t)i*ld,32); wr[n-1-i]=w[i]; } aa_tf_quat_davenport((size_t)n,ew==0?NULL:wr,r,ld,y); sameQR(y,qmat(e),1e-8,"average in another order"); for(int i=0;i<4;i++) q[i]=-q[i]; aa_tf_quat_davenport((size_t)n,ew==0?NULL:w,q,ld,y); sameQR(y,qmat(e),1e-8,"average with a sign changed"); if(n==2){ LD c=fabsl(qd(Q[0],Q[1])); LD a=fabsl(qd(e,Q[0])),b=fabsl(qd(e,Q[1])); CHECK(a>=c-1e-9L&&b>=c-1e-9L,"model"); } mc::nontrivial(mc::Hash().bytes(q,sizeof q).bytes(w,sizeof(double)*(size_t)n)); }
static void sp_angle(){ V3 r=pick_rv(); mc::split(); Q4 q=qexp(r); if(choose(2,"sign")) q=(-1)*q; double p[4],R[9],c,s,t; toq(q,p); M3 m=qmat(q); tom(m,R); LD n=nrm(v3(q[0],q[1],q[2])); mc::step(2); NEAR(aa_tf_qangle(p),(double)atan2l(n,q[3]),1e-12,"qangle"); aa_tf_rotmat_angle(R,&c,&s,&t); LD th=2*atan2l(n,fabsl(q[3])); NEAR(t,(double)th,1e-7,"rotmat_angle"); NEAR(c,(double)cosl(th),1e-9,"cosine"); NEAR(s,(double)sinl(th),1e-7,"sine"); mc::nontrivial(mc::Hash().bytes(p,32)); }
int main(int c,char**v){ return mc::run(c,v,"C16",{{"interpolate",sp_interp},{"derivative",sp_diff},{"chain",sp_chain},{"three",sp_three},{"squad",sp_squad},{"average",sp_avg},{"angle",sp_angle}}); }
