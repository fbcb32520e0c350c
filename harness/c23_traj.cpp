// Trajectories: joint space (linear, trapezoidal, parabolic blends), workspace (blends, SLERP), path following, waypoint lists.
#include "armmodel.hpp"
#include <array>
#include <deque>
#include <algorithm>
#include "amino/mem.h"
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/rx_ct.h"
struct Reg { struct aa_mem_region r; Reg(){ aa_mem_region_init(&r,256); } ~Reg(){ aa_mem_region_destroy(&r); } };
struct PL { struct aa_ct_pt_list*p; ~PL(){ aa_ct_pt_list_destroy(p); } };
struct SL { struct aa_ct_seg_list*p; ~SL(){ if(p) aa_ct_seg_list_destroy(p); } };
static const double WP[][3]={{0,0,0},{1,-.5,.25},{.2,.2,-1},{1,0,0},{-2,3,.01},{.001,-.002,0}};
struct Lm { V vlo,vhi,alo,ahi; struct aa_ct_state mn,mx; struct aa_ct_limit l; void set(){ memset(&mn,0,sizeof mn); memset(&mx,0,sizeof mx); mn.n_q=mx.n_q=vlo.size(); mn.dq=vlo.data(); mx.dq=vhi.data(); mn.ddq=alo.data(); mx.ddq=ahi.data(); l.min=&mn; l.max=&mx; } };
static void mklim(Lm&L,int k,size_t n){ for(size_t i=0;i<n;i++){ double v=1,a=2,vn=1,an=2; switch(k){ case 1: vn=.5; v=.3; a=an=.4; break; case 2: v=vn=.4+.6*(double)i; a=an=1.5-.5*(double)i; break; case 3: v=vn=100; a=an=3; break; case 4: vn=2; an=1; a=2; v=.7; break; } L.vlo.push_back(-vn); L.vhi.push_back(v); L.alo.push_back(-an); L.ahi.push_back(a); } L.set(); }
enum { LIN, TRAP, PB };
static const char*KN[]={"linear","trapezoidal","blend"};
static struct aa_ct_seg_list*gen(int kind,struct aa_mem_region*r,struct aa_ct_pt_list*p,struct aa_ct_limit*l){ return kind==LIN?aa_ct_tjq_lin_generate(r,p,l):kind==TRAP?aa_ct_tjq_trap_generate(r,p,l):aa_ct_tjq_pb_generate(r,p,l); }
struct St { int in; V q,dq,ddq; };
static St ev(struct aa_ct_seg_list*s,double t,size_t n){ St r; r.q.assign(n,77); r.dq=r.ddq=r.q; struct aa_ct_state x; memset(&x,0,sizeof x); x.n_q=n; x.q=r.q.data(); x.dq=r.dq.data(); x.ddq=r.ddq.data(); mc::step(); r.in=aa_ct_seg_list_eval(s,&x,t); return r; }
static bool bits(const V&a,const V&b){ return a.size()==b.size()&&(a.empty()||!memcmp(a.data(),b.data(),8*a.size())); }
static void evals(struct aa_ct_seg_list*s,double T,size_t n,const std::vector<St>&F,const std::vector<double>&ts){ /* other orders, other entry points, shorter and missing arrays */
    size_t N=ts.size(); std::vector<size_t> ord; for(size_t i=0;i<N;i++) ord.push_back(N-1-i); for(size_t i=0;i<N;i++) ord.push_back(i*37%N); for(size_t i:ord){ if(i%11==3) CHECK(!ev(s,T+1,n).in,"a time after the end is reported as inside"); if(i%13==5) CHECK(!ev(s,-.5,n).in,"a negative time is reported as inside"); St x=ev(s,ts[i],n); CHECK(x.in==F[i].in&&bits(x.q,F[i].q)&&bits(x.dq,F[i].dq)&&bits(x.ddq,F[i].ddq),"time %.9g evaluates to %.12g, but to %.12g in ascending order",ts[i],x.q[0],F[i].q[0]); }
    for(size_t i=0;i<N;i+=5){ V q(n,5),dq(n,5); mc::step(2); CHECK(aa_ct_seg_list_eval_q(s,ts[i],n,q.data())==1&&bits(q,F[i].q),"eval_q at %g",ts[i]); q.assign(n,5); CHECK(aa_ct_seg_list_eval_dq(s,ts[i],n,q.data(),dq.data())==1&&bits(q,F[i].q)&&bits(dq,F[i].dq),"eval_dq at %g",ts[i]); for(size_t m=0;m<n;m++){ V z(m); z.shrink_to_fit(); CHECK(aa_ct_seg_list_eval_q(s,ts[i],m,z.data())==1,"eval_q of %zu variables",m); CHECK(bits(z,V(F[i].q.begin(),F[i].q.begin()+(long)m)),"eval_q of %zu variables at %g",m,ts[i]); } for(int k=0;k<8;k++){ V a(n,5),b(n,5),c(n,5); struct aa_ct_state x; memset(&x,0,sizeof x); x.n_q=n; if(k&1) x.q=a.data(); if(k&2) x.dq=b.data(); if(k&4) x.ddq=c.data(); CHECK(aa_ct_seg_list_eval(s,&x,ts[i])==1,"evaluation without some arrays"); if(k&1) CHECK(bits(a,F[i].q),"position"); if(k&2) CHECK(bits(b,F[i].dq),"velocity"); if(k&4) CHECK(bits(c,F[i].ddq),"acceleration"); aa_ct_seg_list_eval(s,&x,T+3); aa_ct_seg_list_eval(s,&x,-3); } } }
static int count_cb(void*cx,double t,const struct aa_ct_state*s){ int*c=(int*)cx; (void)t; (void)s; c[0]++; return c[0]==c[1]?42:0; }
static void sp_joint(){ bool T_=mc::thorough(); int kind=choose(3,"kind"); size_t n=1+(size_t)choose(3,"variables"),np=2+(size_t)choose(T_?4:3,"waypoints"); int lk=choose(kind==TRAP?4:5,"limits"); std::vector<V> w; for(size_t k=0;k<np;k++){ int a=choose(k>=3?3:T_?6:k==2?4:5,"waypoint"); if(k==1) mc::split(); V v(WP[a],WP[a]+n); if(k){ bool far=false; for(size_t i=0;i<n;i++) far|=fabs(w.back()[i]-v[i])>.00101; if(!far) mc::skip(); /* closer than AA_EPSILON: the same point */ } w.push_back(v); }
    Reg R; Lm L; mklim(L,lk,n); SL s{NULL}; double T; std::vector<double> pre; { for(size_t k=2;k<=np;k++){ PL p{aa_ct_pt_list_create(&R.r)}; for(size_t j=0;j<k;j++){ V c=w[j]; aa_ct_pt_list_add_q(p.p,n,c.data()); c.assign(n,99); } if(k<np){ SL x{gen(kind,&R.r,p.p,&L.l)}; pre.push_back(aa_ct_seg_list_duration(x.p)); } else { struct aa_ct_state z=*aa_ct_pt_list_start_state(p.p); CHECK(V(z.q,z.q+n)==w[0]&&aa_ct_pt_list_size(p.p)==np,"waypoint list"); s.p=gen(kind,&R.r,p.p,&L.l); } } }
    CHECK(s.p&&aa_ct_seg_list_n_q(s.p)==n,"variables of the trajectory"); T=aa_ct_seg_list_duration(s.p); CHECK(std::isfinite(T)&&T>0,"duration %g",T); size_t N=T_?193:97; std::vector<double> ts; for(size_t i=0;i<N;i++) ts.push_back(i+1==N?T:i?T*((double)i-.31830988)/(double)(N-1):0); /* avoids exact segment boundaries: there either neighbour may answer */ for(double x:pre) if(x<T*(1-1e-8)){ ts.push_back(x*(1-1e-9)); ts.push_back(x*(1+1e-9)); } std::sort(ts.begin(),ts.end()); N=ts.size(); std::vector<St> F; for(double t:ts){ F.push_back(ev(s.p,t,n)); CHECK(F.back().in==AA_CT_SEG_IN,"%s: time %.17g of %.17g is reported as outside",KN[kind],t,T); } CHECK(!ev(s.p,-1e-6,n).in,"time before the start is inside"); CHECK(!ev(s.p,T*(1+1e-9)+1e-9,n).in,"time after the end is inside");
    auto at=[&](double t){ return ev(s.p,t,n); }; St a=F[0],z=F[N-1]; double S=1; for(auto&x:w) for(double y:x) S=std::max(S,fabs(y)); for(size_t i=0;i<n;i++){ CHECK(fabs(a.q[i]-w[0][i])<1e-12*S,"%s starts at %.15g, not %.15g",KN[kind],a.q[i],w[0][i]); CHECK(fabs(z.q[i]-w[np-1][i])<1e-9*S,"%s ends at %.15g, not %.15g",KN[kind],z.q[i],w[np-1][i]); if(kind!=LIN) CHECK(fabs(a.dq[i])<1e-9&&fabs(z.dq[i])<1e-8*S,"%s is not at rest at its ends: %g %g",KN[kind],a.dq[i],z.dq[i]); }
    if(kind!=PB) for(size_t k=0;k<pre.size();k++){ St m=at(pre[k]); for(size_t i=0;i<n;i++){ CHECK(fabs(m.q[i]-w[k+1][i])<1e-9*S,"%s does not meet waypoint %zu: %g, not %g",KN[kind],k+1,m.q[i],w[k+1][i]); if(kind==TRAP) CHECK(fabs(m.dq[i])<1e-7*S,"trapezoid is not at rest at waypoint %zu",k+1); } }
    else { size_t at0=0; for(size_t k=1;k+1<np;k++){ double best=1e9; size_t bi=at0; for(size_t j=at0;j<N;j++){ double d=0; for(size_t i=0;i<n;i++){ double span=(fabs(w[k][i]-w[k-1][i])+fabs(w[k+1][i]-w[k][i]))/4; d=std::max(d,fabs(F[j].q[i]-w[k][i])-span); } if(d<best-1e-12){ best=d; bi=j; } } double slack=0; for(size_t i=0;i<n;i++) slack=std::max(slack,std::max(L.vhi[i],-L.vlo[i])*T/(double)(T_?192:96)); CHECK(best<=slack+1e-9,"blend passes waypoint %zu at a distance (%g)",k,best); at0=bi; } }
    for(size_t j=0;j<N;j++){ for(size_t i=0;i<n;i++){ double lo=1e9,hi=-1e9; for(auto&x:w){ lo=std::min(lo,x[i]); hi=std::max(hi,x[i]); } double q=F[j].q[i],d=F[j].dq[i],dd=F[j].ddq[i]; CHECK(q>=lo-1e-9&&q<=hi+1e-9,"%s leaves the range of its waypoints: %g",KN[kind],q); CHECK(d<=L.vhi[i]*(1+1e-9)&&d>=L.vlo[i]*(1+1e-9),"%s: velocity %g of variable %zu is outside %g..%g",KN[kind],d,i,L.vlo[i],L.vhi[i]); if(kind!=LIN) CHECK(dd<=L.ahi[i]*(1+1e-9)&&dd>=L.alo[i]*(1+1e-9),"%s: acceleration %g of variable %zu is outside %g..%g",KN[kind],dd,i,L.alo[i],L.ahi[i]); else CHECK(dd==0,"acceleration of a linear segment is %g",dd);
            if(!j) continue; double h=ts[j]-ts[j-1],p=F[j-1].q[i],pd=F[j-1].dq[i],pa=F[j-1].ddq[i],vm=std::max(L.vhi[i],-L.vlo[i]),am=std::max(L.ahi[i],-L.alo[i]); CHECK(fabs(q-p)<=h*vm+1e-9*S,"%s: position jumps from %g to %g at %g",KN[kind],p,q,ts[j]); double tr=q-p-h*(d+pd)/2; if(kind==LIN) CHECK(fabs(tr)<=h*vm+1e-9*S,"derivative"); else { CHECK(fabs(d-pd)<=h*am*(1+1e-6)+1e-8*S,"%s: velocity jumps from %g to %g at %g",KN[kind],pd,d,ts[j]); CHECK(fabs(tr)<=h*h*am*.5*(1+1e-6)+1e-9*S,"%s: velocity is not the derivative of position at %g (%g)",KN[kind],ts[j],tr); }
            /* within one piece: exact polynomials */ double m=(ts[j]+ts[j-1])/2; St M=at(m); double e1=(q-p)/h-M.dq[i],e2=(d-pd)/h-M.ddq[i]; bool same=dd==pa&&M.ddq[i]==dd&&(kind!=LIN||d==pd); if(same&&fabs((d-pd)-h*dd)<1e-7*S&&h>1e-6) CHECK(fabs(e1)<1e-8*S/std::min(h,1.)&&fabs(e2)<1e-7*S/std::min(h,1.),"%s: derivatives at %g: %g %g",KN[kind],m,e1,e2); } mc::state(mc::Hash()(kind)(lk).bytes(F[j].q.data(),8*n).bytes(F[j].dq.data(),8*n)); }
    if(kind==LIN){ double t=0; for(size_t k=1;k<np;k++){ double d=0; for(size_t i=0;i<n;i++){ double e=w[k][i]-w[k-1][i]; d=std::max(d,e<0?e/L.vlo[i]:e/L.vhi[i]); } for(double f:{.25,.5,.9}){ St m=at(t+f*d); for(size_t i=0;i<n;i++){ CHECK(fabs(m.q[i]-(w[k-1][i]+f*(w[k][i]-w[k-1][i])))<1e-9*S,"linear segment %zu at fraction %g",k,f); CHECK(fabs(m.dq[i]-(w[k][i]-w[k-1][i])/d)<1e-9*S,"velocity of linear segment %zu",k); } } t+=d; } CHECK(fabs(t-T)<1e-9*T,"linear duration %g, expected %g",T,t); }
    evals(s.p,T,n,F,ts); auto reg=aa_mem_region_local_get(); void*top=aa_mem_region_ptr(reg); int c[2]={0,-1}; mc::step(2); double dt=T/20.5; CHECK(aa_ct_seg_list_check(s.p,dt,count_cb,c)==0&&c[0]==21,"check visited %d states",c[0]); int c2[2]={0,3}; CHECK(aa_ct_seg_list_check(s.p,dt,count_cb,c2)==42&&c2[0]==3,"check did not stop at the rejected state"); double vs=0; for(size_t i=0;i<n;i++) vs+=std::max(L.vhi[i],-L.vlo[i]); CHECK(aa_ct_seg_list_check_c0(s.p,dt,vs*dt*1.001+1e-9,1e-6)==0,"%s trajectory is not considered continuous (%d)",KN[kind],aa_ct_seg_list_check_c0(s.p,dt,vs*dt*1.001+1e-9,1e-6)); double mv=0; { for(int k=0;k<19;k++){ St A=at(dt*k),B=at(dt*(k+1)); double d=0; for(size_t i=0;i<n;i++) d+=fabs(A.q[i]-B.q[i]); mv=std::max(mv,d); } } if(mv>1e-6) CHECK(aa_ct_seg_list_check_c0(s.p,dt,mv*.99,1e-6)==1,"steps larger than the tolerance are accepted"); CHECK(top==aa_mem_region_ptr(reg),"checks kept memory"); mc::nontrivial(mc::Hash()(kind)(n)(np)(lk)(T)); }
/* ---- workspace ---- */
static V3 at(const double*p,int o){ return v3(p[o],p[o+1],p[o+2]); }
struct WS { int in; double X[7],dX[6]; };
static WS evx(struct aa_ct_seg_list*s,double t){ WS r; struct aa_ct_state x; memset(&x,0,sizeof x); for(double&d:r.X) d=9; for(double&d:r.dX) d=9; x.X=r.X; x.dX=r.dX; mc::step(); r.in=aa_ct_seg_list_eval(s,&x,t); return r; }
static M3 rot(const double*X){ return qmat(q4(X[0],X[1],X[2],X[3])); }
static const double WR[][3]={{0,0,0},{.3,-.2,.5},{0,0,1.5707963267948966},{-1,2,.2},{0,2.5,0}}, WT[][3]={{0,0,0},{.5,-.2,.1},{-1,0,2}};
static void sp_work(){ bool T_=mc::thorough(); int kind=choose(2,"kind"); size_t np= kind?2:2+(size_t)choose(T_?3:2,"waypoints"); int lk=kind?0:choose(3,"limits"); std::vector<std::array<double,7>> w; std::vector<Pose> P; for(size_t k=0;k<np;k++){ int a=choose(5,"rotation"),b=choose(k==2&&!T_?2:3,"translation"); if(k==1) mc::split(); V3 wr=from3(WR[a]),t=from3(WT[b]); Rep r=rep(wr,t,choose(k==2?1:2,"sign")); std::array<double,7> e; memcpy(e.data(),r.E,56); if(k){ M3 d=tr(P.back().R)*r.P.R; V3 l=rlog(d); if(nrm(l)<1e-9L&&vdist(P.back().t,r.P.t)<1e-9L) mc::skip(); if(nrm(l)>3.1L) mc::skip(); } w.push_back(e); P.push_back(r.P); }
    Reg R; SL s{NULL}; double lim[3]={1,.4,50}; V mn(6,-lim[lk]),mx(6,lim[lk]),an(6,-2*lim[lk]),ax(6,1.5*lim[lk]); struct aa_ct_state smn,smx; memset(&smn,0,sizeof smn); memset(&smx,0,sizeof smx); smn.dX=mn.data(); smx.dX=mx.data(); smn.ddX=an.data(); smx.ddX=ax.data(); struct aa_ct_limit L={&smn,&smx}; { PL p{aa_ct_pt_list_create(&R.r)}; for(auto&e:w){ std::array<double,7> c=e; aa_ct_pt_list_add_qutr(p.p,c.data()); c.fill(5); } CHECK(aa_ct_pt_list_size(p.p)==np,"waypoints"); s.p= kind?aa_ct_tjx_slerp_generate(&R.r,p.p):aa_ct_tjX_pb_generate(&R.r,p.p,&L); }
    CHECK(s.p,"no trajectory"); double T=aa_ct_seg_list_duration(s.p); CHECK(std::isfinite(T)&&T>0,"duration"); if(kind) CHECK(T==1,"SLERP duration %g",T); int N=T_?201:101; WS pr; std::vector<WS> F; for(int j=0;j<N;j++){ double t=j==N-1?T:j?T*(j-.31830988)/(N-1):0; WS x=evx(s.p,t); F.push_back(x); CHECK(x.in==AA_CT_SEG_IN,"time %g of %g is outside",t,T); LD nq=0; for(int i=0;i<4;i++) nq+=(LD)x.X[i]*x.X[i]; CHECK(fabsl(nq-1)<1e-9L,"quaternion of length %Lg",sqrtl(nq)); M3 Rj=rot(x.X); V3 tj=at(x.X,4); if(j==0||j==N-1){ size_t k=j?np-1:0; CHECK(mdist(Rj,P[k].R)<1e-8L&&vdist(tj,P[k].t)<1e-9L,"%s is not at waypoint %zu",j?"end":"start",k); }
        if(kind){ V3 l=rlog(P[1].R*tr(P[0].R)); CHECK(mdist(Rj,rexp((LD)t*l)*P[0].R)<1e-8L,"SLERP rotation at %g",t); CHECK(vdist(tj,P[0].t+(LD)t*(P[1].t-P[0].t))<1e-9L,"SLERP translation at %g",t); if(j&&j<N-1){ sameV(at(x.dX,AA_TF_DX_W),l,1e-7,"SLERP angular velocity"); sameV(at(x.dX,AA_TF_DX_V),P[1].t-P[0].t,1e-9,"SLERP velocity"); } }
        else { if(j==0||j==N-1) for(int i=0;i<6;i++) CHECK(fabs(x.dX[i])<1e-6,"not at rest at the ends: %g",x.dX[i]); for(int i=0;i<3;i++) CHECK(fabs(x.dX[AA_TF_DX_V+i])<=lim[lk]*(1+1e-9),"velocity %g exceeds its limit",x.dX[AA_TF_DX_V+i]); if(j){ double h=T/(N-1); M3 Q=rot(pr.X); V3 wd=(1/(LD)h)*rlog(Rj*tr(Q)),vd=(1/(LD)h)*(tj-at(pr.X,4)); V3 wa=(LD).5*(at(x.dX,AA_TF_DX_W)+at(pr.dX,AA_TF_DX_W)),va=(LD).5*(at(x.dX,AA_TF_DX_V)+at(pr.dX,AA_TF_DX_V)); LD am=2*lim[lk]; CHECK(nrm(vd-va)<=h*am+1e-6L,"velocity is not the derivative of position (%Lg at %g)",nrm(vd-va),t); LD W=lim[lk]*2,bw=h*(am*2+2*W*W)+1e-6L; if(bw<2*W) CHECK(nrm(wd-wa)<=bw,"angular velocity is not the derivative of orientation (%Lg at %g)",nrm(wd-wa),t); } }
        mc::state(mc::Hash()(kind).bytes(x.X,56)); pr=x; }
    /* short steps: derivative to first order */ for(int j=1;j<N-1;j+=7){ double t=T*j/(N-1)+T*1e-3,h=T*1e-5; WS a=evx(s.p,t-h),b=evx(s.p,t+h),m=evx(s.p,t); if(!a.in||!b.in||!m.in) continue; V3 wd=(1/(2*(LD)h))*rlog(rot(b.X)*tr(rot(a.X))),vd=(1/(2*(LD)h))*(at(b.X,4)-at(a.X,4)); LD tol=(kind?1e-6L:h*8*lim[lk]*(1+4*lim[lk]))+1e-6L*(1+nrm(wd)+nrm(vd)); CHECK(nrm(wd-at(m.dX,AA_TF_DX_W))<tol,"angular velocity at %g is off by %Lg",t,nrm(wd-at(m.dX,AA_TF_DX_W))); CHECK(nrm(vd-at(m.dX,AA_TF_DX_V))<tol,"velocity at %g is off by %Lg",t,nrm(vd-at(m.dX,AA_TF_DX_V))); }
    CHECK(!evx(s.p,-1e-6).in&&!evx(s.p,T*(1+1e-9)+1e-9).in,"times outside are reported as inside"); for(int j=N-1;j>=0;j-=3){ double t=j==N-1?T:j?T*(j-.31830988)/(N-1):0; WS x=evx(s.p,t); CHECK(x.in&&!memcmp(x.X,F[(size_t)j].X,56)&&!memcmp(x.dX,F[(size_t)j].dX,48),"backward evaluation at %g",t); double X[7]; struct aa_ct_state st; memset(&st,0,sizeof st); st.X=X; CHECK(aa_ct_seg_list_eval(s.p,&st,t)==1&&!memcmp(X,x.X,56),"evaluation without velocities"); V eff(1,5); st.eff=eff.data(); st.n_q=1; st.X=NULL; st.dX=X; CHECK(aa_ct_seg_list_eval(s.p,&st,t)==1,"evaluation without a pose"); } mc::nontrivial(mc::Hash()(kind)(np)(lk)(T).bytes(w[0].data(),56).bytes(w[1].data(),56)); }
/* ---- waypoint lists and states ---- */
static void sp_list(){ int depth=mc::thorough()?6:4; Reg R; std::deque<std::pair<int,int>> M; PL p{aa_ct_pt_list_create(&R.r)}; for(int d=0;d<depth;d++){ if(d==2) mc::split(); int op=choose(3,"op"),v=choose(4,"point"); V q(WP[v],WP[v]+3),dq(WP[3],WP[3]+3); double E[7]={0,0,0,1,(double)v,0,0}; struct aa_ct_state st; memset(&st,0,sizeof st); int form=op==2?2:(v==3?1:0); st.n_q=3; st.q=q.data(); if(form) st.dq=dq.data(); mc::step(); if(op==0){ aa_ct_pt_list_add(p.p,&st); if(M.empty()||M.back()!=std::make_pair(form,v)) M.push_back({form,v}); } else if(op==1){ aa_ct_pt_list_add_front(p.p,&st); if(M.empty()||M.front()!=std::make_pair(form,v)) M.push_front({form,v}); } else { aa_ct_pt_list_add_qutr(p.p,E); if(M.empty()||M.back()!=std::make_pair(form,v)) M.push_back({form,v}); } q.assign(3,9); dq.assign(3,9); E[4]=55;
        CHECK(aa_ct_pt_list_size(p.p)==M.size(),"%zu waypoints, expected %zu",aa_ct_pt_list_size(p.p),M.size()); auto chk=[&](const struct aa_ct_state*s,std::pair<int,int> m,const char*w){ if(m.first==2){ CHECK(s->X&&!s->q&&s->X[4]==m.second&&s->X[3]==1,"%s waypoint",w); } else { CHECK(!s->X&&s->q&&s->n_q==3&&V(s->q,s->q+3)==V(WP[m.second],WP[m.second]+3),"%s waypoint",w); CHECK(!s->dq==(m.first==0),"%s waypoint velocity",w); if(m.first) CHECK(V(s->dq,s->dq+3)==V(WP[3],WP[3]+3),"%s waypoint velocity",w); } }; chk(aa_ct_pt_list_start_state(p.p),M.front(),"first"); chk(aa_ct_pt_list_final_state(p.p),M.back(),"last"); mc::state(mc::Hash()(d)(M.size())(M.front().second)(M.back().second)(M.front().first)); }
    struct aa_ct_pt*pt=(struct aa_ct_pt*)((char*)aa_ct_pt_list_start_state(p.p)-offsetof(struct aa_ct_pt,state)); size_t k=0; struct aa_ct_pt*last=NULL; for(;pt;pt=pt->next,k++){ CHECK(pt->prev==last,"links"); last=pt; CHECK(k<M.size()&&(M[k].first==2?pt->state.X&&pt->state.X[4]==M[k].second:pt->state.q&&pt->state.q[1]==WP[M[k].second][1]),"waypoint %zu",k); } CHECK(k==M.size(),"%zu waypoints are linked",k);
    /* states */ size_t n=1+M.size()%3,nf=M.size()%4; struct aa_ct_state*s=aa_ct_state_alloc(&R.r,n,nf); CHECK(s->n_q==n&&s->n_tf==nf,"state sizes"); for(size_t i=0;i<n;i++) CHECK(s->q[i]==0&&s->dq[i]==0&&s->ddq[i]==0,"state not zero"); double*arr[]={s->q,s->dq,s->ddq,s->eff,s->X,s->dX,s->ddX,s->TF_abs,s->TF_rel}; size_t len[]={n,n,n,n,7,6,6,7*nf,7*nf}; for(int a=0;a<9;a++) for(size_t i=0;i<len[a];i++) arr[a][i]=a*100+(double)i; struct aa_ct_state c; struct aa_mem_region*rr=&R.r; aa_ct_state_clone(rr,&c,s); CHECK(aa_ct_state_eq(&c,s),"a clone differs"); double*arc[]={c.q,c.dq,c.ddq,c.eff,c.X,c.dX,c.ddX,c.TF_abs,c.TF_rel}; for(int a=0;a<9;a++) for(size_t i=0;i<len[a];i++){ CHECK(arr[a][i]==a*100+(double)i,"arrays of a state overlap (%d)",a); CHECK(arc[a][i]==arr[a][i]&&arc[a]!=arr[a],"clone array %d element %zu",a,i); } for(int a:{0,1,2,4,5,6}){ double o=arc[a][len[a]-1]; arc[a][len[a]-1]=o+1; CHECK(!aa_ct_state_eq(&c,s)&&!aa_ct_state_eq(s,&c),"states that differ in array %d are equal",a); arc[a][len[a]-1]=o; CHECK(aa_ct_state_eq(&c,s),"equality"); double**f[]={&c.q,&c.dq,&c.ddq,NULL,&c.X,&c.dX,&c.ddX}; double*keep=*f[a]; *f[a]=NULL; CHECK(!aa_ct_state_eq(&c,s)&&!aa_ct_state_eq(s,&c),"a missing array %d is equal",a); *f[a]=keep; } double E[7]={1,2,3,4,5,6,7}; aa_ct_state_set_qutr(s,E); CHECK(!memcmp(s->X,E,56),"set_qutr"); mc::nontrivial(mc::Hash()(M.size())(M.front().second)(M.back().second)); }
/* a trajectory of one waypoint has no segments */
static void sp_single(){ int kind=choose(2,"kind"); size_t n=1+(size_t)choose(3,"variables"); mc::split(); Reg R; Lm L; mklim(L,0,n); PL p{aa_ct_pt_list_create(&R.r)}; V q(n,.5); aa_ct_pt_list_add_q(p.p,n,q.data()); aa_ct_pt_list_add_q(p.p,n,q.data()); CHECK(aa_ct_pt_list_size(p.p)==1,"equal waypoints are kept"); SL s{gen(kind,&R.r,p.p,&L.l)}; CHECK(s.p&&aa_ct_seg_list_duration(s.p)==0&&aa_ct_seg_list_n_q(s.p)==n,"trajectory of one waypoint"); for(double t:{0.5,-1.,2.}) for(int h=0;h<2;h++) CHECK(!ev(s.p,t,n).in,"time %g is inside an empty trajectory",t); CHECK(!aa_ct_tjx_slerp_generate(&R.r,p.p),"SLERP of one waypoint"); mc::nontrivial(mc::Hash()(kind)(n)); }
/* ---- scene graph limits, waypoint arrays, following a workspace path ---- */
static void sp_scene(){ Scene A=pick_arm(); mc::split(); size_t n=A.f.size()-1; Reg R; SG sg(A.make()); unsigned m=(unsigned)choose(16,"limited kinds"); for(size_t i=0;i<n;i++) if(i%2==0||m==15){ if(m&1) aa_rx_sg_set_limit_pos(sg,JN[i],-1-(double)i,2); if(m&2) aa_rx_sg_set_limit_vel(sg,JN[i],-.5,.25+(double)i); if(m&4) aa_rx_sg_set_limit_acc(sg,JN[i],-3,4); if(m&8) aa_rx_sg_set_limit_eff(sg,JN[i],-10,20+(double)i); } for(int h=0;h<2;h++){ mc::step(); struct aa_ct_limit*l=h?aa_rx_ct_limits(&R.r,sg):aa_rx_ct_sg_limits(&R.r,sg); CHECK(l->min->n_q==n&&l->max->n_q==n,"limit sizes"); for(size_t i=0;i<n;i++){ size_t k=(size_t)aa_rx_sg_config_id(sg,JN[i]); bool on=i%2==0||m==15; auto is=[&](unsigned b,const double*lo,const double*hi,double a,double z,const char*w){ bool o=on&&(m&b); CHECK(lo[k]==(o?a:-INFINITY)&&hi[k]==(o?z:INFINITY),"%s limits of %s are %g..%g",w,JN[i],lo[k],hi[k]); }; is(1,l->min->q,l->max->q,-1-(double)i,2,"position"); is(2,l->min->dq,l->max->dq,-.5,.25+(double)i,"velocity"); is(4,l->min->ddq,l->max->ddq,-3,4,"acceleration"); is(8,l->min->eff,l->max->eff,-10,20+(double)i,"effort"); } mc::nontrivial(mc::Hash()(n)(m)(h)); }
    V path; for(int k=0;k<4;k++) for(size_t i=0;i<n;i++) path.push_back(k==2?QV[0][i]+1:QV[0][i]+(k==3)); PL p{aa_rx_ct_pt_list(&R.r,n,4,path.data())}; CHECK(aa_ct_pt_list_size(p.p)==2,"waypoints of a path: %zu",aa_ct_pt_list_size(p.p)); CHECK(V(aa_ct_pt_list_final_state(p.p)->q,aa_ct_pt_list_final_state(p.p)->q+n)==V(path.end()-(long)n,path.end()),"last waypoint"); }
static void sp_follow(){ Scene A=pick_arm(); mc::split(); size_t n=A.f.size()-1; int ql=choose(3,"start"),kind=choose(2,"kind"),lim=choose(2,"position limits"),extra=choose(2,"other joints"); double sgn=choose(2,"direction")?1:-1; Scene S; if(extra){ static const JT sl={AA_RX_FRAME_REVOLUTE,{0,0,1},0,NULL}; S.add("base","",sl,NULL,TVS[3]); for(auto f:A.f){ if(f.parent=="") f.parent="base"; S.f.push_back(f); } } else S=A; V q0(QV[ql],QV[ql]+n),q1=q0; for(size_t i=0;i<n;i++) q1[i]+=sgn*(.12+.05*(double)i)*(i%2?-1:1); for(auto&x:{q0,q1}) for(double v:ref_sv(jac(A,conf(x.data(),n),n))) if(v*v<.03) mc::skip(); SG sg(S.make()); if(lim) for(size_t i=0;i<n;i++) aa_rx_sg_set_limit_pos(sg,JN[i],-2.5-.1*(double)i,2.5+.1*(double)i); if(lim&&extra) aa_rx_sg_set_limit_pos(sg,"base",.55,.65); int tip=(int)S.f.size()-1; auto cf=[&](const V&q){ Conf c=conf(q.data(),n); if(extra) c["base"]=.6; return c; }; Pose P0=S.abs(tip,cf(q0)),P1=S.abs(tip,cf(q1)); Reg R; PL p{aa_ct_pt_list_create(&R.r)}; double E0[7],E1[7]; qe(P0,v3(0,0,0),E0); qe(P1,v3(0,0,0),E1); aa_ct_pt_list_add_qutr(p.p,E0); aa_ct_pt_list_add_qutr(p.p,E1); V mn(6,-1),mx(6,1); struct aa_ct_state smn,smx; memset(&smn,0,sizeof smn); memset(&smx,0,sizeof smx); smn.dX=smn.ddX=mn.data(); smx.dX=smx.ddX=mx.data(); struct aa_ct_limit L={&smn,&smx}; SL s{kind?aa_ct_tjx_slerp_generate(&R.r,p.p):aa_ct_tjX_pb_generate(&R.r,p.p,&L)};
    Sub ss{aa_rx_sg_chain_create(sg,extra?aa_rx_sg_frame_id(sg,"base"):AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"tip"))}; struct aa_rx_ik_parm*o=aa_rx_ik_parm_create(); aa_rx_ik_parm_set_dt(o,.02); V qa=qvec(sg,cf(q0)),qb=qa; size_t np=0; double*path=NULL; struct aa_mem_region reg; aa_mem_region_init(&reg,128); auto lr=aa_mem_region_local_get(); void*top=aa_mem_region_ptr(lr); mc::step(); CHECK(aa_rx_ct_tjx_path(&reg,o,ss.p,s.p,0,NULL,&np,&path)!=0,"a path without a start is accepted"); int r=aa_rx_ct_tjx_path(&reg,o,ss.p,s.p,qa.size(),qa.data(),&np,&path); aa_rx_ik_parm_destroy(o); CHECK(!r,"tjx_path: %d",r); CHECK(top==aa_mem_region_ptr(lr),"tjx_path kept memory"); CHECK(bits(qa,qb),"start changed"); double T=aa_ct_seg_list_duration(s.p); CHECK(np>=(size_t)(T/.02)&&np<=(size_t)(T/.02)+3,"%zu points for %g s",np,T);
    /* arms with few joints cannot follow the path exactly: allow for the distance of the path from what they reach */ long double off=0; for(int k=1;k<20;k++){ WS e=evx(s.p,T*k/20); long double b=9; for(int j=0;j<=60;j++){ V q=q0; for(size_t i=0;i<n;i++) q[i]+=(q1[i]-q0[i])*j/60; Pose X=S.abs(tip,cf(q)); b=std::min(b,mdist(X.R,rot(e.X))+vdist(X.t,at(e.X,4))); } off=std::max(off,b); } off=.03L+(n<6?3*off:0);
    for(size_t k=0;k<np;k++){ V q(path+k*n,path+(k+1)*n); for(size_t i=0;i<n;i++) CHECK(std::isfinite(q[i])&&(!lim||fabs(q[i])<=2.5+.1*(double)i),"joint value %g",q[i]); Pose X=S.abs(tip,cf(q)); double t=(double)(k+1)*.02; WS e=evx(s.p,std::min(t,T)); if(k==0){ double d=0; for(size_t i=0;i<n;i++) d=std::max(d,fabs(q[i]-q0[i])); CHECK(d<.2,"the path does not start at the start (%g)",d); } CHECK(mdist(X.R,rot(e.X))+vdist(X.t,at(e.X,4))<off,"point %zu of %zu is off the path by %Lg",k,np,mdist(X.R,rot(e.X))+vdist(X.t,at(e.X,4))); mc::state(mc::Hash().bytes(q.data(),8*n)); } Pose X=S.abs(tip,cf(V(path+(np-1)*n,path+np*n))); CHECK(mdist(X.R,P1.R)+vdist(X.t,P1.t)<off,"the path does not end at the last waypoint"); aa_mem_region_destroy(&reg); mc::nontrivial(mc::Hash()(n)(ql)(kind)(lim)(extra)(sgn)(np)); }
int main(int c,char**v){ return mc::run(c,v,"C23",{{"joint space",sp_joint},{"workspace",sp_work},{"lists and states",sp_list},{"single waypoint",sp_single},{"limits and arrays",sp_scene},{"following",sp_follow}}); }
