// Workspace control: velocity maps, pose feedback, constrained controller, on small arms.
#include "armmodel.hpp"
#include "amino/opt/opt.h"
static const double DX[][6]={{1,0,0,0,0,0},{0,1,0,0,0,0},{0,0,1,0,0,0},{0,0,0,1,0,0},{0,0,0,0,1,0},{0,0,0,0,0,1},{.3,-.2,.5,-1,2,.1},{0,0,0,0,0,0}};
static const double DQ[][7]={{.5,-.25,1,.1,-.4,.3,-.2},{0,0,0,0,0,0,0},{-1,-1,2,0,0,1,0}};
static void setopt(struct aa_rx_wk_opts*o,int k){ switch(k){ case 1: o->s2min=.3; break; case 2: o->s2min=0; o->k_dls=.1; break; case 3: o->s2min=0; o->k_dls=0; break; case 4: o->s2min=0; break; } }
static void sp_velocity(){ Scene S=pick_arm(); mc::split(); size_t n=S.f.size()-1; int ql=choose(3,"configuration"); Conf c=conf(QV[ql],n); SG sg(S.make(choose(2,"children added first"))); bool extra=false; V q=qvec(sg,c); Sub s{aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"tip"))}; (void)extra; FK fk{aa_rx_fk_malloc(sg)}; struct aa_dvec vq=AA_DVEC_INIT(n,q.data(),1); aa_rx_fk_all(fk.p,&vq); Ref J=jac(S,c,n); for(double x:ref_sv(J)) if(x>1e-7&&x<1e-3) mc::skip(); /* rank is ambiguous there */
    CHECK(aa_rx_sg_sub_config_count(s.p)==n,"variables of the arm"); for(int k=0;k<5;k++){ Opt o; setopt(o.p,k); Ref P=ref_spectral(J,[&](double w){ return w<1e-12?0:pinvstar(o.p,w); }); Ref N=Ref::eye(n)-P*J; for(size_t inc:{1,2}) for(auto&d:DX){ V dx(d,d+6); SV x(dx,inc),r(V(n,-5),inc); mc::step(); CHECK(aa_rx_wk_dx2dq(s.p,o.p,fk.p,&x.v,&r.v)==0,"dx2dq failed"); char w[80]; snprintf(w,80,"dx2dq with options %d",k); V e=vec(P*col(dx)); same(r.get(),e,2e-7,w); r.gaps(w); CHECK(x.get()==dx,"dx2dq changed its input"); mc::state(mc::Hash().bytes(r.b.data(),8*r.b.size()));
            for(auto&g:DQ){ V dq(g,g+n); SV z(dq,inc),y(V(n,-5),inc); mc::step(); CHECK(aa_rx_wk_dx2dq_np(s.p,o.p,fk.p,&x.v,&z.v,&y.v)==0,"dx2dq_np failed"); snprintf(w,80,"dx2dq_np with options %d",k); same(y.get(),vec(P*col(dx)+N*col(dq)),2e-7,w); y.gaps(w); CHECK(z.get()==dq,"dx2dq_np changed its input"); } }
        /* feasible motions are reproduced exactly away from singularities */
        for(auto&g:DQ){ V dq(g,g+n),dx=vec(J*col(dq)); bool good=true; for(double v:ref_sv(J)) if(v*v>1e-9&&v*v<o.p->s2min) good=false; if(!good||k==2||k==4) continue; SV x(dx,1),r(V(n,0),1); aa_rx_wk_dx2dq(s.p,o.p,fk.p,&x.v,&r.v); same(vec(J*col(r.get())),dx,1e-6,"motion achieved by dx2dq"); }
        mc::nontrivial(mc::Hash()(k)(n).bytes(q.data(),8*n)); }
    /* centring velocities */
    for(double gain:{1.,.5,0.}) for(size_t inc:{1,3}){ Opt o; o.p->gain_np=gain; V qs(QV[0],QV[0]+n); SG g2(S.make()); V e(n,0); for(size_t i=0;i<n;i++) if(i%3!=1){ double lo=-1.-(double)i,hi=.5+(double)i; aa_rx_sg_set_limit_pos(g2,JN[i],lo,hi); e[i]=gain*((lo+hi)/2-qs[i])/(hi-lo); } Sub s2{aa_rx_sg_chain_create(g2,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(g2,"tip"))}; SV a(qs,inc),r(V(n,-5),inc); mc::step(); aa_rx_wk_dqcenter(s2.p,o.p,&a.v,&r.v); same(r.get(),e,1e-12,"dqcenter"); r.gaps("dqcenter"); CHECK(a.get()==qs,"dqcenter changed its input"); } }
/* ---- pose error ---- */
static V3 at(const double*p,int o){ return v3(p[o],p[o+1],p[o+2]); }
static void sp_pose(){ V3 we=pick_rv("error"); V3 te=from3(TRS[choose(7,"error translation")]); mc::split(); V3 wr=choose(2,"reference")?v3(.5,-1,.7):v3(0,0,0); V3 t=from3(PTS[3]); if(fabsl(nrm(we)-PI_L)<1e-5) mc::skip(); Rep R=rep(wr,t,choose(2,"sign")); Pose A={rexp(we)*R.P.R,R.P.t+te}; double Ea[7]; { Q4 q=qexp(we)*qexp(wr); if(choose(2,"sign")) q=(-1)*q; toq(q,Ea); to3(A.t,Ea+4); }
    double E0[7]; memcpy(E0,Ea,56); for(size_t inc:{1,2}) for(int g=0;g<3;g++){ Opt o; o.p->gain_angle=g==1?.5:1; o.p->gain_trans=g==2?0:2; V z={.1,.2,.3,-.4,-.5,-.6}; if(g==0) z.assign(6,0); SV d(z,inc); mc::step(); aa_rx_wk_dx_pos(o.p,Ea,R.E,&d.v); d.gaps("dx_pos"); V r=d.get(); V3 w=(2/(LD)-o.p->gain_angle)*(at(r.data(),AA_TF_DX_W)-at(z.data(),AA_TF_DX_W)); sameV(w,we,1e-7,"angular feedback"); V3 v; if(g==2){ sameV(at(r.data(),AA_TF_DX_V),at(z.data(),AA_TF_DX_V),1e-15,"linear feedback with no gain"); continue; } v=(2/(LD)-o.p->gain_trans)*(at(r.data(),AA_TF_DX_V)-at(z.data(),AA_TF_DX_V));
        /* the screw motion with this velocity takes the reference to the actual pose in unit time */ V3 v0=v-cross(we,A.t); sameV(rvmat(we)*v0+rexp(we)*R.P.t,A.t,1e-6,"linear feedback"); mc::state(mc::Hash().bytes(r.data(),48)); }
    CHECK(!memcmp(E0,Ea,56),"dx_pos changed its input"); mc::nontrivial(mc::Hash()(we)(te)(wr)); }
/* ---- feedback drives the error to zero ---- */
static void sp_feedback(){ Scene S=pick_arm(); mc::split(); size_t n=S.f.size()-1; int ql=choose(3,"configuration"); double sg_=choose(2,"direction")?1:-1; int lim=choose(2,"position limits"); SG sg(S.make()); V qr(QV[ql],QV[ql]+n),q=qr; for(size_t i=0;i<n;i++) q[i]+=sg_*(.06+.03*(double)i)*(i%2?-1:1); if(lim) for(size_t i=0;i<n;i++) aa_rx_sg_set_limit_pos(sg,JN[i],-2,2); Conf cr=conf(qr.data(),n); for(auto&x:{qr,q}) for(double v:ref_sv(jac(S,conf(x.data(),n),n))) if(v*v<.02) mc::skip(); Sub s{aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"tip"))}; FK fk{aa_rx_fk_malloc(sg)}; Opt o; if(choose(2,"gains")){ o.p->gain_angle=2; o.p->gain_trans=.8; o.p->gain_np=.1; }
    Pose R=S.abs((int)n,cr); double Er[7],Ea[7]; qe(R,v3(0,0,0),Er); LD e0=0,e=0; for(int it=0;it<=240;it++){ Pose A=S.abs((int)n,conf(q.data(),n)); e=mdist(A.R,R.R)+vdist(A.t,R.t); if(it==0) e0=e; if(it==240) break; qe(A,v3(0,0,0),Ea); V qf=qvec(sg,conf(q.data(),n)); struct aa_dvec vq=AA_DVEC_INIT(n,qf.data(),1); aa_rx_fk_all(fk.p,&vq); V dx(6,0),dr(n),dq(n); struct aa_dvec vx=AA_DVEC_INIT(6,dx.data(),1),vr=AA_DVEC_INIT(n,dr.data(),1),vd=AA_DVEC_INIT(n,dq.data(),1),vc=AA_DVEC_INIT(n,q.data(),1); mc::step(3); aa_rx_wk_dx_pos(o.p,Ea,Er,&vx); aa_rx_wk_dqcenter(s.p,o.p,&vc,&vr); aa_rx_wk_dx2dq_np(s.p,o.p,fk.p,&vx,&vr,&vd); for(size_t i=0;i<n;i++) q[i]+=.08*dq[i]; }
    CHECK(e<1e-3*(double)e0,"pose error %Lg after feedback from %Lg",e,e0); mc::nontrivial(mc::Hash()(n)(ql)(lim).bytes(q.data(),8*n)); }
/* ---- constrained controller ---- */
struct Lim { double lo,hi; };
static const Lim LV[]={{-INFINITY,INFINITY},{-.4,.6},{-.05,.02}}, LA[]={{-INFINITY,INFINITY},{-1,2},{-.3,.2},{-.3,INFINITY}};
static void sp_limits(){ int k=choose(6,"arm"); bool T=mc::thorough(); Scene S=k<3?(k==0?arm({1}):k==1?arm({3,2}):arm({1,5,4})):arm7(k+2); int solver=choose(T?3:2,"solver"); Lim lv=LV[choose(3,"velocity limits")],la=LA[choose(T?4:3,"acceleration limits")]; int lp=choose(4,"position limits"); mc::split(); int mixed=choose(2,"every other joint limited"); size_t n=S.f.size()-1; int ql=choose(T?3:2,"configuration"); V q(QV[2*(ql%2)],QV[2*(ql%2)]+n); if(ql==2) q.assign(QV[1],QV[1]+n); SG sg(S.make(choose(T?2:1,"children added first")));
    V vl(n,-INFINITY),vh(n,INFINITY),al=vl,ah=vh,pl=vl,ph=vh; for(size_t i=0;i<n;i++) if(!mixed||i%2==0){ if(std::isfinite(lv.hi)) aa_rx_sg_set_limit_vel(sg,JN[i],vl[i]=lv.lo,vh[i]=lv.hi); if(std::isfinite(la.lo)||std::isfinite(la.hi)) aa_rx_sg_set_limit_acc(sg,JN[i],al[i]=la.lo,ah[i]=la.hi); if(lp==1) aa_rx_sg_set_limit_pos(sg,JN[i],pl[i]=q[i]-1,ph[i]=q[i]+1.5); if(lp==2) aa_rx_sg_set_limit_pos(sg,JN[i],pl[i]=q[i]-.01,ph[i]=q[i]+.002); if(lp==3) aa_rx_sg_set_limit_pos(sg,JN[i],pl[i]=q[i]+.001,ph[i]=q[i]+1); }
    Sub s{aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"tip"))}; Conf c=conf(q.data(),n); Ref J=jac(S,c,n); for(double x:ref_sv(J)) if(x>1e-7&&x<1e-3) mc::skip(); FK fk{aa_rx_fk_malloc(sg)}; V qf=qvec(sg,c); struct aa_dvec vq=AA_DVEC_INIT(n,qf.data(),1); aa_rx_fk_all(fk.p,&vq); Opt o; o.p->lp_solver=solver==0?AA_OPT_LP_SOLVER_DEFAULT:solver==1?AA_OPT_LP_SOLVER_CLP:AA_OPT_LP_SOLVER_GLPK /* lp_solve itself can cycle on nearly empty ranges */; struct aa_rx_wk_lc3_cx*cx=aa_rx_wk_lc3_create(s.p,o.p); CHECK(cx,"no controller");
    Ref P=ref_spectral(J,[&](double w){ return pinvstar(o.p,w); }),N=Ref::eye(n)-P*J; V sv=ref_sv(J); bool full=n>=6; for(double x:sv) if(x*x<1e-3) full=false;
    for(double dt:{.1,.01,0.,-.1}) for(int ia=0;ia<4;ia++) for(int ix=0;ix<(T?6:4);ix++) for(int ir=0;ir<2;ir++){ V dqa(n,0),dxr(6,0),dqr(n,0); for(size_t i=0;i<n;i++){ dqa[i]= ia==0?0: ia==1? .01*DQ[0][i] : ia==2? (std::isfinite(vh[i])?vh[i]:.3)*(i%2?-.1:1) : .3*DQ[2][i]; if(ir) dqr[i]=.1*DQ[2][i]; } if(ix==1) dxr=vec(J*col(V(DQ[0],DQ[0]+n))); else if(ix==2) for(int i=0;i<6;i++) dxr[(size_t)i]=.01*DX[6][i]; else if(ix==3) dxr=vec(J*col(dqa)); else if(ix==4) for(int i=0;i<6;i++) dxr[(size_t)i]=-DX[6][i]; else if(ix==5) for(int i=0;i<6;i++) dxr[(size_t)i]=.1*DX[4][i];
        size_t inc=ir?2:1; SV x(dxr,inc),a(dqa,inc),z(dqr,inc),qa(q,inc),r(V(n,-5),inc); mc::step(); int st=aa_rx_wk_dx2dq_lc3(cx,dt,fk.p,&x.v,&qa.v,&a.v,&z.v,&r.v); r.gaps("lc3"); V y=r.get(); CHECK(x.get()==dxr&&a.get()==dqa&&z.get()==dqr&&qa.get()==q,"lc3 changed its inputs"); char w[96]; snprintf(w,96,"lc3 (dt %g, state %d, reference %d, centring %d)",dt,ia,ix,ir);
        if(dt<=0){ CHECK(st!=0,"%s accepts the time step",w); CHECK(y==V(n,-5),"%s: result changed on failure",w); continue; }
        auto okv=[&](const V&v,double tol){ for(size_t i=0;i<n;i++){ double d=v[i]-dqa[i]; if(v[i]>vh[i]+tol||v[i]<vl[i]-tol||d>ah[i]*dt+tol||d<al[i]*dt-tol) return 1; if(std::isfinite(ah[i])&&std::isfinite(pl[i])&&q[i]+v[i]*dt+ah[i]*dt*dt/2<pl[i]-tol*dt) return 2; if(std::isfinite(al[i])&&std::isfinite(ph[i])&&q[i]+v[i]*dt+al[i]*dt*dt/2>ph[i]+tol*dt) return 2; } return 0; };
        V want=vec(col(dqa)+P*(col(dxr)-J*col(dqa))+N*(col(dqr)-col(dqa)));
        if(st){ CHECK(y==V(n,-5),"%s: result changed on failure",w); CHECK(okv(dqa,-1e-7),"%s fails with %d although keeping the velocity is within the limits",w,st); CHECK(okv(want,-1e-7),"%s fails with %d although the reference is within the limits",w,st); mc::nontrivial(mc::Hash()(n)(st)(ia)(ix)); continue; }
        for(double v:y) CHECK(std::isfinite(v),"%s: velocity %g",w,v); int bad=okv(y,1e-6); if(bad) for(size_t i=0;i<n;i++) mc::note("joint %zu: q %g dq %g -> %g; limits %g..%g, %g..%g, %g..%g",i,q[i],dqa[i],y[i],pl[i],ph[i],vl[i],vh[i],al[i],ah[i]); CHECK(!bad,"%s breaks the %s limits",w,bad==1?"velocity or acceleration":"position"); if(!okv(want,-1e-9)) same(y,want,2e-6,w);
        else if(full){ /* the answer is at least as good as the best point on the straight line to the reference */ Ref c6=(1/dt)*(col(dxr)-J*col(dqa)); auto obj=[&](const V&v){ Ref d=col(v)-col(dqa),jd=(1/dt)*(J*d); double g=0,num=0,den=0; for(size_t i=0;i<6;i++) g+=c6(i,0)*jd(i,0); V nd=vec(N*d),nr=vec(N*(col(dqr)-col(dqa))); for(size_t i=0;i<n;i++){ num+=nd[i]*nr[i]; den+=nr[i]*nr[i]; } return g+(den>1e-12?num/den:0); }; double best=0; bool any=false; for(int h=0;h<=64;h++){ V p(n); for(size_t i=0;i<n;i++) p[i]=dqa[i]+(want[i]-dqa[i])*h/64; if(!okv(p,-1e-9)){ any=true; best=std::max(best,obj(p)); } } if(any){ double g=obj(y); CHECK(g>=best-1e-5*(1+fabs(best)),"%s: objective %g, but %g is possible within the limits",w,g,best); } }
        mc::state(mc::Hash().bytes(y.data(),8*n)); mc::nontrivial(mc::Hash()(n)(dt)(ia)(ix)(ir)(lv.hi)(la.hi)(lp)); } }
int main(int c,char**v){ return mc::run(c,v,"C21",{{"velocity",sp_velocity},{"pose error",sp_pose},{"feedback",sp_feedback},{"limits",sp_limits}}); }
