// Inverse kinematics: objectives, solutions, failures and the Jacobian method, on small arms.
#include "armmodel.hpp"
#include "amino/rx/scene_ik.h"
#include "amino/mem.h"
/* an arm on a sliding base that is not part of the solved chain */
static Scene based(const Scene&A){ Scene S; static const JT sl={AA_RX_FRAME_REVOLUTE,{0,0,1},0,NULL},fx={AA_RX_FRAME_FIXED,{0,0,0},0,NULL}; S.add("base","",sl,NULL,TVS[3]); for(auto f:A.f){ if(f.parent=="") f.parent="base"; S.f.push_back(f); } S.add("other","base",JTS[2],NULL,NULL); S.add("past","tip",fx,RVS[0],TVS[3]); return S; }
static const double BASE[]={0,.8};
struct Parm { struct aa_rx_ik_parm*p; Parm():p(aa_rx_ik_parm_create()){} ~Parm(){ aa_rx_ik_parm_destroy(p); } };
struct Cx { struct aa_rx_ik_cx*p; ~Cx(){ aa_rx_ik_cx_destroy(p); } };
struct PE { V3 w,t; }; /* rotation and translation from the actual to the reference pose */
static PE perr(const Pose&A,const Pose&R){ return {rlog(tr(A.R)*R.R),tr(A.R)*(R.t-A.t)}; }
static LD f_dqln(const Pose&A,const Pose&R){ PE e=perr(A,R); LD th=nrm(e.w); V3 v=e.t; if(th>1e-9L){ LD c=(1-th/2/tanl(th/2))/(th*th); v=e.t-(LD).5*cross(e.w,e.t)+c*cross(e.w,cross(e.w,e.t)); } return (th*th+dot(v,v))/4; }
static LD f_qlnpv(const Pose&A,const Pose&R){ PE e=perr(A,R); return dot(e.w,e.w)/4+dot(e.t,e.t); }
static LD f_trans(const Pose&A,const Pose&R){ PE e=perr(A,R); return dot(e.t,e.t); }
/* ---- objectives ---- */
static std::vector<V> g_pts; static size_t g_n; struct Ev { double f[6][2]; V g[6]; }; static std::vector<Ev> g_ev;
static double call(int k,void*cx,double*q,double*dq){ switch(k){ case 0: return aa_rx_ik_opt_err_dqln(cx,q,dq); case 1: return aa_rx_ik_opt_err_dqln_fd(cx,q,dq); case 2: return aa_rx_ik_opt_err_qlnpv(cx,q,dq); case 3: return aa_rx_ik_opt_err_qlnpv_fd(cx,q,dq); case 4: return aa_rx_ik_opt_err_trans(cx,q,dq); default: return aa_rx_ik_opt_err_trans_fd(cx,q,dq); } }
static bool g_moved;
static double probe(void*cx,const double*,double*dq){ if(g_ev.empty()) for(auto&p:g_pts){ Ev e; for(int k=0;k<6;k++){ V q=p; e.g[k].assign(g_n,7); void*m=aa_mem_region_ptr(aa_mem_region_local_get()); e.f[k][0]=call(k,cx,q.data(),NULL); e.f[k][1]=call(k,cx,q.data(),e.g[k].data()); if(q!=p||m!=aa_mem_region_ptr(aa_mem_region_local_get())) g_moved=true; } g_ev.push_back(e); } if(dq) for(size_t i=0;i<g_n;i++) dq[i]=0; return 0; }
static const char*FN[]={"dqln","dqln_fd","qlnpv","qlnpv_fd","trans","trans_fd"};
static void sp_obj(){ Scene A=pick_arm(); Scene S=based(A); size_t n=A.f.size()-1; mc::split(); int ib=choose(2,"base"); int it=choose(mc::thorough()?4:3,"target"); SG sg(S.make()); size_t tip=n+1; V qr(QV[it%3],QV[it%3]+n); Conf cr=conf(qr.data(),n); cr["base"]=BASE[ib]; cr["other"]=.5; Pose R=S.abs((int)tip,cr); if(it==2||it==3) R=Pose{rexp((LD)(it==3?6:1)*v3(.4,-.3,.2))*R.R,R.t+v3(.2,-.1,.3)};
    g_n=n; g_pts.clear(); g_ev.clear(); g_moved=false; for(auto&q:QV){ V p(q,q+n); g_pts.push_back(p); for(size_t i=0;i<n;i++) p[i]+=.3*(i%2?-1:1); g_pts.push_back(p); for(size_t i=0;i<n;i++) p[i]+=2.1; g_pts.push_back(p); } Parm o; aa_rx_ik_parm_set_obj(o.p,probe); Sub s{aa_rx_sg_chain_create(sg,aa_rx_sg_frame_id(sg,"base"),aa_rx_sg_frame_id(sg,"tip"))}; CHECK(aa_rx_sg_sub_config_count(s.p)==n,"variables"); Cx cx{aa_rx_ik_cx_create(s.p,o.p)}; V qa=qvec(sg,cr); SV va(qa,1); aa_rx_ik_set_start(cx.p,&va.v); double E[7]; qe(R,v3(0,0,0),E); if(it==1) for(int i=0;i<4;i++) E[i]=-E[i]; struct aa_dmat TF=AA_DMAT_INIT(7,1,E,7); SV r(V(n,0),1); aa_rx_ik_solve(cx.p,&TF,&r.v); CHECK(g_ev.size()==g_pts.size(),"the objective was never evaluated"); CHECK(!g_moved,"an objective changed its input or kept memory");
    for(size_t j=0;j<g_pts.size();j++){ Conf c=conf(g_pts[j].data(),n); c["base"]=BASE[ib]; c["other"]=.5; auto ev=[&](int k,const Conf&x){ Pose P=S.abs((int)tip,x); return k<2?f_dqln(P,R):k<4?f_qlnpv(P,R):f_trans(P,R); }; LD th=nrm(perr(S.abs((int)tip,c),R).w); if(th>3.0L) continue; for(int k=0;k<6;k++){ mc::step(); LD e=ev(k,c); for(int h=0;h<2;h++) CHECK(fabsl(e-g_ev[j].f[k][h])<1e-9L*(1+e),"%s is %.12g, expected %.12Lg",FN[k],g_ev[j].f[k][h],e); for(size_t i=0;i<n;i++){ Conf a=c,b=c; LD hh=1e-4L; a[JN[i]]+=(double)hh; b[JN[i]]-=(double)hh; LD H=(LD)a[JN[i]]-b[JN[i]]; LD d=(ev(k,a)-ev(k,b))/H; Conf a2=c,b2=c; a2[JN[i]]+=2*(double)hh; b2[JN[i]]-=2*(double)hh; LD H2=(LD)a2[JN[i]]-b2[JN[i]]; d=(4*d-(ev(k,a2)-ev(k,b2))/H2)/3; CHECK(fabsl(d-g_ev[j].g[k][i])<(k%2?1e-5L:1e-7L)*(1+fabsl(d)),"%s: derivative for joint %zu is %.10g, expected %.10Lg (rotation error %Lg)",FN[k],i,g_ev[j].g[k][i],d,th); } mc::state(mc::Hash()(k)(j).bytes(g_ev[j].g[k].data(),8*n)); } mc::nontrivial(mc::Hash()(n)(j)(ib)(it).bytes(g_pts[j].data(),8*n)); } }
/* ---- solutions ---- */
static int reach(const PE&e,double ta,double tt){ LD a=nrm(e.w)/2,t=nrm(e.t); if(a<ta*(1-1e-6)-1e-9&&t<tt*(1-1e-6)-1e-12) return 1; if(a>2*ta||t>tt*(1+1e-6)+1e-12) return -1; return 0; } /* the library measures rotations by their quaternion half angle */
static void setalg(Parm&o,int alg){ switch(alg){ case 0: break; case 1: aa_rx_ik_parm_set_obj(o.p,(aa_rx_ik_opt_fun*)(void*)aa_rx_ik_opt_err_dqln); break; case 2: aa_rx_ik_parm_set_algo(o.p,AA_RX_IK_JPINV); aa_rx_ik_parm_set_tol_dq(o.p,1e-3); break; case 3: aa_rx_ik_parm_set_obj(o.p,aa_rx_ik_opt_err_qlnpv_fd); break; case 4: aa_rx_ik_parm_set_obj(o.p,aa_rx_ik_opt_err_dqln_fd); break; case 5: aa_rx_ik_parm_set_obj(o.p,aa_rx_ik_opt_err_jcenter); aa_rx_ik_parm_set_eqct(o.p,aa_rx_ik_opt_err_qlnpv,1e-8); break; } }
static void sp_solve(){ bool T=mc::thorough(); int k=choose(6,"arm"); Scene A; bool slides=false; if(k<3){ std::vector<int> js; for(int i=0;i<=k;i++) { js.push_back(1+choose(i==2&&!T?2:5,"joint")); slides|=js.back()==2||js.back()==4; } A=arm(js); } else A=arm7(k+2); Scene S=based(A); size_t n=A.f.size()-1; int alg=choose(T?6:3,"algorithm"); mc::split(); int ib=choose(2,"base"),it=choose(3,"target"),lim=choose(3,"limits"),frame=choose(4,"frame given by"); int seed=choose(T?5:3,"seed"); SG sg(S.make());
    int tgt=frame==3?S.find("past"):(int)n+1; V qr(QV[it==2?0:it*2],QV[it==2?0:it*2]+n); Conf cr=conf(qr.data(),n); cr["base"]=BASE[ib]; cr["other"]=.5; Pose R=S.abs(tgt,cr); if(it==2) R.t=R.t+v3(0,5,40); V qs=qr; for(size_t i=0;i<n;i++) qs[i]+= seed==0?0: seed==1?.05*(i%2?-1:1): seed==2?-.03-.02*(double)i : seed==3? 1.5*(i%3?-1:1) : .7; V lo(n,-INFINITY),hi(n,INFINITY); for(size_t i=0;i<n;i++) if(lim==1||(lim==2&&i%2==0)) aa_rx_sg_set_limit_pos(sg,JN[i],lo[i]=qr[i]-(lim==1?1.2:.3),hi[i]=qr[i]+(lim==1?2:.0));
    Sub s{aa_rx_sg_chain_create(sg,aa_rx_sg_frame_id(sg,"base"),aa_rx_sg_frame_id(sg,frame==3?"past":"tip"))}; Parm o; setalg(o,alg); double ta=.1*M_PI/180,tt=1e-4; if(frame==1) aa_rx_ik_parm_set_frame(o.p,aa_rx_sg_frame_id(sg,"tip")); if(ib){ aa_rx_ik_parm_set_tol_angle(o.p,ta=.01); aa_rx_ik_parm_set_tol_trans(o.p,tt=1e-3); } Cx cx{aa_rx_ik_cx_create(s.p,o.p)}; if(frame==2){ aa_rx_ik_set_frame_name(cx.p,"other"); aa_rx_ik_set_frame_name(cx.p,"tip"); } V qa=qvec(sg,cr); SV va(qa,1); aa_rx_ik_set_start(cx.p,&va.v); for(size_t i=0;i<n;i++){ if(qs[i]<lo[i]) qs[i]=lo[i]; if(qs[i]>hi[i]) qs[i]=hi[i]; } SV vs(qs,2); aa_rx_ik_set_seed(cx.p,&vs.v);
    double E[7],E0[7]; qe(R,v3(0,0,0),E); if(seed==1) for(int i=0;i<4;i++) E[i]=-E[i]; memcpy(E0,E,56); struct aa_dmat TF=AA_DMAT_INIT(7,1,E,7); SV r(V(n,-9),alg==2?1:1+(size_t)(ib&1)); void*m=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(); int st=aa_rx_ik_solve(cx.p,&TF,&r.v); CHECK(m==aa_mem_region_ptr(aa_mem_region_local_get()),"scratch memory was kept"); CHECK(!memcmp(E,E0,56),"the target was changed"); r.gaps("ik_solve"); { V a(qa.size()); for(size_t i=0;i<a.size();i++) a[i]=AA_DVEC_REF(aa_rx_ik_get_start(cx.p),i); CHECK(a==qa,"the start configuration was changed"); V b(n); for(size_t i=0;i<n;i++) b[i]=AA_DVEC_REF(aa_rx_ik_get_seed(cx.p),i); CHECK(b==qs,"the seed was changed"); }
    V y=r.get(); Conf c=cr; PE e; if(!st||y!=V(n,-9)){ for(size_t i=0;i<n;i++){ c[JN[i]]=y[i]; if(!st) CHECK(std::isfinite(y[i])&&y[i]>=lo[i]-1e-9&&y[i]<=hi[i]+1e-9,"joint %zu is %g, outside %g..%g",i,y[i],lo[i],hi[i]); } e=perr(S.abs(tgt,c),R); }
    if(!st) CHECK(reach(e,ta,tt)>=0,"success, but the pose is off by %Lg rad and %Lg m",nrm(e.w),nrm(e.t)); CHECK(it!=2||slides||st,"success for a pose out of reach"); bool near=it!=2&&seed<3&&alg<5; /* a squared error as constraint has no gradient at the solution: convergence is not guaranteed there */ if(near&&seed) for(auto&x:{qr,qs}) for(double v:ref_sv(jac(A,conf(x.data(),n),n))) if(v*v<.02) near=false; if(near) CHECK(!st,"no solution from a nearby seed (%d, ends %Lg rad and %Lg m away)",st,nrm(e.w),nrm(e.t)); if(st) CHECK(st&AA_RX_NO_IK||st&AA_RX_NO_SOLUTION,"error code %d",st);
    mc::state(mc::Hash().bytes(y.data(),8*n)); mc::nontrivial(mc::Hash()(n)(alg)(it)(lim)(seed)(ib)(st!=0).bytes(y.data(),8*n)); }
/* ---- checking a candidate ---- */
static void sp_check(){ Scene A=pick_arm(); Scene S=based(A); size_t n=A.f.size()-1; mc::split(); int ib=choose(2,"base"); SG sg(S.make(choose(2,"children added first"))); Sub s{aa_rx_sg_chain_create(sg,aa_rx_sg_frame_id(sg,"base"),aa_rx_sg_frame_id(sg,"tip"))}; double ta=mc::pick({.1*M_PI/180,.01,.3},"angle tolerance"),tt=mc::pick({1e-4,.01,.5},"translation tolerance"); Parm o; aa_rx_ik_parm_set_tol_angle(o.p,ta); aa_rx_ik_parm_set_tol_trans(o.p,tt); Cx cx{aa_rx_ik_cx_create(s.p,o.p)}; for(int it=0;it<3;it++){ V qr(QV[it],QV[it]+n); Conf cr=conf(qr.data(),n); cr["base"]=BASE[ib]; cr["other"]=-.5; Pose R=S.abs((int)n+1,cr); V qa=qvec(sg,cr); SV va(qa,2); aa_rx_ik_set_start(cx.p,&va.v); double E[7]; qe(R,v3(0,0,0),E); struct aa_dmat TF=AA_DMAT_INIT(7,1,E,7); for(size_t j=0;j<n;j++) for(double d:{0.,1e-5,-5e-5,5e-4,-.003,.005,.05,-.15,.3,-.5,1.5}){ V q=qr; q[j]+=d; Conf c=cr; c[JN[j]]=q[j]; PE e=perr(S.abs((int)n+1,c),R); int k=reach(e,ta,tt); SV v(q,1+(j&1)); void*m=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(); int st=aa_rx_ik_check(cx.p,&TF,&v.v); CHECK(m==aa_mem_region_ptr(aa_mem_region_local_get()),"ik_check kept memory"); CHECK(v.get()==q,"ik_check changed its input"); if(k>0) CHECK(!st,"ik_check rejects a configuration off by %Lg rad and %Lg m",nrm(e.w),nrm(e.t)); if(k<0) CHECK(st,"ik_check accepts a configuration off by %Lg rad and %Lg m",nrm(e.w),nrm(e.t)); mc::nontrivial(mc::Hash()(n)(k)(it)(j)(d)(ta)(tt)); mc::state(mc::Hash()(st)(n)(it)(j)(d)(ta)(tt)); } } }
extern "C" aa_rx_frame_id aa_rx_ik_parm_get_frame(const struct aa_rx_ik_parm*);
/* ---- invalid requests, seeds, restarts ---- */
static void sp_misc(){ Scene A=pick_arm(); Scene S=based(A); size_t n=A.f.size()-1; mc::split(); SG sg(S.make()); for(size_t i=0;i<n;i++) aa_rx_sg_set_limit_pos(sg,JN[i],-.5-(double)i,1.5); Sub s{aa_rx_sg_chain_create(sg,aa_rx_sg_frame_id(sg,"base"),aa_rx_sg_frame_id(sg,"tip"))}; auto reg=aa_mem_region_local_get();
    for(int alg:{0,2,9}){ Parm o; if(alg==9) aa_rx_ik_parm_set_algo(o.p,AA_RX_IK_LMA); else setalg(o,alg); Cx cx{aa_rx_ik_cx_create(s.p,o.p)}; void*m=aa_mem_region_ptr(reg); for(int bad=0;bad<5;bad++){ size_t rows=bad==0?6:bad==1?8:7,cols=bad==2?2:1,len=bad==3?n+1:n; if(bad==4&&alg!=9) continue; V e(rows*cols,.5); struct aa_dmat TF=AA_DMAT_INIT(rows,cols,e.data(),rows); SV q(V(len,-3),1); mc::step(); int st=aa_rx_ik_solve(cx.p,&TF,&q.v); CHECK(st&AA_RX_INVALID_PARAMETER,"a %zux%zu target for %zu variables gives %d",rows,cols,len,st); CHECK(q.get()==V(len,-3),"result changed"); CHECK(m==aa_mem_region_ptr(reg),"a rejected request kept memory"); mc::nontrivial(mc::Hash()(alg)(bad)(n)); }
        for(size_t i=0;i<n;i++) CHECK(fabs(AA_DVEC_REF(aa_rx_ik_get_seed(cx.p),i)-(1-(double)i)/2)<1e-12,"the initial seed is not the centre"); V z(n,.25); SV sz(z,3); aa_rx_ik_set_seed(cx.p,&sz.v); for(size_t i=0;i<n;i++) CHECK(AA_DVEC_REF(aa_rx_ik_get_seed(cx.p),i)==.25,"set_seed"); for(int h=0;h<8;h++){ mc::step(); aa_rx_ik_set_seed_rand(cx.p); for(size_t i=0;i<n;i++){ double v=AA_DVEC_REF(aa_rx_ik_get_seed(cx.p),i); CHECK(v>=-.5-(double)i&&v<=1.5,"random seed %g",v); } } aa_rx_ik_set_seed_center(cx.p); for(size_t i=0;i<n;i++) CHECK(fabs(AA_DVEC_REF(aa_rx_ik_get_seed(cx.p),i)-(1-(double)i)/2)<1e-12,"set_seed_center"); CHECK(m==aa_mem_region_ptr(reg),"seed functions kept memory");
        CHECK(aa_rx_ik_get_restart_time(cx.p)==0,"initial restart time"); aa_rx_ik_set_restart_time(cx.p,.01); CHECK(aa_rx_ik_get_restart_time(cx.p)==.01,"restart time"); if(alg==0){ double E[7]={0,0,0,1,0,50,0}; struct aa_dmat TF=AA_DMAT_INIT(7,1,E,7); SV q(V(n,0),1); CHECK(aa_rx_ik_solve(cx.p,&TF,&q.v),"success out of reach with restarts"); CHECK(m==aa_mem_region_ptr(reg),"restarts kept memory"); } }
    { Parm o; V ref(n),gain(n),all(n+2); for(auto op:{AA_MEM_COPY,AA_MEM_BORROW}){ aa_rx_ik_parm_take_config(o.p,n,ref.data(),op); aa_rx_ik_parm_take_gain_config(o.p,n,gain.data(),op); aa_rx_ik_parm_take_seed(o.p,n+2,all.data(),op); } aa_rx_ik_parm_center_configs(o.p,s.p,.5); aa_rx_ik_parm_center_seed(o.p,s.p); aa_rx_ik_parm_set_frame(o.p,aa_rx_sg_frame_id(sg,"tip")); CHECK(aa_rx_ik_parm_get_frame(o.p)==aa_rx_sg_frame_id(sg,"tip"),"parm frame"); } }
/* ---- feedback maps of the Jacobian method ---- */
extern "C" int aa_rx_ik_jac_dx2dq(const struct aa_rx_ik_parm*,size_t,const double*,const double*,const double*,double*);
static void sp_jac(){ Scene S=pick_arm(); mc::split(); size_t n=S.f.size()-1; int ql=choose(3,"configuration"); double s2=mc::pick({5e-3,.3,.05},"s2min"); int ref=choose(2,"centring"); V q(QV[ql],QV[ql]+n); Conf c=conf(q.data(),n); Ref J=jac(S,c,n); for(double x:ref_sv(J)) if(x>1e-7&&x<1e-3) mc::skip(); Ref P=ref_spectral(J,[&](double w){ return w<1e-12?0:1/std::max(w,s2); }),N=Ref::eye(n)-P*J; Parm o; aa_rx_ik_parm_set_s2min(o.p,s2); V qr(n),g(n); for(size_t i=0;i<n;i++){ qr[i]=.1*(double)i-.2; g[i]=.5+.25*(double)i; } if(ref){ aa_rx_ik_parm_take_config(o.p,n,qr.data(),AA_MEM_COPY); aa_rx_ik_parm_take_gain_config(o.p,n,g.data(),AA_MEM_BORROW); } V nul(n,0); if(ref) for(size_t i=0;i<n;i++) nul[i]=-g[i]*(q[i]-qr[i]);
    Pose A=S.abs((int)n,c); double Ea[7]; qe(A,v3(0,0,0),Ea); for(int d=0;d<8;d++){ V dx(6); for(int i=0;i<6;i++) dx[(size_t)i]=d<6?(i==d):d==6?.3*i-1:0; V Jd=J.a,y(n,-5); mc::step(); int st=aa_rx_ik_jac_dx2dq(o.p,n,q.data(),dx.data(),Jd.data(),y.data()); CHECK(!st,"jac_dx2dq: %d",st); same(y,vec(P*col(dx)+N*col(nul)),2e-7,"jac_dx2dq"); CHECK(Jd==J.a,"jac_dx2dq changed the Jacobian"); double ga=d%2?1:.5; aa_rx_ik_parm_set_gain_angle(o.p,ga); aa_rx_ik_parm_set_gain_trans(o.p,2*ga);
        Pose R={rexp(v3(.2,-.1*d,.3))*A.R,A.t+v3(-.1,.2,.05*d)}; double Er[7]; qe(R,v3(0,0,0),Er); V w(6,0); bool ff=d&1; if(ff) w=dx; struct aa_dvec wv=AA_DVEC_INIT(6,w.data(),1); struct aa_rx_wk_opts*wo=aa_rx_wk_opts_create(); wo->gain_angle=ga; wo->gain_trans=2*ga; aa_rx_wk_dx_pos(wo,Ea,Er,&wv); aa_rx_wk_opts_destroy(wo); V z(n,-5); void*m=aa_mem_region_ptr(aa_mem_region_local_get()); mc::step(); st=aa_rx_ik_jac_x2dq(o.p,n,q.data(),Ea,Er,ff?dx.data():NULL,Jd.data(),z.data()); CHECK(!st&&m==aa_mem_region_ptr(aa_mem_region_local_get()),"jac_x2dq: %d or kept memory",st); same(z,vec(P*col(w)+N*col(nul)),2e-7,"jac_x2dq"); mc::state(mc::Hash().bytes(z.data(),8*n)); mc::nontrivial(mc::Hash()(n)(ql)(s2)(ref)(d)); }
    if(s2!=.3||ref) return; /* the compatibility entry points solve too */
    SG sg(S.make()); Sub s{aa_rx_sg_chain_create(sg,AA_RX_FRAME_ROOT,aa_rx_sg_frame_id(sg,"tip"))}; Parm o2; struct aa_rx_ik_jac_cx*jc=aa_rx_ik_jac_cx_create(s.p,o2.p); double E[7]; qe(A,v3(0,0,0),E); SV seed(q,1); aa_rx_ik_set_seed((struct aa_rx_ik_cx*)jc,&seed.v); for(int h=0;h<2;h++){ V y(n,-5); mc::step(); int st=h?aa_rx_ik_jac_fun(jc,1,E,7,n,y.data()):aa_rx_ik_jac_solve(jc,1,E,7,n,y.data()); CHECK(!st,"jac_solve at the solution: %d",st); CHECK(reach(perr(S.abs((int)n,conf(y.data(),n)),A),.1*M_PI/180,1e-4)>=0,"jac_solve"); } aa_rx_ik_jac_cx_destroy(jc); }
int main(int c,char**v){ return mc::run(c,v,"C22",{{"objectives",sp_obj},{"solutions",sp_solve},{"checking",sp_check},{"requests",sp_misc},{"jacobian method",sp_jac}}); }
