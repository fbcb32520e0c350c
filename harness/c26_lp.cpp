// Linear programs: every back end, both formats, against exact vertex enumeration.
#include "mc.hpp"
#include <memory>

#include "amino.h"
#include "amino/opt/opt.h"
#include "amino/opt/lp.h"

using mc::choose;
typedef long double LD; typedef std::vector<double> V;
struct Bnd { double l,u; };
struct LP { int n=0,m=0; V A,bl,bu,c,xl,xu; bool max=true; std::vector<int> type; /* A column major */
    double a(int i,int j) const { return A[(size_t)(j*m+i)]; } };
static const double I=INFINITY;
/* ---- reference ---- */
struct Half { LD a[3],b; };
static bool best(const LP&p,LD B,LD&val){ std::vector<Half> h; int n=p.n; auto add=[&](std::initializer_list<LD> a,LD s,LD b){ Half x{}; int k=0; for(LD v:a) x.a[k++]=s*v; x.b=s*b; h.push_back(x); };
    for(int i=0;i<p.m;i++){ LD r[3]={0,0,0}; for(int j=0;j<n;j++) r[j]=p.a(i,j); if(p.bu[(size_t)i]<1e300) add({r[0],r[1],r[2]},1,p.bu[(size_t)i]); if(p.bl[(size_t)i]>-1e300) add({r[0],r[1],r[2]},-1,p.bl[(size_t)i]); }
    for(int j=0;j<n;j++){ LD e[3]={0,0,0}; e[j]=1; add({e[0],e[1],e[2]},1,std::min((LD)p.xu[(size_t)j],B)); add({e[0],e[1],e[2]},-1,std::max((LD)p.xl[(size_t)j],-B)); }
    bool ok=false; auto vertex=[&](LD x,LD y,LD z){ LD v[3]={x,y,z}; for(auto&k:h) if(k.a[0]*x+k.a[1]*y+k.a[2]*z>k.b+1e-9L*(1+fabsl(k.b))) return; LD o=0; for(int j=0;j<n;j++) o+=p.c[(size_t)j]*v[j]; if(!ok||(p.max?o>val:o<val)) val=o; ok=true; };
    size_t N=h.size(); for(size_t i=0;i<N;i++){ if(n==1){ if(h[i].a[0]!=0) vertex(h[i].b/h[i].a[0],0,0); continue; } for(size_t j=i+1;j<N;j++){ if(n==2){ LD d=h[i].a[0]*h[j].a[1]-h[i].a[1]*h[j].a[0]; if(d!=0) vertex((h[i].b*h[j].a[1]-h[i].a[1]*h[j].b)/d,(h[i].a[0]*h[j].b-h[i].b*h[j].a[0])/d,0); continue; }
        for(size_t k=j+1;k<N;k++){ const LD*a=h[i].a,*b=h[j].a,*c=h[k].a; LD bc[3]={b[1]*c[2]-b[2]*c[1],b[2]*c[0]-b[0]*c[2],b[0]*c[1]-b[1]*c[0]},ca[3]={c[1]*a[2]-c[2]*a[1],c[2]*a[0]-c[0]*a[2],c[0]*a[1]-c[1]*a[0]},ab[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; LD d=a[0]*bc[0]+a[1]*bc[1]+a[2]*bc[2]; if(d!=0) vertex((h[i].b*bc[0]+h[j].b*ca[0]+h[k].b*ab[0])/d,(h[i].b*bc[1]+h[j].b*ca[1]+h[k].b*ab[1])/d,(h[i].b*bc[2]+h[j].b*ca[2]+h[k].b*ab[2])/d); } } }
    return ok; }
enum { OPT, INFEAS, UNB };
static int ref(const LP&p,LD&v){ for(int j=0;j<p.n;j++) if(p.xl[(size_t)j]>p.xu[(size_t)j]) return INFEAS; for(int i=0;i<p.m;i++) if(p.bl[(size_t)i]>p.bu[(size_t)i]) return INFEAS; LD w; if(!best(p,1000,v)) return INFEAS; if(!best(p,2000,w)||fabsl(v-w)>1e-6L) return UNB; return OPT; }
/* integer and binary variables: enumerate their values (they are bounded), solve the rest */
static int refi(const LP&p,LD&v,size_t j=0){ if(p.type.empty()||j==(size_t)p.n) return ref(p,v); if(p.type[j]==AA_OPT_CONTINUOUS) return refi(p,v,j+1); double l=p.xl[j],u=p.xu[j]; if(p.type[j]==AA_OPT_BINARY){ l=0; u=1; } bool ok=false; for(double x=ceil(l);x<=u;x++){ LP q=p; q.xl[j]=q.xu[j]=x; LD w; int s=refi(q,w,j+1); if(s==UNB) return UNB; if(s==OPT&&(!ok||(p.max?w>v:w<v))){ v=w; ok=true; } } return ok?OPT:INFEAS; }
static const char*SN[]={"lpsolve","glpk","clp"};
static std::string show(const LP&p){ std::string s=p.max?"max":"min"; char b[80]; for(double c:p.c){ snprintf(b,80," %g",c); s+=b; } s+=" s.t."; for(int i=0;i<p.m;i++){ s+=" ["; for(int j=0;j<p.n;j++){ snprintf(b,80,"%g ",p.a(i,j)); s+=b; } snprintf(b,80,"in %g,%g]",p.bl[(size_t)i],p.bu[(size_t)i]); s+=b; } s+=" x"; for(int j=0;j<p.n;j++){ snprintf(b,80," in %g,%g",p.xl[(size_t)j],p.xu[(size_t)j]); s+=b; } for(int t:p.type) s+=t==AA_OPT_INTEGER?" int":t==AA_OPT_BINARY?" bin":" cont"; return s; }
static void judge(const LP&p,int st,LD v,int r,const double*x,const char*w){ mc::step(); if(st!=OPT){ CHECK(r!=0,"%s reports success (%g %g) for a program that is %s: %s",w,x[0],x[1],st==INFEAS?"infeasible":"unbounded",show(p).c_str()); return; } CHECK(r==0,"%s returns %d for a program with optimum %Lg: %s",w,r,v,show(p).c_str()); LD o=0; const double tol=1e-7; for(int j=0;j<p.n;j++){ o+=p.c[(size_t)j]*x[j]; double l=p.xl[(size_t)j],u=p.xu[(size_t)j]; if(!p.type.empty()&&p.type[(size_t)j]==AA_OPT_BINARY){ l=std::max(l,0.); u=std::min(u,1.); } CHECK(x[j]>=l-tol&&x[j]<=u+tol,"%s: x[%d]=%.9g outside its bounds: %s",w,j,x[j],show(p).c_str()); if(!p.type.empty()&&p.type[(size_t)j]!=AA_OPT_CONTINUOUS) CHECK(fabs(x[j]-round(x[j]))<1e-6,"%s: x[%d]=%.9g is not integral: %s",w,j,x[j],show(p).c_str()); }
    for(int i=0;i<p.m;i++){ LD s=0; for(int j=0;j<p.n;j++) s+=p.a(i,j)*x[j]; CHECK(s>=p.bl[(size_t)i]-tol&&s<=p.bu[(size_t)i]+tol,"%s: row %d is %.9Lg: %s",w,i,s,show(p).c_str()); } if(fabsl(o-v)>=1e-6L&&!p.type.empty()&&!strncmp(w,"lpsolve",7)) return; /* lp_solve's own branch and bound can miss the optimum */ CHECK(fabsl(o-v)<1e-6L,"%s: objective %.9Lg, optimum %.9Lg: %s",w,o,v,show(p).c_str()); mc::state(mc::Hash().bytes(x,8*(size_t)p.n)); }
struct Crs { V v; std::vector<int> c,r; Crs(const LP&p,bool dense){ r.push_back(0); for(int i=0;i<p.m;i++){ for(int j=0;j<p.n;j++) if(dense||p.a(i,j)!=0){ v.push_back(p.a(i,j)); c.push_back(j); } r.push_back((int)v.size()); } v.reserve(1); c.reserve(1); } };
struct Cx { struct aa_opt_cx*p; ~Cx(){ if(p) aa_opt_destroy(p); } operator struct aa_opt_cx*(){ return p; } };
/* matrix with a leading dimension larger than the number of rows */
static V padded(const LP&p,int ld){ V A((size_t)(ld*p.n)); for(size_t i=0;i<A.size();i++) A[i]=mc::Buf::canary(i); for(int j=0;j<p.n;j++) for(int i=0;i<p.m;i++) A[(size_t)(j*ld+i)]=p.a(i,j); return A; }
static struct aa_opt_cx*gm(int s,const LP&p,int ld){ V A=padded(p,ld); size_t m=(size_t)p.m,n=(size_t)p.n,L=(size_t)ld; const double*a=A.data(); switch(s){ case 0: return aa_opt_lpsolve_gmcreate(m,n,a,L,p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data()); case 1: return aa_opt_glpk_gmcreate(m,n,a,L,p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data()); default: return aa_opt_clp_gmcreate(m,n,a,L,p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data()); } }
static struct aa_opt_cx*crs(int s,const LP&p,Crs&a){ size_t m=(size_t)p.m,n=(size_t)p.n; auto f=s==0?aa_opt_lpsolve_crscreate:s==1?aa_opt_glpk_crscreate:aa_opt_clp_crscreate; return f(m,n,a.v.data(),a.c.data(),a.r.data(),p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data()); }
static void fresh(const LP&p,bool all){ LD v=0; int st=ref(p,v); size_t m=(size_t)p.m,n=(size_t)p.n; double x[4]; char w[64];
    for(int s=0;s<3;s++){ auto run=[&](Cx cx,const char*k){ snprintf(w,64,"%s (%s)",SN[s],k); CHECK(cx.p,"%s: no context",w); if(!p.max) CHECK(!aa_opt_set_direction(cx,AA_OPT_MINIMIZE),"%s: set_direction",w); for(int i=0;i<4;i++) x[i]=mc::Buf::canary((size_t)i); int r=aa_opt_solve(cx,n,x); for(size_t i=n;i<4;i++) CHECK(x[i]==mc::Buf::canary(i),"%s wrote past the solution",w); judge(p,st,v,r,x,w); if(all){ r=aa_opt_solve(cx,n,x); snprintf(w,64,"%s (%s, again)",SN[s],k); judge(p,st,v,r,x,w); } };
        run(Cx{gm(s,p,p.m+(all?1:0))},"dense"); Crs sp(p,false),de(p,true); run(Cx{crs(s,p,sp)},"sparse"); if(all){ run(Cx{crs(s,p,de)},"sparse with zeros");
            if(p.max){ auto f=s==0?aa_opt_lp_lpsolve:s==1?aa_opt_lp_glpk:aa_opt_lp_clp; auto g=s==0?aa_opt_lp_crs_lpsolve:s==1?aa_opt_lp_crs_glpk:aa_opt_lp_crs_clp; snprintf(w,64,"%s (one call)",SN[s]); int r=f(m,n,p.A.data(),m,p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data(),x); judge(p,st,v,r,x,w); r=g(m,n,sp.v.data(),sp.c.data(),sp.r.data(),p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data(),x); snprintf(w,64,"%s (one call, sparse)",SN[s]); judge(p,st,v,r,x,w); } } }
    if(all&&p.max) for(auto s:{AA_OPT_LP_SOLVER_DEFAULT,AA_OPT_LP_SOLVER_LPSOLVE,AA_OPT_LP_SOLVER_GLPK,AA_OPT_LP_SOLVER_CLP}){ Cx cx{aa_opt_gmcreate(s,m,n,p.A.data(),m,p.bl.data(),p.bu.data(),p.c.data(),p.xl.data(),p.xu.data())}; CHECK(cx.p,"gmcreate(%d)",(int)s); int r=aa_opt_solve(cx,n,x); snprintf(w,64,"gmcreate(%d)",(int)s); judge(p,st,v,r,x,w); }
    mc::nontrivial(mc::Hash()(st).str(show(p))); }
static const Bnd RB[]={{-I,1},{-1,1},{1,1},{-I,I},{-1,I},{0,2},{-DBL_MAX,2},{2,DBL_MAX},{1,-1},{0,0}};
static const Bnd XB[]={{0,I},{-1,1},{-I,I},{-I,1},{1,2},{0,0},{-DBL_MAX,DBL_MAX},{2,-2},{-2,-2}};
static const double AV[]={0,1,-1,2,-3},CV[]={1,-1,0,2};
static LP make(int n,int m,int na,int nc,int nr,int nx){ LP p; p.n=n; p.m=m; p.max=!choose(2,"direction"); for(int j=0;j<n;j++) p.c.push_back(CV[choose(nc,"objective")]); for(int i=0;i<m;i++){ Bnd b=RB[choose(nr,"row bounds")]; p.bl.push_back(b.l); p.bu.push_back(b.u); } mc::split(); for(int j=0;j<n;j++){ Bnd b=XB[choose(nx,"variable bounds")]; p.xl.push_back(b.l); p.xu.push_back(b.u); } for(int i=0;i<n*m;i++) p.A.push_back(AV[choose(na,"matrix")]); return p; }
static void sp_1x1(){ fresh(make(1,1,5,4,10,9),true); }
static void sp_2x1(){ bool t=mc::thorough(); fresh(make(2,1,t?4:3,t?3:2,t?10:8,6),true); }
static void sp_1x2(){ bool t=mc::thorough(); fresh(make(1,2,t?5:3,t?3:2,10,t?9:6),true); }
static void sp_2x2(){ bool t=mc::thorough(); fresh(make(2,2,3,t?3:2,t?4:3,t?4:3),false); }
static void sp_3x2(){ bool t=mc::thorough(); if(!t){ fresh(make(3,2,2,2,2,2),false); return; } fresh(make(3,2,3,2,2,2),false); }
/* ---- update histories ---- */
static const double HA[][4]={{1,0,0,1},{1,1,1,-1},{0,-1,2,1},{1,2,1,2},{-1,-1,1,0}};
static const Bnd HB[][2]={{{-I,1},{-I,2}},{{-1,1},{0,2}},{{1,1},{-I,I}},{{-1,I},{-2,I}},{{-I,I},{0,0}},{{2,1},{-I,3}}};
static const Bnd HX[][2]={{{0,I},{0,I}},{{-1,1},{-2,2}},{{-I,I},{-I,I}},{{0,0},{-I,1}},{{1,I},{-DBL_MAX,DBL_MAX}},{{1,-1},{0,1}}};
static const double HC[][2]={{1,1},{-1,2},{0,1},{0,0},{-1,-1}};
static void setA(LP&p,int k){ p.A.assign(HA[k],HA[k]+4); } static void setB(LP&p,int k){ p.bl={HB[k][0].l,HB[k][1].l}; p.bu={HB[k][0].u,HB[k][1].u}; } static void setX(LP&p,int k){ p.xl={HX[k][0].l,HX[k][1].l}; p.xu={HX[k][0].u,HX[k][1].u}; } static void setC(LP&p,int k){ p.c.assign(HC[k],HC[k]+2); }
static void history(int depth,bool small){ int s=choose(3,"back end"); LP p; p.n=p.m=2; bool t=mc::thorough(); int how=choose(2,"format"); setA(p,choose(t?(small?2:3):small?1:2,"matrix")); setB(p,choose(t?(small?3:4):small?2:3,"rows")); setX(p,choose(small?2:t?4:2,"variables")); setC(p,choose(2,"objective")); mc::split(); Crs sp(p,false); Cx cx{how?crs(s,p,sp):gm(s,p,3)}; CHECK(cx.p,"%s: no context",SN[s]); if(choose(2,"solve first")){ double x[2]; LD v=0; int st=ref(p,v); judge(p,st,v,aa_opt_solve(cx,2,x),x,SN[s]); }
    std::string log; for(int d=0;d<depth;d++){ int op=choose(5,"update"); int r=-1; switch(op){ case 0: p.max=!p.max; r=aa_opt_set_direction(cx,p.max?AA_OPT_MAXIMIZE:AA_OPT_MINIMIZE); break; case 1: setC(p,choose(small?3:5,"objective")); r=aa_opt_set_obj(cx,2,p.c.data()); break; case 2: setX(p,choose(small?3:6,"variables")); r=aa_opt_set_bnd(cx,2,p.xl.data(),p.xu.data()); break; case 3: setA(p,choose(small?2:5,"matrix")); setB(p,choose(small?3:6,"rows")); { V A=padded(p,3); r=aa_opt_set_cstr_gm(cx,2,2,A.data(),3,p.bl.data(),p.bu.data()); } break; case 4: { int q[]={0,1,2},c[]={0,1}; double v[]={1,1}; CHECK(aa_opt_set_quad_obj_crs(cx,2,v,c,q)!=0,"%s claims a quadratic objective",SN[s]); r=0; } break; }
        CHECK(r==0,"%s: update %d failed with %d",SN[s],op,r); double x[2]; LD v=0; int st=ref(p,v); log+=" "+std::to_string(op); char w[80]; snprintf(w,80,"%s after updates%s",SN[s],log.c_str()); judge(p,st,v,aa_opt_solve(cx,2,x),x,w); mc::nontrivial(mc::Hash()(st)(s)(how).str(show(p)).str(log)); } }
static void sp_hist2(){ history(2,false); }
static void sp_hist3(){ if(mc::thorough()) history(3,true); else history(3,true); }
/* ---- integer and binary variables ---- */
static void sp_int(){ LP p; int s=choose(3,"back end"); p.n=2; p.m=choose(2,"rows")+1; p.max=!choose(2,"direction"); static const Bnd IX[]={{-2,2},{0,3},{-1,1},{2,3}}; static const Bnd IB[]={{-I,1.5},{-1,2.5},{.5,I},{3,3}}; static const double IA[]={1,2,-3}; for(int j=0;j<2;j++){ p.c.push_back(CV[choose(mc::thorough()?4:3,"objective")]); } for(int i=0;i<p.m;i++){ Bnd b=IB[choose(p.m==2&&!mc::thorough()?2:4,"row bounds")]; p.bl.push_back(b.l); p.bu.push_back(b.u); } mc::split(); for(int j=0;j<2;j++){ Bnd b=IX[choose(mc::thorough()?4:3,"variable bounds")]; p.xl.push_back(b.l); p.xu.push_back(b.u); } for(int i=0;i<2*p.m;i++) p.A.push_back(IA[choose(p.m==2&&!mc::thorough()?2:3,"matrix")]); p.type={AA_OPT_CONTINUOUS,AA_OPT_CONTINUOUS}; int prev=choose(3,"type first"); Cx cx{gm(s,p,p.m)}; CHECK(cx.p,"no context"); if(!p.max) aa_opt_set_direction(cx,AA_OPT_MINIMIZE);
    if(s==2){ CHECK(aa_opt_set_type(cx,0,AA_OPT_INTEGER)!=0,"clp claims integer variables"); mc::skip(); }
    auto set=[&](size_t j,int t){ CHECK(aa_opt_set_type(cx,j,(enum aa_opt_type)t)==0,"%s: set_type",SN[s]); p.type[j]=t; }; auto go=[&](const char*k){ LD v=0; int st=refi(p,v); double x[2]; char w[64]; snprintf(w,64,"%s (%s)",SN[s],k); judge(p,st,v,aa_opt_solve(cx,2,x),x,w); mc::nontrivial(mc::Hash()(st)(s).str(show(p))); };
    if(prev==1){ set(0,AA_OPT_INTEGER); go("integer"); set(0,AA_OPT_CONTINUOUS); go("continuous again"); } else if(prev==2){ set(1,AA_OPT_BINARY); for(size_t j=1;j<2;j++){ p.xl[j]=0; p.xu[j]=1; } go("binary"); p.xl[1]=-1; p.xu[1]=2; CHECK(!aa_opt_set_bnd(cx,2,p.xl.data(),p.xu.data()),"set_bnd"); set(1,AA_OPT_INTEGER); go("integer after binary"); }
    set(0,AA_OPT_INTEGER); set(1,AA_OPT_INTEGER); go("both integer"); set(1,AA_OPT_CONTINUOUS); go("mixed"); }
int main(int c,char**v){ return mc::run(c,v,"C26",{{"one variable, one row",sp_1x1},{"two variables, one row",sp_2x1},{"one variable, two rows",sp_1x2},{"two variables, two rows",sp_2x2},{"three variables, two rows",sp_3x2},{"updates, depth two",sp_hist2},{"updates, depth three",sp_hist3},{"integer variables",sp_int}}); }
