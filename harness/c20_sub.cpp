// Sub-scenegraphs: selection, gather/scatter, Jacobians, on every small scene.
#include "scenemodel.hpp"
#include "amino/rx/scene_sub.h"
using mc::choose; using std::string;
extern "C" struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg*,aa_rx_frame_id,size_t,aa_rx_frame_id*);
static const char*AL[]={"a","b","c","d","e"};
static Scene pick_scene(int n,int njt,int npar=9){ Scene S; int rev=choose(2,"children sort first"); for(int i=0;i<n;i++){ string nm=AL[rev?n-1-i:i]; int p=choose(std::min(i+1,npar),"parent"); if(npar<9&&i>=2) p=p?i:0; const JT&j=JTS[choose(njt,"joint")]; if(i==(n>2)) mc::split(); Frame&f=S.add(nm,p?S.f[(size_t)p-1].name:"",j,RVS[i%4],TVS[i%4]); if(j.type!=AA_RX_FRAME_FIXED&&i%2) f.cfg="v"+string(1,(char)('9'-i)); } return S; }
struct Sub { struct aa_rx_sg_sub*p; ~Sub(){ aa_rx_sg_sub_destroy(p); } };
struct FK { struct aa_rx_fk*p; ~FK(){ aa_rx_fk_destroy(p); } };
struct Reg { struct aa_mem_region r; Reg(){ aa_mem_region_init(&r,2048); } ~Reg(){ aa_mem_region_destroy(&r); } };
static const double QV[][5]={{.7,-1.3,2.1,.4,-.9},{0,0,0,0,0},{-2.5,3.1,1e-9,6.3,1}};
static void chk6(const double*col,V3 w,V3 v,const char*s){ LD sc=1+nrm(v)+nrm(w); for(int k=0;k<3;k++){ CHECK(fabsl(col[AA_TF_DX_W+k]-w[k])<1e-8L*sc,"%s: angular column (%g %g %g), expected (%Lg %Lg %Lg)",s,col[AA_TF_DX_W],col[AA_TF_DX_W+1],col[AA_TF_DX_W+2],w[0],w[1],w[2]); CHECK(fabsl(col[AA_TF_DX_V+k]-v[k])<1e-8L*sc,"%s: linear column (%g %g %g), expected (%Lg %Lg %Lg)",s,col[AA_TF_DX_V],col[AA_TF_DX_V+1],col[AA_TF_DX_V+2],v[0],v[1],v[2]); } }
static void chain(const Scene&S,struct aa_rx_sg*sg,int root,int tip,int ql){ /* indices into S */
    auto id=[&](int k){ return k<0?AA_RX_FRAME_ROOT:aa_rx_sg_frame_id(sg,S.f[(size_t)k].name.c_str()); }; std::vector<int> fr; for(int i=tip;i>=0&&i!=root;i=S.find(S.f[(size_t)i].parent)) fr.insert(fr.begin(),i); std::vector<string> cf; for(int i:fr) if(S.f[(size_t)i].cfg!="") cf.push_back(S.f[(size_t)i].cfg); size_t m=cf.size(),na=S.configs().size(),n=S.f.size();
    mc::step(); Sub s{aa_rx_sg_chain_create(sg,id(root),id(tip))}; CHECK(aa_rx_sg_sub_sg(s.p)==sg&&aa_rx_sg_sub_all_config_count(s.p)==na&&aa_rx_sg_sub_all_frame_count(s.p)==n,"whole scene of a chain"); CHECK(aa_rx_sg_sub_frame_count(s.p)==fr.size(),"chain has %zu frames, expected %zu",aa_rx_sg_sub_frame_count(s.p),fr.size()); CHECK(aa_rx_sg_sub_config_count(s.p)==m,"chain has %zu variables, expected %zu",aa_rx_sg_sub_config_count(s.p),m);
    for(size_t i=0;i<fr.size();i++) CHECK(aa_rx_sg_sub_frame(s.p,i)==id(fr[i])&&aa_rx_sg_sub_frames(s.p)[i]==id(fr[i]),"frame %zu of the chain is %d, expected %d",i,(int)aa_rx_sg_sub_frame(s.p,i),(int)id(fr[i])); std::vector<size_t> ci; for(size_t i=0;i<m;i++){ aa_rx_config_id k=aa_rx_sg_config_id(sg,cf[i].c_str()); CHECK(aa_rx_sg_sub_config(s.p,i)==k&&aa_rx_sg_sub_configs(s.p)[i]==k,"variable %zu of the chain is %d, expected %d",i,(int)aa_rx_sg_sub_config(s.p,i),(int)k); ci.push_back((size_t)k); }
    CHECK(aa_rx_sg_sub_frame_ee(s.p)==id(tip)&&aa_rx_sg_sub_frame_ee_count(s.p)==1&&aa_rx_sg_sub_frame_ees(s.p)[0]==id(tip),"end effector of the chain");
    /* gather, scatter, centre, expand */
    for(size_t ia:{1,2,3}) for(size_t is:{1,2}){ std::vector<double> all(na*ia+1),sub(m*is+1); for(size_t i=0;i<all.size();i++) all[i]=100+i; for(size_t i=0;i<sub.size();i++) sub[i]=-1.-i; auto a0=all,s0=sub; struct aa_dvec va=AA_DVEC_INIT(na,all.data(),ia),vs=AA_DVEC_INIT(m,sub.data(),is); mc::step(2); aa_rx_sg_sub_config_gather(s.p,&va,&vs); CHECK(all==a0,"gather changed its source"); auto e=s0; for(size_t i=0;i<m;i++) e[i*is]=a0[ci[i]*ia]; CHECK(sub==e,"gather with strides %zu, %zu",ia,is); sub=s0; aa_rx_sg_sub_config_scatter(s.p,&vs,&va); CHECK(sub==s0,"scatter changed its source"); e=a0; for(size_t i=0;i<m;i++) e[ci[i]*ia]=s0[i*is]; CHECK(all==e,"scatter with strides %zu, %zu",ia,is);
        sub=s0; aa_rx_sg_sub_center_configv(s.p,&vs); e=s0; for(size_t i=0;i<m;i++) e[i*is]=aa_rx_sg_config_center(sg,(aa_rx_config_id)ci[i]); CHECK(sub==e,"center_configv"); if(is==1){ sub=s0; aa_rx_sg_sub_center_configs(s.p,m,sub.data()); CHECK(sub==e,"center_configs"); } }
    { std::vector<double> all(na+1),sub(m+1,-7); for(size_t i=0;i<=na;i++) all[i]=50+i; auto a0=all; mc::step(4); aa_rx_sg_sub_config_get(s.p,na,all.data(),m,sub.data()); for(size_t i=0;i<m;i++) CHECK(sub[i]==a0[ci[i]],"config_get"); CHECK(sub[m]==-7&&all==a0,"config_get"); for(size_t i=0;i<m;i++) sub[i]=-1.-i; aa_rx_sg_sub_config_set(s.p,m,sub.data(),na,all.data()); auto e=a0; for(size_t i=0;i<m;i++) e[ci[i]]=sub[i]; CHECK(all==e,"config_set");
        for(int np=0;np<4;np++) for(int st=0;st<2;st++){ std::vector<double> ps((size_t)np*m+1),pa((size_t)np*na+1,-3),q0(a0.begin(),a0.begin()+(long)na),x((size_t)np*na+1,-3); q0.push_back(0); for(size_t i=0;i<ps.size();i++) ps[i]=1000+i; for(int k=0;k<np;k++){ if(st) for(size_t i=0;i<na;i++) x[(size_t)k*na+i]=q0[i]; for(size_t i=0;i<m;i++) x[(size_t)k*na+ci[i]]=ps[(size_t)k*m+i]; } aa_rx_sg_sub_expand_path(s.p,(size_t)np,st?q0.data():NULL,ps.data(),pa.data()); CHECK(pa==x,"expand_path of %d points%s",np,st?" with a start":""); }
        if(m){ std::vector<double> r(2*m+1,-9); struct aa_dvec v=AA_DVEC_INIT(m,r.data(),2); mc::step(); aa_rx_sg_sub_rand_config(s.p,&v); for(size_t i=0;i<m;i++){ double lo=-M_PI,hi=M_PI; aa_rx_sg_get_limit_pos(sg,(aa_rx_config_id)ci[i],&lo,&hi); CHECK(r[2*i]>=lo&&r[2*i]<=hi,"random configuration %g outside [%g,%g]",r[2*i],lo,hi); CHECK(r[2*i+1]==-9,"rand_config"); } } }
    /* Jacobians */
    size_t rows,cols; aa_rx_sg_sub_jacobian_size(s.p,&rows,&cols); CHECK(rows==6&&cols==m,"jacobian_size: %zu by %zu",rows,cols);
    Conf c; { int i=0; for(auto&k:S.configs()) c[k]=QV[ql][i++]; } std::vector<double> q=qvec(sg,c),T(9*n),Tr(7*n); aa_rx_sg_tf(sg,q.size(),q.data(),n,Tr.data(),7,T.data(),9); FK fk{aa_rx_fk_malloc(sg)}; struct aa_dvec vq=AA_DVEC_INIT(q.size(),q.data(),1); aa_rx_fk_all(fk.p,&vq); Reg reg; V3 pe=S.abs(tip,c).t; (void)pe;
    std::vector<V3> W(m),D(m); for(size_t i=0;i<m;i++) deriv(S,tip,c,cf[i],W[i],D[i]); Pose P=S.abs(tip,c);
    auto chkJ=[&](const double*J,size_t ld,bool tw,const char*w){ for(size_t i=0;i<m;i++) chk6(J+i*ld,W[i],tw?D[i]+cross(P.t,W[i]):D[i],w); };
    if(!m) return;      /* a chain without joints has no Jacobian */
    for(size_t ld:{6,8}){ std::vector<double> J(ld*m+1); for(size_t i=0;i<J.size();i++) J[i]=mc::Buf::canary(i); auto J0=J; auto gap=[&](const char*w){ for(size_t i=0;i<J.size();i++) if(i%ld>=6||i/ld>=m) CHECK(J[i]==mc::Buf::canary(i),"%s wrote outside the matrix",w); J=J0; }; mc::step(5); aa_rx_sg_sub_jacobian(s.p,n,T.data(),9,J.data(),ld); chkJ(J.data(),ld,false,"sub_jacobian"); gap("sub_jacobian");
        struct aa_dmat M=AA_DMAT_INIT(6,m,J.data(),ld); aa_rx_sg_sub_jac_vel_fill(s.p,fk.p,&M); chkJ(J.data(),ld,false,"jac_vel_fill"); gap("jac_vel_fill"); aa_rx_sg_sub_jac_twist_fill(s.p,fk.p,&M); chkJ(J.data(),ld,true,"jac_twist_fill"); gap("jac_twist_fill"); }
    { struct aa_dmat A=AA_DMAT_INIT(7,n,T.data(),9); struct aa_dmat*J=aa_rx_sg_sub_get_jacobian(s.p,&reg.r,&A); CHECK(J->rows==6&&J->cols==m,"get_jacobian"); chkJ(J->data,J->ld,false,"get_jacobian"); J=aa_rx_sg_sub_jac_vel_get(s.p,&reg.r,fk.p); CHECK(J->rows==6&&J->cols==m,"jac_vel_get"); chkJ(J->data,J->ld,false,"jac_vel_get"); J=aa_rx_sg_sub_jac_twist_get(s.p,&reg.r,fk.p); CHECK(J->rows==6&&J->cols==m,"jac_twist_get"); chkJ(J->data,J->ld,true,"jac_twist_get"); double*x=aa_rx_sg_sub_alloc_jacobian(s.p,&reg.r),*y=aa_rx_sg_sub_alloc_config(s.p,&reg.r); for(size_t i=0;i<6*m;i++) x[i]=1; for(size_t i=0;i<m;i++) y[i]=2; for(size_t i=0;i<6*m;i++) CHECK(x[i]==1,"alloc_jacobian overlaps"); mc::state(mc::Hash().bytes(J->data,48*m)); }
    mc::nontrivial(mc::Hash()(fr.size())(m)(root)(tip).bytes(q.data(),q.size()*8)); }
static void one(int n,int njt,int npar=9){ Scene S=pick_scene(n,njt,npar); int ql=choose(S.configs().empty()?1:3,"configuration"); SG sg(S.make(choose(2,"children added first"))); for(auto&k:S.configs()) if(k!="b") aa_rx_sg_set_limit_pos(sg,k.c_str(),-.5,k=="a"?-.5:2.+(double)k.size()); for(int tip=0;tip<n;tip++) for(int root=tip;;root=S.find(S.f[(size_t)root].parent)){ if(root!=tip) chain(S,sg,root,tip,ql); if(root<0) break; }
    /* several tips: the union of the chains, parents first */
    auto id=[&](int k){ return k<0?AA_RX_FRAME_ROOT:aa_rx_sg_frame_id(sg,S.f[(size_t)k].name.c_str()); }; for(int root=-1;root<n;root++) for(int a=0;a<n;a++) for(int b=0;b<n;b++){ if(root>=0&&(a==root||b==root||!S.below(a,root)||!S.below(b,root))) continue; aa_rx_frame_id tips[2]={id(a),id(b)}; size_t nt=a==b?1:2; std::set<aa_rx_frame_id> e; for(int t:{a,b}) for(int i=t;i>=0&&i!=root;i=S.find(S.f[(size_t)i].parent)) e.insert(id(i)); mc::step(); Sub s{aa_rx_sg_multiple_chain_create(sg,id(root),nt,tips)}; size_t k=0,m=0; CHECK(aa_rx_sg_sub_frame_count(s.p)==e.size(),"selection with two tips has %zu frames, expected %zu",aa_rx_sg_sub_frame_count(s.p),e.size()); for(auto x:e){ CHECK(aa_rx_sg_sub_frame(s.p,k++)==x,"frame of a selection"); if(aa_rx_sg_frame_config(sg,x)>=0) CHECK(m<aa_rx_sg_sub_config_count(s.p)&&aa_rx_sg_sub_config(s.p,m++)==aa_rx_sg_frame_config(sg,x),"variable of a selection"); } CHECK(m==aa_rx_sg_sub_config_count(s.p),"selection has %zu variables, expected %zu",aa_rx_sg_sub_config_count(s.p),m); CHECK(aa_rx_sg_sub_frame_ee_count(s.p)==nt,"number of end effectors"); for(size_t i=0;i<nt;i++) CHECK(aa_rx_sg_sub_frame_ees(s.p)[i]==tips[i],"end effector %zu",i); } }
static void sp_two(){ one(2,6); }
static void sp_three(){ one(3,mc::thorough()?6:4); }
static void sp_four(){ mc::thorough()? one(4,4) : one(4,3,2); }
static void sp_five(){ one(5,mc::thorough()?4:2,2); }
int main(int c,char**v){ return mc::run(c,v,"C20",{{"two frames",sp_two},{"three frames",sp_three},{"four frames",sp_four},{"five frames",sp_five}}); }
