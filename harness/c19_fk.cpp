// Forward kinematics of every small scene, through every interface.
#include "scenemodel.hpp"
#include "amino/rx/scene_sub.h"
using mc::choose; using std::string;
static const double TOL=1e-12;
static const char*AL[]={"a","b","c","d"};
/* poses: both, rotation only, translation only, none */
static Scene pick_scene(int n,int njt,int npose){ Scene S; int rev=choose(2,"children sort first"); for(int i=0;i<n;i++){ string nm=AL[rev?n-1-i:i]; int p=choose(i+1,"parent"); const JT&j=JTS[choose(njt,"joint")]; if(i==0) mc::split(); int e=choose(npose,"pose"); int k=(i+e)%4; S.add(nm,p?S.f[(size_t)p-1].name:"",j,(e==3||e==2)?NULL:RVS[k],(e==3||e==1)?NULL:TVS[k]); } return S; }
static const double QV[][4]={{0,0,0,0},{.7,-1.3,2.1,.4},{3.141592653589793,-1.5707963267948966,10,-1e-5},{-2.5,0,1e-9,6.3},{1,1,1,1}};
static Conf conf(const Scene&S,int k){ Conf c; int i=0; for(auto&s:S.configs()) c[s]=QV[k][i++]; return c; }
typedef std::vector<double> VD;
static void fill(VD&v,size_t n){ v.resize(n); for(size_t i=0;i<n;i++) v[i]=mc::Buf::canary(i); }
static void gaps(const VD&v,size_t n,size_t ld,size_t w,const char*s){ for(size_t i=0;i<v.size();i++) if(i/ld>=n||i%ld>=w) CHECK(v[i]==mc::Buf::canary(i),"%s wrote element %zu with leading dimension %zu",s,i,ld); }
static void all(const Scene&S,struct aa_rx_sg*sg,const Conf&c,int ql){
    size_t n=S.f.size(); VD q=qvec(sg,c); std::vector<int> at(n); std::vector<Pose> P(n),R(n); for(size_t i=0;i<n;i++){ at[i]=S.find(aa_rx_sg_frame_name(sg,(aa_rx_frame_id)i)); REQUIRE(at[i]>=0); P[i]=S.abs(at[i],c); R[i]=S.rel(at[i],c); }
    VD q0=q;
    struct { size_t lr,la,nt; } L[]={{7,7,n},{9,14,n},{14,7,n>1?n-1:n},{7,8,n+2}};
    for(auto&l:L){ size_t m=std::min(n,l.nt); VD r,a; mc::step(); fill(r,l.lr*(n+2)); fill(a,l.la*(n+2)); aa_rx_sg_tf(sg,q.size(),q.data(),l.nt,r.data(),l.lr,a.data(),l.la); for(size_t i=0;i<m;i++){ sameE(&r[i*l.lr],R[i],TOL,"tf: relative"); sameE(&a[i*l.la],P[i],TOL,"tf: absolute"); } gaps(r,m,l.lr,7,"tf"); gaps(a,m,l.la,7,"tf"); }
    for(auto&l:L){ size_t lr=l.lr+5,la=l.la+5,m=std::min(n,l.nt); VD r,a; mc::step(); fill(r,lr*(n+2)); fill(a,la*(n+2)); aa_rx_sg_tfmat(sg,q.size(),q.data(),l.nt,r.data(),lr,a.data(),la); for(size_t i=0;i<m;i++){ sameT(&r[i*lr],R[i],TOL,"tfmat: relative"); sameT(&a[i*la],P[i],TOL,"tfmat: absolute"); } gaps(r,m,lr,12,"tfmat"); gaps(a,m,la,12,"tfmat"); }
    for(auto&l:L){ size_t lr=l.lr+1,la=l.la+1,m=std::min(n,l.nt); VD r,a; mc::step(); fill(r,lr*(n+2)); fill(a,la*(n+2)); aa_rx_sg_duqu(sg,q.size(),q.data(),l.nt,r.data(),lr,a.data(),la); for(size_t i=0;i<m;i++){ sameS(&r[i*lr],R[i],TOL,"duqu: relative"); sameS(&a[i*la],P[i],TOL,"duqu: absolute"); } gaps(r,m,lr,8,"duqu"); gaps(a,m,la,8,"duqu"); }
    CHECK(q==q0,"forward kinematics changed the configuration");
    /* vectors of any stride */
    struct aa_mem_region reg; aa_mem_region_init(&reg,4096); struct RG{ struct aa_mem_region*r; ~RG(){ aa_mem_region_destroy(r); } } rg{&reg}; void*mark=aa_mem_region_ptr(aa_mem_region_local_get());
    for(size_t inc:{1,2,3}){ VD qs(q.size()*inc+1,-77); for(size_t i=0;i<q.size();i++) qs[i*inc]=q[i]; struct aa_dvec v=AA_DVEC_INIT(q.size(),qs.data(),inc); mc::step(3);
        struct aa_dmat*T=aa_rx_sg_get_tf_abs(sg,&reg,&v); CHECK(T->rows==7&&T->cols==n,"get_tf_abs: %zu by %zu",T->rows,T->cols); for(size_t i=0;i<n;i++) sameE(T->data+i*T->ld,P[i],TOL,"get_tf_abs");
        VD a; fill(a,9*n); struct aa_dmat A=AA_DMAT_INIT(7,n,a.data(),9); aa_rx_sg_fill_tf_abs(sg,&v,&A); for(size_t i=0;i<n;i++) sameE(&a[i*9],P[i],TOL,"fill_tf_abs"); gaps(a,n,9,7,"fill_tf_abs");
        struct aa_rx_fk*fk= inc==2? aa_rx_fk_alloc(sg,&reg): aa_rx_fk_malloc(sg); struct FG{ struct aa_rx_fk*f; bool heap; ~FG(){ if(heap) aa_rx_fk_destroy(f); } } fg{fk,inc!=2}; aa_rx_fk_all(fk,&v); CHECK(aa_rx_fk_cnt(fk)==n,"fk_cnt"); for(size_t i=0;i<n;i++){ sameE(aa_rx_fk_data(fk)+i*aa_rx_fk_ld(fk),P[i],TOL,"fk_all"); CHECK(aa_rx_fk_ref(fk,(aa_rx_frame_id)i)==aa_rx_fk_data(fk)+i*aa_rx_fk_ld(fk),"fk_ref"); double E[7]; aa_rx_fk_get_abs_qutr(fk,(aa_rx_frame_id)i,E); sameE(E,P[i],TOL,"fk_get_abs_qutr"); }
        /* relative poses between any two frames, including the root */
        if(inc==1){ VD ld9(9*n); for(size_t i=0;i<n;i++) memcpy(&ld9[9*i],aa_rx_fk_ref(fk,(aa_rx_frame_id)i),56); for(int x=-1;x<(int)n;x++) for(int y=-1;y<(int)n;y++){ Pose I={m3eye(),v3(0,0,0)}; Pose X=x<0?I:P[(size_t)x],Y=y<0?I:P[(size_t)y]; double E[7]; mc::step(2); aa_rx_fk_get_rel_qutr(fk,x,y,E); sameE(E,inv(X)*Y,TOL,"fk_get_rel_qutr"); aa_rx_sg_rel_tf(sg,x,y,ld9.data(),9,E); sameE(E,inv(X)*Y,TOL,"rel_tf"); }
            /* setting one relative pose moves that frame only */
            struct aa_rx_fk*f2=aa_rx_fk_malloc(sg); FG g2{f2,true}; for(size_t i=0;i<n;i++){ aa_rx_fk_cpy(f2,fk); Rep K=rep(from3(RVS[1]),from3(TVS[0]),0); mc::step(2); aa_rx_fk_set_rel(f2,(aa_rx_frame_id)i,K.E); int p=S.find(S.f[(size_t)at[i]].parent); Pose want= p<0?K.P:S.abs(p,c)*K.P; for(size_t j=0;j<n;j++){ if(j==i) sameE(aa_rx_fk_ref(f2,(aa_rx_frame_id)j),want,TOL,"fk_set_rel"); else CHECK(!memcmp(aa_rx_fk_ref(f2,(aa_rx_frame_id)j),aa_rx_fk_ref(fk,(aa_rx_frame_id)j),56),"fk_set_rel of frame %zu moved frame %zu",i,j); } } }
        aa_mem_region_release(&reg); }
    CHECK(aa_mem_region_ptr(aa_mem_region_local_get())==mark,"forward kinematics left scratch memory allocated");
    /* incremental updates: every subset of variables changes to the next configuration */
    Conf c2=conf(S,(ql+1)%5); std::vector<string> cs; for(auto&k:c) cs.push_back(k.first); VD r0(7*n),a0(7*n); aa_rx_sg_tf(sg,q.size(),q.data(),n,r0.data(),7,a0.data(),7);
    for(unsigned m=0;m<(1u<<cs.size());m++){ Conf d=c; for(size_t i=0;i<cs.size();i++) if(m>>i&1) d[cs[i]]=c2[cs[i]]; VD qd=qvec(sg,d),r,a; size_t lr=m&1?7:9,la=m&1?14:7; fill(r,lr*n); fill(a,la*n); VD b0(8*n); for(size_t i=0;i<n;i++) memcpy(&b0[8*i],&a0[7*i],56); mc::step(); aa_rx_sg_tf_update(sg,q.size(),q.data(),qd.data(),n,r0.data(),7,b0.data(),8,r.data(),lr,a.data(),la);
        for(size_t i=0;i<n;i++){ sameE(&r[i*lr],S.rel(at[i],d),TOL,"tf_update: relative"); sameE(&a[i*la],S.abs(at[i],d),TOL,"tf_update: absolute"); bool moved=false; for(size_t k=0;k<cs.size();k++) if((m>>k&1)&&S.movedby(at[i],cs[k])) moved=true; if(!moved) CHECK(!memcmp(&a[i*la],&a0[i*7],56),"tf_update moved frame %zu, which is not downstream of a changed variable",i); } gaps(r,n,lr,7,"tf_update"); gaps(a,n,la,7,"tf_update"); mc::state(mc::Hash().bytes(a.data(),a.size()*8)); }
    /* chain updates */
    if(n>1){ struct aa_rx_fk*fk=aa_rx_fk_malloc(sg); struct FG{ struct aa_rx_fk*f; ~FG(){ aa_rx_fk_destroy(f); } } fg{fk}; for(int tip=0;tip<(int)n;tip++) for(int root=-1;root<(int)n;root++){ if(root>=0&&(root==tip||!S.below(at[(size_t)tip],at[(size_t)root]))) continue; struct aa_rx_sg_sub*ssg=aa_rx_sg_chain_create(sg,root,tip); struct DG{ struct aa_rx_sg_sub*s; ~DG(){ aa_rx_sg_sub_destroy(s); } } dg{ssg}; struct aa_dvec v=AA_DVEC_INIT(q.size(),q.data(),1); aa_rx_fk_all(fk,&v);
            Conf d=c; std::vector<bool> on(n); for(int i=at[(size_t)tip];i>=0&&!(root>=0&&i==at[(size_t)root]);i=S.find(S.f[(size_t)i].parent)){ on[(size_t)i]=true; if(S.f[(size_t)i].cfg!="") d[S.f[(size_t)i].cfg]=c2[S.f[(size_t)i].cfg]; }
            VD qs,inc2; for(size_t i=0;i<aa_rx_sg_sub_config_count(ssg);i++) qs.push_back(d[aa_rx_sg_config_name(sg,aa_rx_sg_sub_config(ssg,i))]); for(double x:qs){ inc2.push_back(x); inc2.push_back(-9); } inc2.push_back(0); bool strided=(tip+root)&1; struct aa_dvec vs=AA_DVEC_INIT(qs.size(),strided?inc2.data():qs.data(),strided?2:1); mc::step(); aa_rx_fk_sub(fk,ssg,&vs);
            for(size_t i=0;i<n;i++){ int k=at[i]; if(on[(size_t)k]){ Pose X={m3eye(),v3(0,0,0)}; if(root>=0) X=S.abs(at[(size_t)root],c); std::vector<int> path; for(int j=k;j>=0&&on[(size_t)j];j=S.find(S.f[(size_t)j].parent)) path.push_back(j); for(size_t j=path.size();j-->0;) X=X*S.rel(path[j],d); sameE(aa_rx_fk_ref(fk,(aa_rx_frame_id)i),X,TOL,"fk_sub: frame of the chain"); } else sameE(aa_rx_fk_ref(fk,(aa_rx_frame_id)i),P[i],TOL,"fk_sub: frame outside the chain"); } } }
    mc::nontrivial(mc::Hash().bytes(a0.data(),a0.size()*8)); }
static void scene(int n,int njt,int npose){ Scene S=pick_scene(n,njt,npose); int ql=choose(5,"configuration"); if(ql&&S.configs().empty()) mc::skip(); SG sg(S.make(choose(2,"children added first"))); all(S,sg,conf(S,ql),ql); }
static void sp_one(){ scene(1,NJT,4); }
static void sp_two(){ scene(2,NJT,4); }
static void sp_three(){ mc::thorough()? scene(3,NJT,2) : scene(3,5,1); }
static void sp_four(){ mc::thorough()? scene(4,5,1) : scene(4,3,1); }
/* editing: the pose of a re-parented, replaced or copied frame is the new one in every interface */
static void sp_edit(){ Scene S=pick_scene(3,mc::thorough()?NJT:5,1); SG sg(S.make()); int op=choose(5,"edit"),k=choose(3,"frame"); Rep K=rep(from3(RVS[1]),from3(TVS[3]),0);
    if(op<3){ int p=choose(3,"new parent")-1; if(p>=k) p++; if(p>=0&&S.below(p,k)) mc::skip(); S.f[(size_t)k].E={qmat(fromq(K.E)),K.P.t}; S.f[(size_t)k].parent=p<0?"":S.f[(size_t)p].name; mc::step(2); if(op==0) aa_rx_sg_reparent_name(sg,S.f[(size_t)k].parent.c_str(),S.f[(size_t)k].name.c_str(),K.E); else if(op==1) aa_rx_sg_reparent_id(sg,p<0?AA_RX_FRAME_ROOT:aa_rx_sg_frame_id(sg,S.f[(size_t)p].name.c_str()),aa_rx_sg_frame_id(sg,S.f[(size_t)k].name.c_str()),K.E); else { aa_rx_sg_reparent_name(sg,"",S.f[(size_t)k].name.c_str(),aa_tf_qutr_ident); aa_rx_sg_reparent_name(sg,p<0?NULL:S.f[(size_t)p].name.c_str(),S.f[(size_t)k].name.c_str(),K.E); } }
    else if(op==3){ Frame o=S.f[(size_t)k]; Scene T; Frame&x=T.add(o.name,o.parent,JTS[choose(NJT,"new joint")],RVS[2],TVS[1]); S.f[(size_t)k]=x; mc::step(); if(x.type==AA_RX_FRAME_FIXED) aa_rx_sg_add_frame_fixed(sg,x.parent.c_str(),x.name.c_str(),x.q,x.v); else (x.type==AA_RX_FRAME_REVOLUTE?aa_rx_sg_add_frame_revolute:aa_rx_sg_add_frame_prismatic)(sg,x.parent.c_str(),x.name.c_str(),x.q,x.v,x.cfg==x.name?NULL:x.cfg.c_str(),x.axis,x.off); }
    else { if(k) mc::skip(); SG cp(aa_rx_sg_copy(sg)); mc::step(); all(S,cp,conf(S,1),1); all(S,sg,conf(S,1),1); return; }
    CHECK(aa_rx_sg_init(sg)==0,"init after an edit"); all(S,sg,conf(S,1),1); }
int main(int c,char**v){ return mc::run(c,v,"C19",{{"one frame",sp_one},{"two frames",sp_two},{"three frames",sp_three},{"four frames",sp_four},{"edited scenes",sp_edit}}); }
