// Wavefront OBJ and MTL files: every short text over the alphabets, compared with an independent line-oriented reader.
#include "mc.hpp"
#include <cmath>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include "amino.h"
#include "amino/rx/wavefront.h"
extern "C" double aa_rx_wf_material_get_specular_weight(const struct aa_rx_wf_material*);
using mc::choose; typedef std::string S; typedef std::vector<S> VS; typedef std::vector<double> V; typedef std::vector<int> VI;
static S dir(){ static S d; if(d.empty()) d=mc::scratch(); return d; }
static void put(const S&n,const S&t){ FILE*f=fopen((dir()+"/"+n).c_str(),"w"); CHECK(f,"scratch file"); fwrite(t.data(),1,t.size(),f); fclose(f); }
static VS lines(const S&t){ VS r; S c; for(char x:t){ if(x=='\n'){ r.push_back(c); c=""; } else c+=x; } if(!c.empty()) r.push_back(c); return r; }
static VS words(const S&l){ VS r; S c; for(char x:l){ if(x==' '||x=='\t'){ if(!c.empty()) r.push_back(c); c=""; } else c+=x; } if(!c.empty()) r.push_back(c); return r; }
static bool number(const S&w,double*o){ size_t i=0,n=w.size(); auto dig=[&]{ size_t k=i; while(i<n&&isdigit((unsigned char)w[i])) i++; return i>k; }; if(i<n&&w[i]=='-') i++; if(!dig()) return false; if(i<n&&w[i]=='.'){ i++; dig(); } S m=w.substr(0,i); if(i<n&&(w[i]=='e'||w[i]=='d'||w[i]=='s')){ i++; S x="e"; if(i<n&&w[i]=='-'){ i++; x+="-"; } size_t k=i; if(!dig()) return false; m+=x+w.substr(k,i-k); } if(i!=n) return false; *o=(double)strtold(m.c_str(),NULL); return true; }
static VS strip(VS w){ /* drop a trailing comment of the words after the first; a comment may follow a number directly */ VS r; for(auto&x:w){ size_t p=x.find('#'); if(p==S::npos){ r.push_back(x); continue; } if(p) r.push_back(x.substr(0,p)); break; } return r; }
struct Mat { S name; V sw,sp,am,em,di,al,io; };
static bool ref_mtl(const S&t,std::vector<Mat>&M){ for(auto&l:lines(t)){ VS w=words(l); if(w.empty()||w[0][0]=='#') continue; if(w[0].substr(0,5)=="illum"||w[0].substr(0,6)=="map_Kd") continue; if(w[0]=="newmtl"){ if(w.size()<2||(w.size()>2&&w[2][0]!='#')) return false; Mat m; m.name=w[1]; M.push_back(m); continue; } w=strip(w); V*p=NULL; size_t n=1; if(M.empty()) return false; Mat&m=M.back(); if(w[0]=="Ns") p=&m.sw; else if(w[0]=="Ni") p=&m.io; else if(w[0]=="d") p=&m.al; else { n=3; if(w[0]=="Ka") p=&m.am; else if(w[0]=="Kd") p=&m.di; else if(w[0]=="Ks") p=&m.sp; else if(w[0]=="Ke") p=&m.em; else return false; } if(w.size()!=n+1) return false; p->clear(); for(size_t i=1;i<=n;i++){ double x; if(!number(w[i],&x)) return false; p->push_back(x); } } return true; }
struct Obj { V v,n; size_t nt=0; VI fv,fn,ft,fm; VS mats,libs; std::vector<std::vector<Mat>> mtl; };
static std::map<S,S> FILES;
static bool ref_obj(const S&t,Obj&o){ int cur=0; for(auto&l:lines(t)){ VS w=words(l); if(w.empty()||w[0][0]=='#') continue; if((w[0]=="s"&&(w.size()>1||l.find("s ")!=S::npos||l.find("s\t")!=S::npos))||(w[0]=="l"&&l[0]=='l'&&l.size()>1)) continue; if(w[0]=="o"||w[0]=="usemtl"||w[0]=="mtllib"){ if(w.size()<2||(w.size()>2&&w[2][0]!='#')) return false; if(w[0]=="usemtl"){ size_t k=0; while(k<o.mats.size()&&o.mats[k]!=w[1]) k++; if(k==o.mats.size()) o.mats.push_back(w[1]); cur=(int)k; } if(w[0]=="mtllib"){ if(!FILES.count(w[1])) return false; std::vector<Mat> M; if(!ref_mtl(FILES[w[1]],M)) return false; o.libs.push_back(w[1]); o.mtl.push_back(M); } continue; }
        w=strip(w); size_t k= w[0]=="vt"?2:3; if(w.size()!=k+1) return false; if(w[0]=="f"){ for(size_t i=1;i<=3;i++){ int ix[3]={-1,-1,-1}; size_t p=0; for(int j=0;j<3;j++){ size_t e=p; while(e<w[i].size()&&isdigit((unsigned char)w[i][e])) e++; if(e==p&&j!=1) return false; if(e>p){ long x=strtol(w[i].substr(p,e-p).c_str(),NULL,10); if(x<1||x>1000000) return false; ix[j]=(int)x-1; } if(j<2){ if(e>=w[i].size()||w[i][e]!='/') return false; e++; } else if(e!=w[i].size()) return false; p=e; } o.fv.push_back(ix[0]); o.ft.push_back(ix[1]); o.fn.push_back(ix[2]); } o.fm.push_back(cur); continue; } V*d=w[0]=="v"?&o.v:w[0]=="vn"?&o.n:NULL; if(!d&&w[0]!="vt") return false; for(size_t i=1;i<=k;i++){ double x; if(!number(w[i],&x)) return false; if(d) d->push_back(x); } if(!d) o.nt++; }
    for(int i:o.fv) if((size_t)i>=o.v.size()/3) return false; for(int i:o.fn) if((size_t)i>=o.n.size()/3) return false; for(int i:o.ft) if(i>=0&&(size_t)i>=o.nt) return false; return true; }
static bool close_(double a,double b){ return a==b||fabs(a-b)<=4e-15*fabs(b)||fabs(a-b)<1e-300; }
static S show(const S&t){ S r; for(char c:t) r+= c=='\n'?S("\\n"):c=='\t'?S("\\t"):S(1,c); return r; }
static void same_mtl(const struct aa_rx_wf_mtl*m,const std::vector<Mat>&M,const S&t){ CHECK(aa_rx_wf_mtl_material_count(m)==M.size(),"%zu materials, expected %zu in '%s'",aa_rx_wf_mtl_material_count(m),M.size(),show(t).c_str()); CHECK(!aa_rx_wf_mtl_get_material(m,M.size())&&!aa_rx_wf_mtl_get_material(m,M.size()+9),"a material after the last"); for(size_t i=0;i<M.size();i++){ struct aa_rx_wf_material*a=aa_rx_wf_mtl_get_material(m,i); const Mat&b=M[i]; CHECK(a&&b.name==aa_rx_wf_material_get_name(a),"name of material %zu in '%s'",i,show(t).c_str());
#define V3F(F,B) CHECK(aa_rx_wf_material_has_##F(a)==(int)!b.B.empty(),#F " of material %zu: present %d in '%s'",i,aa_rx_wf_material_has_##F(a),show(t).c_str()); if(!b.B.empty()) for(size_t k=0;k<3;k++) CHECK(close_(aa_rx_wf_material_get_##F(a)[k],b.B[k]),#F " of material %zu is %.17g, expected %.17g",i,aa_rx_wf_material_get_##F(a)[k],b.B[k]);
#define V1F(F,B) CHECK(aa_rx_wf_material_has_##F(a)==(int)!b.B.empty(),#F " of material %zu: present %d in '%s'",i,aa_rx_wf_material_has_##F(a),show(t).c_str()); if(!b.B.empty()) CHECK(close_(aa_rx_wf_material_get_##F(a),b.B[0]),#F " of material %zu is %.17g, expected %.17g",i,aa_rx_wf_material_get_##F(a),b.B[0]);
    V3F(specular,sp) V3F(ambient,am) V3F(emission,em) V3F(diffuse,di) V1F(specular_weight,sw) V1F(alpha,al) V1F(ior,io) } }
/* must: a text of the plain supported form has to be loaded */
static bool run_mtl(const S&t,bool must){ put("m.mtl",t); std::vector<Mat> M; bool ok=ref_mtl(t,M); mc::step(); struct aa_rx_wf_mtl*m=aa_rx_wf_mtl_parse((dir()+"/m.mtl").c_str()); struct D { struct aa_rx_wf_mtl*m; ~D(){ if(m) aa_rx_wf_mtl_destroy(m); } } d{m}; if(must&&ok) CHECK(m,"valid materials '%s' are rejected",show(t).c_str()); if(m){ CHECK(ok,"invalid materials '%s' are accepted",show(t).c_str()); same_mtl(m,M,t); } mc::state(mc::Hash()(1).bytes(t.data(),t.size())); return m; }
static bool run_obj(const S&t,bool must){ put("o.obj",t); Obj o; bool ok=ref_obj(t,o); mc::step(); struct aa_rx_wf_obj*m=aa_rx_wf_parse((dir()+"/o.obj").c_str()); struct D { struct aa_rx_wf_obj*m; ~D(){ if(m) aa_rx_wf_obj_destroy(m); } } d{m}; if(must&&ok) CHECK(m,"valid object '%s' is rejected",show(t).c_str()); if(!m) return false; CHECK(ok,"invalid object '%s' is accepted",show(t).c_str()); const double*x; size_t n; aa_rx_wf_obj_get_vertices(m,&x,&n); CHECK(n==o.v.size(),"%zu coordinates, expected %zu in '%s'",n,o.v.size(),show(t).c_str()); for(size_t i=0;i<n;i++) CHECK(close_(x[i],o.v[i]),"coordinate %zu is %.17g, expected %.17g in '%s'",i,x[i],o.v[i],show(t).c_str()); aa_rx_wf_obj_get_normals(m,&x,&n); CHECK(n==o.n.size(),"%zu normal components, expected %zu in '%s'",n,o.n.size(),show(t).c_str()); for(size_t i=0;i<n;i++) CHECK(close_(x[i],o.n[i]),"normal component %zu is %.17g, expected %.17g",i,x[i],o.n[i]); const int32_t*p;
    auto ix=[&](const VI&e,const char*w){ CHECK(n==e.size(),"%zu %s indices, expected %zu in '%s'",n,w,e.size(),show(t).c_str()); for(size_t i=0;i<n;i++) CHECK(p[i]==e[i],"%s index %zu is %d, expected %d in '%s'",w,i,p[i],e[i],show(t).c_str()); }; aa_rx_wf_obj_get_vertex_indices(m,&p,&n); ix(o.fv,"vertex"); aa_rx_wf_obj_get_normal_indices(m,&p,&n); ix(o.fn,"normal"); aa_rx_wf_obj_get_uv_indices(m,&p,&n); ix(o.ft,"texture"); aa_rx_wf_obj_get_texture_indices(m,&p,&n); ix(o.fm,"material"); CHECK(aa_rx_wf_obj_material_count(m)==o.mats.size(),"materials"); for(size_t i=0;i<o.mats.size();i++) CHECK(o.mats[i]==aa_rx_wf_obj_get_material_name(m,i),"material name %zu",i); CHECK(!aa_rx_wf_obj_get_material_name(m,o.mats.size()),"a material name after the last"); CHECK(aa_rx_wf_obj_mtl_count(m)==o.libs.size(),"material files"); for(size_t i=0;i<o.libs.size();i++){ CHECK(o.libs[i]==aa_rx_wf_obj_get_mtl_filename(m,i),"material file name %zu",i); same_mtl(aa_rx_wf_obj_get_mtl(m,i),o.mtl[i],t); } for(size_t k:{o.libs.size(),o.libs.size()+3}) CHECK(!aa_rx_wf_obj_get_mtl_filename(m,k)&&!aa_rx_wf_obj_get_mtl(m,k),"a material file after the last"); mc::state(mc::Hash()(2).bytes(t.data(),t.size())); return true; }
static void libs(){ FILES={{"a.mtl","newmtl A\nKd 1 .5 0\n"},{"b.mtl","newmtl B\nKd 1 0.5 0\nNs 96.078431\nnewmtl C\nd 0.5\n"}}; for(auto&f:FILES) put(f.first,f.second); mkdir((dir()+"/dir").c_str(),0700); }
static const char*OL[]={"v 1 2 3\n","v -0.5 1e-3 12.25\n","vn 0 0 1\n","vt 0.5 1\n","f 1//1 2//1 1//1\n","f 1/1/1 1/1/1 2/2/2\n","usemtl red\n","usemtl b#1\n","o thing\n","s off\n","# comment\n","\n","  v\t1  2 3  # end\n","f 2/2/1 1//2 2/1/1 # c\n","mtllib b.mtl\n","l 1 2\n","v 1 2\n","v 1 2 \n","v 1 2 3 4\n","f 0//1 1//1 1//1\n","f 1/0/1 1//1 1//1\n","f 1 2 1\n","f 1/1 1/1 1/1\n","f 1//1 2//1\n","f 1//1 1//1 1//1 1//1\n","f -1//-1 -1//-1 -1//-1\n","f 4294967297//1 1//1 1//1\n","mtllib a.mtl\n","mtllib none.mtl\n","mtllib dir\n","g x\n","vn 0 1\n","vt 1\n","v 1 2 3 x\n","v a b c\n","usemtl\n","o \n"}; enum { NOV=16, NO=sizeof OL/sizeof*OL };
static const char*ML[]={"newmtl A\n","newmtl B # c\n","Ns 96.078431\n","Ka 1 0 .5\n","Ka 1.0 0 0.25\n","Kd 0.1 0.2 0.3\n","Ks 1e-2 2 3\n","Ke -1 0 0 # x\n","Ni 1.5\n","d 0.75\n","illum 2\n","map_Kd a b.png\n","# c\n","\n"," \tKd 1\t1 1\n","Kd 1 1\n","Kd 1 1 \n","Kd 1 1 1 1\n","Ns \n","Ns a\n","newmtl\n","newmtl A B\n","Tr 1\n","d 1 2\n"}; enum { NM=sizeof ML/sizeof*ML };
/* files of lines; the last line with and without its newline, and cut at every point */
static void sp_obj(){ libs(); bool T_=mc::thorough(); int n=choose(T_?5:4,"lines"); S t; bool plain=true; for(int i=0;i<n;i++){ int k=choose(i<2||(i==2&&T_)?(int)NO:(int)NOV,"line"); if(i==0) mc::split(); plain&=k<NOV; t+=OL[k]; } bool a=run_obj(t,plain); if(t.size()>1) run_obj(t.substr(0,t.size()-1),false); if(n==1||(n==2&&T_)) for(size_t k=0;k<t.size();k++) run_obj(t.substr(0,k),false); if(a) mc::nontrivial(mc::Hash().bytes(t.data(),t.size())); }
/* a full set of elements first, then every pair of lines */
static void sp_face(){ libs(); S t="v 0 0 0\nv 1 0 0\nv 0 1 0.125\nvn 0 0 1\nvn 1 0 0\nvt 0 0\nvt 1 0.5\n"; static const char*A[]={"1","2","3","4","0","99999999999",""},*B[]={"","1","2","3","0"},*C[]={"1","2","3","0",""}; int a=choose(7,"v"),b=choose(5,"t"),c=choose(5,"n"); mc::split(); int d=choose(4,"v"),e=choose(4,"t"),f=choose(3,"n"),s=choose(3,"corner"); int m=choose(4,"materials"); S x=S(A[a])+"/"+B[b]+"/"+C[c],y=S(A[d])+"/"+B[e]+"/"+C[f],z="3//2"; if(m&1) t+="usemtl one\n"; t+="f "+(s==0?x+" "+y+" "+z:s==1?y+" "+z+" "+x:z+" "+x+" "+y)+"\n"; if(m&2) t+="usemtl two\nf 1//1 2//1 3//1\nusemtl one\nf 3//1 2//1 1//1\n"; bool r=run_obj(t,true); if(r) mc::nontrivial(mc::Hash().bytes(t.data(),t.size())); }
static void sp_mtl(){ bool T_=mc::thorough(); int n=choose(T_?5:4,"lines"); S t; bool plain=true; for(int i=0;i<n;i++){ int k=choose(i<3||T_?(int)NM:15,"line"); if(i==0) mc::split(); plain&=k<15; t+=ML[k]; } bool a=run_mtl(t,plain); if(t.size()>1) run_mtl(t.substr(0,t.size()-1),false); if(n==1||n==2) for(size_t k=0;k<t.size();k++) run_mtl(t.substr(0,k),false); if(a) mc::nontrivial(mc::Hash()(3).bytes(t.data(),t.size())); }
/* all short character strings, on their own and after a valid beginning */
static void sp_chars(){ libs(); bool T_=mc::thorough(); static const char AB[]="vnf 1/-.\n#oslte\t\xff"; int na=(int)sizeof AB-1,L=T_?6:5; static const char*PRE[]={"","v 1 2 3\nvn 1 0 0\nv 1 ","v 0 0 0\nvn 0 0 1\nf 1//1 1//","vt 1 "}; int pre=choose(4,"beginning"); if(pre) L--; int n=choose(L,"length"); S t=PRE[pre]; for(int i=0;i<n;i++){ int k=choose(na,"character"); if(i==1) mc::split(); t+=AB[k]; } if(run_obj(t,false)) mc::nontrivial(mc::Hash()(4).bytes(t.data(),t.size())); }
static void sp_mchars(){ bool T_=mc::thorough(); static const char AB[]="KdNsi 1.-\n#em\t"; int na=(int)sizeof AB-1,L=T_?6:5; static const char*PRE[]={"","newmtl A\nKd 1 ","newmtl A\n","newm"}; int pre=choose(4,"beginning"); if(pre==1) L--; int n=choose(L,"length"); S t=PRE[pre]; for(int i=0;i<n;i++){ int k=choose(na,"character"); if(i==1) mc::split(); t+=AB[k]; } if(run_mtl(t,false)) mc::nontrivial(mc::Hash()(5).bytes(t.data(),t.size())); }
/* materials in use: names that are prefixes of one another or differ in case */
static void sp_use(){ static const char*L[]={"f 1//1 1//1 1//1\n","usemtl a\n","usemtl ab\n","usemtl abc\n","usemtl b\n","usemtl A\n","usemtl a.1\n","o a\n"}; bool T_=mc::thorough(); int n=choose(T_?7:6,"lines"); S t="v 1 2 3\nvn 1 1 1\n"; for(int i=0;i<n;i++){ int k=choose(8,"line"); if(i==1) mc::split(); t+=L[k]; } run_obj(t,true); mc::nontrivial(mc::Hash()(5).bytes(t.data(),t.size())); }
/* numbers */
static void sp_num(){ static const char*I[]={"0","7","-0","-12","123456789","00123","9223372036854775808","123456789012345678901234567890"},*F[]={"",".",".0",".5",".25",".000001",".123456789012345678901234567890",".99999999999999999999",".0000000000000000000000000000000125"},*E[]={"","e0","e3","e-3","d2","s-2","e20","e-320","e308","e-10"}; int i=choose(8,"integer"),f=choose(9,"fraction"),e=choose(10,"exponent"); S x=S(I[i])+F[f]+E[e]; libs(); run_obj("v "+x+" 1 "+x+"\nvn 1 "+x+" 0\n",true); run_mtl("newmtl A\nKd "+x+" 1 2\nNs "+x+"\n",true); mc::nontrivial(mc::Hash().bytes(x.data(),x.size())); }
static void sp_long(){ libs(); int k=choose(5,"kind"),e=choose(4,"size"); size_t n=(size_t)1<<(4+4*e); (void)0; S t; Obj o; switch(k){ case 0: for(size_t i=0;i<n;i++) t+="v "+std::to_string(i)+" 0.5 -"+std::to_string(i)+"\n"; break; case 1: t="o "+S(n,'x')+"\nusemtl "+S(n,'y')+"\n"; break; case 2: t="v 1 2 3\nvn 1 1 1\n"; for(size_t i=0;i<n;i++){ t+="usemtl m"+std::to_string(i%37)+"\n"; t+="f 1//1 1//1 1//1\n"; } break; case 3: t="# "+S(n,'c')+"\nv 1 2 3\n"; break; case 4: for(size_t i=0;i<n;i++) t+="vt 0.5 1\nvn 0 0 1\n"; t+="v 1 2 3\nf 1/"+std::to_string(n)+"/"+std::to_string(n)+" 1//1 1//1\n"; break; } bool a=run_obj(t,true); CHECK(a,"long object is rejected"); mc::nontrivial(mc::Hash()(k)(e)); }
static void sp_miss(){ libs(); S d=dir(); mc::step(4); CHECK(!aa_rx_wf_parse((d+"/none.obj").c_str()),"a missing object is loaded"); CHECK(!aa_rx_wf_mtl_parse((d+"/none.mtl").c_str()),"a missing material file is loaded"); CHECK(!aa_rx_wf_parse(d.c_str()),"a directory is loaded"); CHECK(!aa_rx_wf_mtl_parse(d.c_str()),"a directory is loaded"); S cwd; { char b[4096]; CHECK(getcwd(b,sizeof b),"cwd"); cwd=b; } CHECK(!chdir(d.c_str()),"chdir"); put("here.obj","mtllib b.mtl\nv 1 2 3\n"); struct aa_rx_wf_obj*o=aa_rx_wf_parse("here.obj"); CHECK(!chdir(cwd.c_str()),"chdir"); CHECK(o&&aa_rx_wf_obj_mtl_count(o)==1,"an object in the working directory does not find its materials"); aa_rx_wf_obj_destroy(o); mc::nontrivial(1); }
int main(int c,char**v){ return mc::run(c,v,"C27",{{"object lines",sp_obj},{"faces",sp_face},{"materials in use",sp_use},{"material lines",sp_mtl},{"object characters",sp_chars},{"material characters",sp_mchars},{"numbers",sp_num},{"long files",sp_long},{"missing files",sp_miss}}); }
