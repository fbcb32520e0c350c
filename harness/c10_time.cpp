// Time arithmetic and byte order: all border values and byte patterns against exact integer arithmetic.
#include "mc.hpp"
#include <ctime>
#include <cerrno>
static int fake_nanosleep(const struct timespec *t, struct timespec *rem);
#define nanosleep fake_nanosleep
#include "amino.h"
#undef nanosleep
using mc::choose; typedef __int128 I;
static const I B=1000000000;
static I ns(timespec t){ return (I)t.tv_sec*B+t.tv_nsec; }
static void norm(timespec t,const char*w){ CHECK(t.tv_nsec>=0&&t.tv_nsec<1000000000L,"%s: nanoseconds %ld not normalised",w,t.tv_nsec); }
static const time_t SE[]={-20000000000L,-3,-1,0,1,2,1000000000,4000000000L,40000000000L}; static const long NS[]={0,1,2,499999999,500000000,999999998,999999999};
static const long RN[]={-5000000000L,-2000000001L,-1000000001,-1000000000,-999999999,-1,0,1,999999999,1000000000,1000000001,1999999999,2000000000,7000000003L};
static timespec T(const char*l){ time_t s=mc::pick(SE,l); long n=mc::pick(NS,l); return aa_tm_make(s,n); }
static void sp_make(){ time_t s=mc::pick(SE,"s"); long n=mc::pick(RN,"ns"); mc::split(); mc::step(); timespec t=aa_tm_make_norm(s,n); norm(t,"make_norm"); CHECK(ns(t)==(I)s*B+n,"make_norm(%ld,%ld)",(long)s,n); mc::nontrivial(mc::Hash()(s)(n)); }
static void sp_pair(){ timespec a=T("a"); mc::split(); timespec b=T("b"); mc::step(6);
    timespec c=aa_tm_add(a,b); norm(c,"add"); CHECK(ns(c)==ns(a)+ns(b),"add"); c=aa_tm_sub(a,b); norm(c,"sub"); CHECK(ns(c)==ns(a)-ns(b),"sub: (%ld,%ld)-(%ld,%ld)=(%ld,%ld)",a.tv_sec,a.tv_nsec,b.tv_sec,b.tv_nsec,c.tv_sec,c.tv_nsec);
    long k=aa_tm_cmp(a,b); I d=ns(a)-ns(b); CHECK((k<0)==(d<0)&&(k>0)==(d>0),"cmp"); CHECK(ns(aa_tm_min(a,b))==std::min(ns(a),ns(b)),"min"); CHECK(ns(aa_tm_max(a,b))==std::max(ns(a),ns(b)),"max");
    timespec m=T("m"); CHECK((aa_valid_timespec(m,a,b)==0)==(ns(m)>=ns(a)&&ns(m)<=ns(b)),"valid_timespec"); c=aa_tm_sub(aa_tm_add(a,m),m); CHECK(ns(c)==ns(a),"(a+m)-m"); mc::nontrivial(mc::Hash()(a.tv_sec)(a.tv_nsec)(b.tv_sec)(b.tv_nsec)); }
static I fl(I a,I b){ I q=a/b; if(a%b<0) q--; return q; }
static void sp_conv(){ timespec a=T("a"); mc::split(); mc::step(4); CHECK(aa_tm_timespec2usec(a)==(int64_t)fl(ns(a),1000),"usec"); CHECK(aa_tm_timespec2msec(a)==(int64_t)fl(ns(a),1000000),"msec"); NEAR(aa_tm_timespec2sec(a),(double)a.tv_sec+a.tv_nsec*1e-9,1e-15,"sec");
    if(a.tv_sec<100000&&a.tv_sec>-100000){ double s=aa_tm_timespec2sec(a); timespec c=aa_tm_sec2timespec(s); norm(c,"sec2timespec"); I d=ns(c)-ns(a); CHECK(d>=-1&&d<=1,"sec2timespec(timespec2sec) is off by %ld ns",(long)d); }
    static const double X[]={0,.5,-.5,1,-1,1.25,-1.25,3.75,-2.5,1e6+.5,1e-9*1024}; double x=mc::pick(X,"x"); timespec c=aa_tm_sec2timespec(x); norm(c,"sec2timespec"); I d=ns(c)-(I)std::llround(x*1e9); CHECK(d>=-1&&d<=1,"sec2timespec(%g)",x); mc::nontrivial(mc::Hash()(a.tv_sec)(a.tv_nsec)(x)); }
/* interruptions of sleep: every pattern of EINTR */
static std::vector<long> plan; static size_t pi; static I slept; static int calls;
static int fake_nanosleep(const struct timespec *t, struct timespec *rem){ calls++; I want=ns(*t); if(t->tv_nsec<0||t->tv_nsec>=1000000000L||t->tv_sec<0) mc::fail("sleep asked with an invalid time"); if(pi<plan.size()){ I part=want*plan[pi++]/4; slept+=part; I r=want-part; if(rem){ rem->tv_sec=(time_t)(r/B); rem->tv_nsec=(long)(r%B); } errno=EINTR; return -1; } slept+=want; return 0; }
static void sp_sleep(){ time_t s=mc::pick({(time_t)0,(time_t)1,(time_t)5},"s"); long n=mc::pick(NS,"n"); int k=choose(4,"interruptions"); mc::split(); plan.clear(); for(int i=0;i<k;i++) plan.push_back(choose(4,"part")); pi=0; slept=0; calls=0; mc::step(); timespec t=aa_tm_make(s,n); int r=aa_tm_relsleep(t); CHECK(r==0,"relsleep failed"); CHECK(slept==ns(t),"slept %ld ns instead of %ld",(long)slept,(long)ns(t)); CHECK(calls==k+1,"sleep called %d times",calls); mc::nontrivial(mc::Hash()(s)(n)(k)); }
static void sp_now(){ choose(1,"x"); mc::split(); timespec a=aa_tm_now(); norm(a,"now"); timespec b=aa_tm_now(); CHECK(aa_tm_cmp(a,b)<=0,"clock went backwards"); CHECK(aa_tm_isafter(aa_tm_sub(a,aa_tm_make(0,1)))==1,"isafter past"); CHECK(aa_tm_isafter(aa_tm_add(b,aa_tm_make(1000,0)))==0,"isafter future"); timespec f=aa_tm_future(aa_tm_make(5,999999999)); norm(f,"future"); I d=ns(f)-ns(b); CHECK(d>=5*B+B-1&&d<100*B,"future"); mc::step(4); mc::nontrivial(1); }

/* ---- byte order ---- */
static const unsigned char PAT[][8]={{1,2,3,4,5,6,7,8},{0xff,0xfe,0xfd,0xfc,0xfb,0xfa,0xf9,0xf8},{0x80,0,0,0,0,0,0,0},{0,0,0,0,0,0,0,0x80},{0x7f,0x80,0x81,0,0xff,1,0xfe,2},{0,0,0,0,0,0,0,0}};
template<class T> static T from(const unsigned char*p,bool be){ unsigned char b[8]; for(size_t i=0;i<sizeof(T);i++) b[i]= be? p[sizeof(T)-1-i]:p[i]; T v; memcpy(&v,b,sizeof(T)); return v; } /* host is little endian */
template<class T> static void order(T(*ldle)(void*),void(*stle)(void*,T),T(*ldbe)(void*),void(*stbe)(void*,T),T(*h2le)(T),T(*le2h)(T),T(*h2be)(T),T(*be2h)(T)) {
    size_t al=(size_t)choose(8,"alignment"); const auto &p=PAT[choose(6,"pattern")]; size_t n=sizeof(T); unsigned char buf[24]; mc::step(8);
    auto fill=[&]{ memset(buf,0xa5,sizeof buf); }; auto guard=[&](const char*w){ for(size_t i=0;i<sizeof buf;i++) if(i<al||i>=al+n) CHECK(buf[i]==0xa5,"%s: byte outside the value changed",w); };
    for(int be=0;be<2;be++){ fill(); memcpy(buf+al,p,n); T v=(be?ldbe:ldle)(buf+al), w=from<T>(p,be); CHECK(!memcmp(&v,&w,n),"load %s",be?"big":"little"); guard("load"); CHECK(!memcmp(buf+al,p,n),"load changed the source");
        fill(); (be?stbe:stle)(buf+al,w); CHECK(!memcmp(buf+al,p,n),"store %s",be?"big":"little"); guard("store");
        if(h2le){ T h=w, c=(be?h2be:h2le)(h); CHECK(!memcmp(&c,p,n),"host to %s",be?"big":"little"); T d=(be?be2h:le2h)(c); CHECK(!memcmp(&d,&h,n),"%s to host",be?"big":"little"); } }
    mc::nontrivial(mc::Hash()(al)(p[0])(p[7])(n));
}
#define ORD(sfx,type) order<type>(aa_endconv_ld_le_##sfx,aa_endconv_st_le_##sfx,aa_endconv_ld_be_##sfx,aa_endconv_st_be_##sfx,aa_endconv_h_to_le_##sfx,aa_endconv_le_to_h_##sfx,aa_endconv_h_to_be_##sfx,aa_endconv_be_to_h_##sfx)
#define ORDF(sfx,type) order<type>(aa_endconv_ld_le_##sfx,aa_endconv_st_le_##sfx,aa_endconv_ld_be_##sfx,aa_endconv_st_be_##sfx,0,0,0,0)
static void sp_order(){ int k=choose(8,"type"); mc::split(); switch(k){ case 0: ORD(i64,int64_t);break; case 1: ORD(u64,uint64_t);break; case 2: ORD(i32,int32_t);break; case 3: ORD(u32,uint32_t);break; case 4: ORD(i16,int16_t);break; case 5: ORD(u16,uint16_t);break; case 6: ORDF(d,double);break; case 7: ORDF(s,float);break; } }
int main(int c,char**v){ return mc::run(c,v,"C10",{{"make",sp_make},{"pair",sp_pair},{"convert",sp_conv},{"sleep",sp_sleep},{"now",sp_now},{"byte-order",sp_order}}); }
