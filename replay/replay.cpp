// Replays transforms of the real library against an independent long-double reference.
// usage: replay <case> [args]; prints "OK ..." or "FAIL ..." per case, exit 1 on the first FAIL.
#include "otfft.h"
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <complex>
#include <cmath>
#include <random>
#include <stdexcept>
#include <omp.h>
#include <dlfcn.h>
#include <unistd.h>
// scheduling perturbation: threads are held up at random where they fetch their share of a parallel loop
static int vp_delay=0; static thread_local uint64_t vp_rng=0;
static void vp_pause(int id){ if(!vp_delay) return; if(!vp_rng) vp_rng=88172645463325252ull*(uint64_t)(id+1)+(uint64_t)vp_delay*7919u; vp_rng^=vp_rng<<13; vp_rng^=vp_rng>>7; vp_rng^=vp_rng<<17; if((vp_rng>>20)&1) usleep((useconds_t)((vp_rng>>33)%3000)); }
extern "C" int omp_get_thread_num(void) noexcept { static int(*f)(void)=(int(*)(void))dlsym(RTLD_NEXT,"omp_get_thread_num"); int id=f(); if(id>=0) vp_pause(id); return id; }
using namespace OTFFT;
typedef long double ld; typedef std::complex<ld> cld;
static const ld PI = acosl(-1.0L);
static cld unit(int64_t num, int64_t den){ num%=den; if(num<0)num+=den; ld a=2*PI*(ld)num/(ld)den; return cld(cosl(a),sinl(a)); }
static inline cld mul(const cld&a,const cld&b){ return cld(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real()); }
// plain recursive radix-2 for powers of two, in long double
static void p2(std::vector<cld>&a,int sign){ size_t n=a.size(); for(size_t i=1,j=0;i<n;i++){size_t b=n>>1;for(;j&b;b>>=1)j^=b;j^=b;if(i<j)std::swap(a[i],a[j]);}
  std::vector<cld> w(n/2+1); for(size_t i=0;i<n/2;i++) w[i]=unit(sign*(int64_t)i,(int64_t)n);
  for(size_t len=2;len<=n;len<<=1) for(size_t i=0;i<n;i+=len) for(size_t k=0;k<len/2;k++){cld u=a[i+k],v=mul(a[i+k+len/2],w[k*(n/len)]);a[i+k]=u+v;a[i+k+len/2]=u-v;} }
static std::vector<cld> dft0(const std::vector<cld>&x,int sign){ size_t n=x.size(); if((n&(n-1))==0){auto a=x;p2(a,sign);return a;}
  if(n<=256){ std::vector<cld> w(n),y(n); for(size_t i=0;i<n;i++)w[i]=unit(sign*(int64_t)i,n); for(size_t k=0;k<n;k++){cld s=0;for(size_t j=0;j<n;j++)s+=mul(x[j],w[(size_t)((uint64_t)j*k%n)]);y[k]=s;} return y;}
  size_t L=1; while(L<2*n)L<<=1; std::vector<cld>a(L),b(L),c(n); for(size_t i=0;i<n;i++){ c[i]=unit(sign*(int64_t)((__int128)i*i%(2*(__int128)n)),2*(int64_t)n); a[i]=mul(x[i],c[i]); b[i]=std::conj(c[i]); if(i)b[L-i]=b[i]; }
  p2(a,-1);p2(b,-1);for(size_t i=0;i<L;i++)a[i]=mul(a[i],b[i]);p2(a,1); std::vector<cld>y(n); for(size_t i=0;i<n;i++)y[i]=mul(a[i],c[i])/(ld)L; return y; }
// the last two sums computed
static const std::vector<cld>& dft(const std::vector<cld>&x,int sign){ static std::vector<cld> in[2],out[2]; int i=sign>0; if(in[i]!=x||out[i].size()!=x.size()){ in[i]=x; out[i]=dft0(x,sign); } return out[i]; }
static OptimizationType opt(int b){ switch(b){
#ifdef OTFFT_WITH_SSE2
 case 1: return OptimizationType::OPTIMIZED_FFT_SSE2;
#endif
#ifdef OTFFT_WITH_AVX
 case 2: return OptimizationType::OPTIMIZED_FFT_AVX;
#endif
#ifdef OTFFT_WITH_AVX2
 case 3: return OptimizationType::OPTIMIZED_FFT_AVX2;
#endif
 } return OptimizationType::OPTIMIZED_FFT_AUTO; }
static const char* modes[]={"fwd","fwd0","fwdu","fwdn","inv","inv0","invu","invn"};
static ld mscale(int m,ld n){ switch(m){case 0:case 3:case 7:return 1/n; case 2:case 6:return 1/sqrtl(n);} return 1; }
template<class T> struct Guard { // guarded, 64-byte aligned buffer with canaries around it
  std::vector<char> raw; T*p; size_t n; static const size_t G=4096;
  explicit Guard(size_t n_,size_t mis=0):raw(n_*sizeof(T)+2*G+128,(char)0x5A),n(n_){ uintptr_t q=(uintptr_t)raw.data()+G; q=(q+63)&~(uintptr_t)63; p=(T*)(q+mis); }
  bool intact(){ char*b=(char*)p,*e=(char*)(p+n); for(char*c=raw.data();c<b;c++)if(*c!=(char)0x5A)return false; for(char*c=e;c<raw.data()+raw.size();c++)if(*c!=(char)0x5A)return false; return true; } };
static double maxabs(const std::vector<cld>&v){ ld m=0; for(auto&z:v)m=std::max(m,std::abs(z)); return (double)m; }
static int fails=0;
static void report(bool ok,const std::string&what,double err){ if(!ok){fails++; printf("FAIL %s error=%g\n",what.c_str(),err); fflush(stdout);} }
static std::vector<cld> rnd(size_t n,int seed,bool real){ std::mt19937_64 g(seed*7919+n); std::normal_distribution<double> d; std::vector<cld> v(n); for(auto&z:v){ double a=d(g),b=d(g); z=cld(a,real?0:b);} return v; }
static const double TOL=1e-11;
static void chk_complex(ComplexFFT&f,const char*nm,int n,int b,int mask,int seed){
  for(int m=0;m<8;m++) if(mask>>m&1){ auto x=rnd(n,seed,false); int sign=m<4?-1:1; auto r=dft(x,sign); ld sc=mscale(m,n); for(auto&z:r)z*=sc;
    Guard<complex_t> g(n); for(int i=0;i<n;i++)g.p[i]=complex_t((double)x[i].real(),(double)x[i].imag());
    switch(m){case 0:f.fwd(g.p);break;case 1:f.fwd0(g.p);break;case 2:f.fwdu(g.p);break;case 3:f.fwdn(g.p);break;case 4:f.inv(g.p);break;case 5:f.inv0(g.p);break;case 6:f.invu(g.p);break;case 7:f.invn(g.p);}
    ld e=0; int at=0; for(int i=0;i<n;i++){ ld d=std::abs(cld(g.p[i].Re,g.p[i].Im)-r[i]); if(!(d<=e)){e=d;at=i;} } double rel=(double)(e/(maxabs(r)+1e-300L));
    char buf[256]; snprintf(buf,256,"%s n=%d mode=%s backend=%d threads=%d seed=%d at=%d",nm,n,modes[m],b,omp_get_max_threads(),seed,at); report(rel<TOL&&rel==rel,buf,rel); if(!g.intact())report(false,std::string(buf)+" wrote outside x",0); } }
static void chk_real(RealFFT&f,int n,int b,int mask,int seed){
  for(int m=0;m<8;m++) if(mask>>m&1){ char buf[256]; double rel; auto xr=rnd(n,seed,true); ld sc=mscale(m,n); auto X=dft(xr,-1); ld e=0;int at=0; bool in=true,keep=true;
    if(m<4){ for(auto&z:X)z*=sc; Guard<double>x(n);Guard<complex_t>y(n); for(int i=0;i<n;i++)x.p[i]=(double)xr[i].real(); std::vector<double> sv(x.p,x.p+n);
      switch(m){case 0:f.fwd(x.p,y.p);break;case 1:f.fwd0(x.p,y.p);break;case 2:f.fwdu(x.p,y.p);break;case 3:f.fwdn(x.p,y.p);}
      for(int i=0;i<n;i++){ld d=std::abs(cld(y.p[i].Re,y.p[i].Im)-X[i]); if(!(d<=e)){e=d;at=i;}} rel=(double)(e/(maxabs(X)+1e-300L)); in=x.intact()&&y.intact(); keep=!memcmp(sv.data(),x.p,n*sizeof(double)); }
    else { Guard<complex_t>x(n);Guard<double>y(n); for(int i=0;i<n;i++)x.p[i]=complex_t((double)X[i].real(),(double)X[i].imag()); x.p[0].Im=0; if(n%2==0)x.p[n/2].Im=0;
      switch(m){case 4:f.inv(x.p,y.p);break;case 5:f.inv0(x.p,y.p);break;case 6:f.invu(x.p,y.p);break;case 7:f.invn(x.p,y.p);}
      ld mx=0; for(int i=0;i<n;i++){ld t=xr[i].real()*n*sc; mx=std::max(mx,std::abs(t)); ld d=std::abs(y.p[i]-t); if(!(d<=e)){e=d;at=i;}} rel=(double)(e/(mx+1e-300L)); in=x.intact()&&y.intact(); }
    snprintf(buf,256,"real n=%d mode=%s backend=%d threads=%d seed=%d at=%d",n,modes[m],b,omp_get_max_threads(),seed,at); report(rel<TOL&&rel==rel,buf,rel); if(!in)report(false,std::string(buf)+" wrote outside x/y",0); if(!keep)report(false,std::string(buf)+" input modified",0); } }
static void chk_dct(RealDCT&f,int n,int b,int mask,int seed){
  auto xr=rnd(n,seed,true); std::vector<cld> ext(4*(size_t)n); for(int i=0;i<n;i++){ ext[2*i+1]=xr[i]; ext[4*(size_t)n-2*i-1]=xr[i]; } auto E=dft(ext,-1); // E[k]=2*sum x cos(pi k (2i+1)/2n)
  for(int m=0;m<8;m++) if((mask>>m&1)&&m!=2&&m!=6){ Guard<double>x(n); ld sc=mscale(m,n); ld e=0,mx=0;int at=0;
    for(int i=0;i<n;i++)x.p[i]=m<4?(double)xr[i].real():(double)(E[i].real()/2);
    switch(m){case 0:f.fwd(x.p);break;case 1:f.fwd0(x.p);break;case 3:f.fwdn(x.p);break;case 4:f.inv(x.p);break;case 5:f.inv0(x.p);break;case 7:f.invn(x.p);}
    for(int i=0;i<n;i++){ ld t=m<4?E[i].real()/2*sc:xr[i].real()*n*sc; mx=std::max(mx,std::abs(t)); ld d=std::abs(x.p[i]-t); if(!(d<=e)){e=d;at=i;} } double rel=(double)(e/(mx+1e-300L)); char buf[256];
    snprintf(buf,256,"dct n=%d mode=%s backend=%d threads=%d seed=%d at=%d",n,modes[m],b,omp_get_max_threads(),seed,at); report(rel<TOL&&rel==rel,buf,rel); if(!x.intact())report(false,std::string(buf)+" wrote outside x",0); } }
static void one(const std::string&c,int n,int b,int mask,int seed){
  if(c=="complex"){ auto f=Factory::createComplexFFT(n,opt(b)); chk_complex(*f,"complex",n,b,mask,seed);} 
  else if(c=="bluestein"){ auto f=Factory::createBluesteinFFT(n,opt(b)); chk_complex(*f,"bluestein",n,b,mask,seed);} 
  else if(c=="real"){ auto f=Factory::createRealFFT(n,opt(b)); chk_real(*f,n,b,mask,seed);} 
  else if(c=="dct"){ auto f=Factory::createDCT(n,opt(b)); chk_dct(*f,n,b,mask,seed);} }
int main(int argc,char**argv){ // replay kind n backend mask seed threads
  if(argc>=2&&std::string(argv[1])=="survey"){ int lo=atoi(argv[2]),hi=atoi(argv[3]); 
    for(int n=lo;n<=hi;n++) for(int b=1;b<=3;b++){ if(n>1)one("complex",n,b,255,1); one("bluestein",n,b,255,1); if(n%2==0&&n>2){one("real",n,b,255,1);one("dct",n,b,255,1);} } printf("survey %d..%d fails=%d\n",lo,hi,fails); return fails!=0; }
  if(argc<7){fprintf(stderr,"usage\n");return 2;}
  omp_set_num_threads(atoi(argv[6])); if(argc>7){ vp_delay=atoi(argv[7]); for(int i=0;i<3;i++) { one(argv[1],atoi(argv[2]),atoi(argv[3]),atoi(argv[4]),atoi(argv[5])); vp_delay+=1000; } vp_delay=0; } one(argv[1],atoi(argv[2]),atoi(argv[3]),atoi(argv[4]),atoi(argv[5])); if(!fails)printf("OK\n"); return fails!=0; }
