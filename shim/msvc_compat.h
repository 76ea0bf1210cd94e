#pragma once
#define MAX_PATH 260
#include <chrono>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <climits>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <random>
#include <tuple>
#include <iostream>
#include <limits>
#include <atomic>
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <mm_malloc.h>
#include <xmmintrin.h>
#include <pmmintrin.h>
#define high_resolution_clock steady_clock
#define STRING(x) "?"
#define _DN_SAVE 0x00000000
#define _DN_FLUSH 0x01000000
#define _MCW_DN 0x03000000
#define _MCW_RC 0x00000300
#define _RC_NEAR 0
#define _RC_CHOP 0x300
#define _CW_DEFAULT 0x0009001F
inline int _controlfp_s(unsigned*cur,unsigned nv,unsigned mask){ 
  unsigned m=_mm_getcsr();
  if(mask&_MCW_RC){ m=(m&~0x6000u); if((nv&_MCW_RC)==_RC_CHOP) m|=0x6000; }
  if(mask&_MCW_DN){ m&=~0x8040u; if((nv&_MCW_DN)==_DN_FLUSH) m|=0x8040; }
  _mm_setcsr(m);
  *cur = ((m&0x6000)==0x6000?_RC_CHOP:0) | ((m&0x8040)==0x8040?_DN_FLUSH:0);
  return 0; }
template<size_t N> inline int sprintf_s(char(&d)[N],const char*f,...){va_list a;va_start(a,f);int r=vsnprintf(d,N,f,a);va_end(a);if(r>=(int)N)abort();return r;}
inline int sprintf_s(char*d,size_t n,const char*f,...){va_list a;va_start(a,f);int r=vsnprintf(d,n,f,a);va_end(a);if(r>=(int)n)abort();return r;}
inline int printf_s(const char*f,...){va_list a;va_start(a,f);int r=vprintf(f,a);va_end(a);return r;}
inline int strcpy_s(char*d,size_t n,const char*s){ strncpy(d,s,n); d[n-1]=0; return 0;}
#define sscanf_s sscanf
inline int fopen_s(FILE**f,const char*n,const char*m){ *f=fopen(n,"rb"); return *f?0:1;}
inline size_t fread_s(void*p,size_t bs,size_t s,size_t c,FILE*f){return fread(p,s,c,f);}
#define _ftelli64 ftello
#define _fseeki64 fseeko
inline void*_aligned_malloc(size_t n,size_t a){return _mm_malloc(n,a);}
inline void _aligned_free(void*p){_mm_free(p);}

template<class T,class> struct sim_delay{typedef T type;};

#ifdef SIM_ASSERTS
namespace sim { [[noreturn]] void fail(const char*, const char*, ...); }
#define _DEBUG
#include <cmath>
using std::isnan;
#undef _ASSERTE
#define _ASSERTE(...) ((__VA_ARGS__) ? (void)0 : ::sim::fail("assert", "%s", #__VA_ARGS__))
#endif
