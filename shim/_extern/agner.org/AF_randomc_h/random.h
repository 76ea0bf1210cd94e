#pragma once
#include <cstdint>
namespace AFog { 
static constexpr int GEN_ERROR=0x80000000;
struct Base { uint64_t s; Base(int x):s(x){} void RandomInit(int x){s=x;} void RandomInitByArray(int const*a,int n){s=0;for(int i=0;i<n;i++)s=s*31+a[i];}
 uint32_t BRandom(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (uint32_t)(z>>32);}
 double Random(){return BRandom()*(1./4294967296.);} int IRandomX(int a,int b){return a+ (int)(BRandom()%(uint32_t)(b-a+1));} int IRandom(int a,int b){return IRandomX(a,b);} 
 template<typename T> T FPRandom(){return (T)Random();} };
struct CRandomMersenne:Base{using Base::Base;}; struct CRandomSFMT0:Base{using Base::Base;}; struct CRandomSFMT1:Base{using Base::Base;};
template<class T> struct has_FRandom: std::false_type{}; }
