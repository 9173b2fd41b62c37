#pragma once
namespace AFog {
 static constexpr int GEN_ERROR = (int)0x80000000;
 template<class T> struct has_FRandom : std::false_type{};
#define NNV_DEF(N) class N { public: N(int seed); N(); void RandomInit(int seed) noexcept; void RandomInitByArray(const int*, int)noexcept; int IRandom(int,int)noexcept; int IRandomX(int,int)noexcept; double Random()noexcept; float FRandom()noexcept; uint32_t BRandom()noexcept; template<typename T> T FPRandom()noexcept; };
NNV_DEF(CRandomMersenne) NNV_DEF(CRandomSFMT0) NNV_DEF(CRandomSFMT1)
 template<> struct has_FRandom<CRandomSFMT0>: std::true_type{};
 template<> struct has_FRandom<CRandomSFMT1>: std::true_type{};
}
