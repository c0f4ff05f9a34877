// Stand-in for lib/SIMD/SIMDConvert.cpp, which needs libsimdpp (absent here): one scalar cast per element.
#pragma once
#include <complex>
#include <cstddef>
namespace sx { template <typename O> struct Cast { template <typename I> static O f(const I &x) { return static_cast<O>(x); } };
template <typename O> struct Cast<std::complex<O>> { template <typename I> static std::complex<O> f(const std::complex<I> &x) { return std::complex<O>(static_cast<O>(x.real()), static_cast<O>(x.imag())); } template <typename I> static std::complex<O> f(const I &x) { return std::complex<O>(static_cast<O>(x)); } }; }
template <typename InType, typename OutType> void simdConvertBuffer(const void *in, void *out, size_t n) { const InType *i = (const InType *)in; OutType *o = (OutType *)out; for (size_t k = 0; k < n; k++) o[k] = sx::Cast<OutType>::f(i[k]); }
