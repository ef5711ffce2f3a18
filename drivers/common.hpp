// Common prologue of the analysis drivers.  SCALAR and LAYOUT come from -D.
#include <complex>
#include <cstdint>
#include <vector>
#ifdef ARCH
    // the library type-checked against the documented concepts only
    #include "archetype.hpp"
#else
    #include "tlapack/plugins/legacyArray.hpp"
#endif
#include "tlapack/plugins/stdvector.hpp"
#include "all_headers.inc"
using namespace tlapack;
#ifdef ARCH
using idx_t = arch::idx;
#else
using idx_t = std::size_t;
#endif
using T = SCALAR;
using R = real_type<T>;
using CT = complex_type<T>;
#ifdef ARCH
using M_t = arch::Mat<T, 0>;
using RM_t = arch::Mat<R, 0>;
using V_t = arch::Vec<T, 0>;
using RV_t = arch::Vec<R, 0>;
using CV_t = arch::Vec<CT, 0>;
using IV_t = arch::Vec<idx_t, 0>;
using BV_t = arch::Vec<bool, 0>;
using SV_t = arch::Vec<int, 0>;
#else
using M_t = LegacyMatrix<T, idx_t, Layout::LAYOUT>;
using RM_t = LegacyMatrix<R, idx_t, Layout::LAYOUT>;
using V_t = LegacyVector<T, idx_t, idx_t>;
using RV_t = LegacyVector<R, idx_t, idx_t>;
using CV_t = LegacyVector<CT, idx_t, idx_t>;
using IV_t = LegacyVector<idx_t, idx_t, idx_t>;
using BV_t = LegacyVector<bool, idx_t, idx_t>;
using SV_t = LegacyVector<int, idx_t, idx_t>;
#endif
