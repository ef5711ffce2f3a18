// Minimal models of the documented concepts (base/concepts.hpp): a matrix and
// vector family and a real scalar that offer what the documentation names and
// nothing else.  They live in a namespace of their own, so a routine that
// reaches into one plugin's members, names one plugin's types, or forgets to
// find slice/rows/cols in the argument's namespace does not type-check.
#ifndef ARCH_HPP
#define ARCH_HPP
#include <complex>
#include <cstddef>
#include <limits>
#include <utility>
#include <vector>
#include "tlapack/base/arrayTraits.hpp"
#include "tlapack/base/types.hpp"

namespace arch {

#ifndef ARCH_IDX
    #define ARCH_IDX std::size_t
#endif
using idx = ARCH_IDX;

// K distinguishes the view types: 0 owning-like, 1 sub-block, 2 transposed,
// 3 row, 4 column, 5 diagonal -- no two kinds are interchangeable.
template <class T, int K>
class Mat;
template <class T, int K>
class Vec;
struct Access;

template <class T, int K>
class Vec {
    friend struct Access;
    T* p_;
    idx n_, s_;
    struct Key {};
    Vec(Key, T* p, idx n, idx s) : p_(p), n_(n), s_(s) {}

   public:
    Vec(const Vec&) = default;
    Vec& operator=(const Vec&) = delete;
    T& operator[](idx i) const { return p_[i * s_]; }
};

template <class T, int K>
class Mat {
    friend struct Access;
    T* p_;
    idx m_, n_, rs_, cs_;
    struct Key {};
    Mat(Key, T* p, idx m, idx n, idx rs, idx cs)
        : p_(p), m_(m), n_(n), rs_(rs), cs_(cs)
    {}

   public:
    Mat(const Mat&) = default;
    Mat& operator=(const Mat&) = delete;
    T& operator()(idx i, idx j) const { return p_[i * rs_ + j * cs_]; }
};

struct Access {
    template <class T, int K>
    static Vec<T, K> vec(T* p, idx n, idx s)
    {
        return Vec<T, K>(typename Vec<T, K>::Key(), p, n, s);
    }
    template <class T, int K>
    static Mat<T, K> mat(T* p, idx m, idx n, idx rs, idx cs)
    {
        return Mat<T, K>(typename Mat<T, K>::Key(), p, m, n, rs, cs);
    }
    template <class A>
    static auto* p(const A& a)
    {
        return a.p_;
    }
    template <class A>
    static idx m(const A& a)
    {
        return a.m_;
    }
    template <class A>
    static idx n(const A& a)
    {
        return a.n_;
    }
    template <class A>
    static idx s(const A& a)
    {
        return a.s_;
    }
    template <class A>
    static idx rs(const A& a)
    {
        return a.rs_;
    }
    template <class A>
    static idx cs(const A& a)
    {
        return a.cs_;
    }
};

template <class T, int K>
idx nrows(const Mat<T, K>& A)
{
    return Access::m(A);
}
template <class T, int K>
idx ncols(const Mat<T, K>& A)
{
    return Access::n(A);
}
template <class T, int K>
idx size(const Mat<T, K>& A)
{
    return Access::m(A) * Access::n(A);
}
template <class T, int K>
idx size(const Vec<T, K>& x)
{
    return Access::n(x);
}

constexpr int sub(int k) { return k == 2 ? 2 : 1; }
constexpr int tr(int k) { return k == 2 ? 1 : 2; }

// the const and the non-const form of every view function
#define ARCH_VIEWS(CONST)                                                      \
    template <class T, int K, class A, class B, class C, class D>              \
    Mat<CONST T, sub(K)> slice(CONST Mat<T, K>& M, std::pair<A, B> r,          \
                               std::pair<C, D> c)                              \
    {                                                                          \
        return Access::mat<CONST T, sub(K)>(                                   \
            Access::p(M) + r.first * Access::rs(M) + c.first * Access::cs(M),  \
            r.second - r.first, c.second - c.first, Access::rs(M),             \
            Access::cs(M));                                                    \
    }                                                                          \
    template <class T, int K, class A, class B>                                \
    Vec<CONST T, 3> slice(CONST Mat<T, K>& M, idx i, std::pair<A, B> c)        \
    {                                                                          \
        return Access::vec<CONST T, 3>(                                        \
            Access::p(M) + i * Access::rs(M) + c.first * Access::cs(M),        \
            c.second - c.first, Access::cs(M));                                \
    }                                                                          \
    template <class T, int K, class A, class B>                                \
    Vec<CONST T, 4> slice(CONST Mat<T, K>& M, std::pair<A, B> r, idx j)        \
    {                                                                          \
        return Access::vec<CONST T, 4>(                                        \
            Access::p(M) + r.first * Access::rs(M) + j * Access::cs(M),        \
            r.second - r.first, Access::rs(M));                                \
    }                                                                          \
    template <class T, int K, class A, class B>                                \
    Mat<CONST T, sub(K)> rows(CONST Mat<T, K>& M, std::pair<A, B> r)           \
    {                                                                          \
        return Access::mat<CONST T, sub(K)>(                                   \
            Access::p(M) + r.first * Access::rs(M), r.second - r.first,        \
            Access::n(M), Access::rs(M), Access::cs(M));                       \
    }                                                                          \
    template <class T, int K, class A, class B>                                \
    Mat<CONST T, sub(K)> cols(CONST Mat<T, K>& M, std::pair<A, B> c)           \
    {                                                                          \
        return Access::mat<CONST T, sub(K)>(                                   \
            Access::p(M) + c.first * Access::cs(M), Access::m(M),              \
            c.second - c.first, Access::rs(M), Access::cs(M));                 \
    }                                                                          \
    template <class T, int K>                                                  \
    Vec<CONST T, 3> row(CONST Mat<T, K>& M, idx i)                             \
    {                                                                          \
        return Access::vec<CONST T, 3>(Access::p(M) + i * Access::rs(M),       \
                                       Access::n(M), Access::cs(M));           \
    }                                                                          \
    template <class T, int K>                                                  \
    Vec<CONST T, 4> col(CONST Mat<T, K>& M, idx j)                             \
    {                                                                          \
        return Access::vec<CONST T, 4>(Access::p(M) + j * Access::cs(M),       \
                                       Access::m(M), Access::rs(M));           \
    }                                                                          \
    template <class T, int K>                                                  \
    Vec<CONST T, 5> diag(CONST Mat<T, K>& M, int = 0)                          \
    {                                                                          \
        return Access::vec<CONST T, 5>(Access::p(M), Access::n(M),             \
                                       Access::rs(M) + Access::cs(M));         \
    }                                                                          \
    template <class T, int K>                                                  \
    Mat<CONST T, tr(K)> transpose_view(CONST Mat<T, K>& M)                     \
    {                                                                          \
        return Access::mat<CONST T, tr(K)>(Access::p(M), Access::n(M),         \
                                           Access::m(M), Access::cs(M),        \
                                           Access::rs(M));                     \
    }                                                                          \
    template <class T, int K, class A, class B>                                \
    Vec<CONST T, K> slice(CONST Vec<T, K>& x, std::pair<A, B> r)               \
    {                                                                          \
        return Access::vec<CONST T, K>(Access::p(x) + r.first * Access::s(x),  \
                                       r.second - r.first, Access::s(x));      \
    }
ARCH_VIEWS(const)
ARCH_VIEWS()
#undef ARCH_VIEWS

// workspace matrices and vectors
template <class T, int K>
std::pair<Mat<T, 1>, Mat<T, 1>> reshape(Mat<T, K>& W, idx m, idx n)
{
    return {Access::mat<T, 1>(Access::p(W), m, n, 1, m),
            Access::mat<T, 1>(Access::p(W) + m * n, size(W) - m * n, 1, 1, 1)};
}
template <class T, int K>
std::pair<Vec<T, 0>, Mat<T, 1>> reshape(Mat<T, K>& W, idx n)
{
    return {Access::vec<T, 0>(Access::p(W), n, 1),
            Access::mat<T, 1>(Access::p(W) + n, size(W) - n, 1, 1, 1)};
}
template <class T, int K>
std::pair<Mat<T, 1>, Vec<T, 0>> reshape(Vec<T, K>& W, idx m, idx n)
{
    return {Access::mat<T, 1>(Access::p(W), m, n, 1, m),
            Access::vec<T, 0>(Access::p(W) + m * n, size(W) - m * n, 1)};
}
template <class T, int K>
std::pair<Vec<T, 0>, Vec<T, 0>> reshape(Vec<T, K>& W, idx n)
{
    return {Access::vec<T, 0>(Access::p(W), n, 1),
            Access::vec<T, 0>(Access::p(W) + n, size(W) - n, 1)};
}

template <class X>
struct is_arch {
    static constexpr bool value = false;
};
template <class T, int K>
struct is_arch<Mat<T, K>> {
    static constexpr bool value = true;
};
template <class T, int K>
struct is_arch<Vec<T, K>> {
    static constexpr bool value = true;
};
template <class T, int K>
struct is_arch<const Mat<T, K>> {
    static constexpr bool value = true;
};
template <class T, int K>
struct is_arch<const Vec<T, K>> {
    static constexpr bool value = true;
};

// -------------------------------------------------------------------------
// A real scalar: ordered, arithmetic, constructible from integers and
// floating-point numbers; no conversion back.
class Real {
    double v_;

   public:
    Real() : v_(0) {}
    Real(int x) : v_(x) {}
    Real(unsigned x) : v_(x) {}
    Real(long x) : v_(double(x)) {}
    Real(unsigned long x) : v_(double(x)) {}
    Real(float x) : v_(x) {}
    Real(double x) : v_(x) {}
    Real(long double x) : v_(double(x)) {}
    Real(const Real&) = default;
    Real& operator=(const Real&) = default;
    Real& operator+=(const Real& o) { v_ += o.v_; return *this; }
    Real& operator-=(const Real& o) { v_ -= o.v_; return *this; }
    Real& operator*=(const Real& o) { v_ *= o.v_; return *this; }
    Real& operator/=(const Real& o) { v_ /= o.v_; return *this; }
    friend Real operator+(const Real& a, const Real& b) { return Real(a.v_ + b.v_); }
    friend Real operator-(const Real& a, const Real& b) { return Real(a.v_ - b.v_); }
    friend Real operator*(const Real& a, const Real& b) { return Real(a.v_ * b.v_); }
    friend Real operator/(const Real& a, const Real& b) { return Real(a.v_ / b.v_); }
    friend Real operator-(const Real& a) { return Real(-a.v_); }
    friend Real operator+(const Real& a) { return a; }
    friend bool operator==(const Real& a, const Real& b) { return a.v_ == b.v_; }
    friend bool operator!=(const Real& a, const Real& b) { return a.v_ != b.v_; }
    friend bool operator<(const Real& a, const Real& b) { return a.v_ < b.v_; }
    friend bool operator>(const Real& a, const Real& b) { return a.v_ > b.v_; }
    friend bool operator<=(const Real& a, const Real& b) { return a.v_ <= b.v_; }
    friend bool operator>=(const Real& a, const Real& b) { return a.v_ >= b.v_; }
    friend bool isinf(const Real& a) { return __builtin_isinf(a.v_); }
    friend bool isnan(const Real& a) { return __builtin_isnan(a.v_); }
    friend Real abs(const Real& a) { return Real(__builtin_fabs(a.v_)); }
    friend Real sqrt(const Real& a) { return Real(__builtin_sqrt(a.v_)); }
    friend Real pow(int b, const Real& a) { return Real(__builtin_pow(b, a.v_)); }
    friend Real log2(const Real& a) { return Real(__builtin_log2(a.v_)); }
    friend Real ceil(const Real& a) { return Real(__builtin_ceil(a.v_)); }
    friend Real floor(const Real& a) { return Real(__builtin_floor(a.v_)); }
    friend Real min(const Real& a, const Real& b) { return b < a ? b : a; }
    friend Real max(const Real& a, const Real& b) { return a < b ? b : a; }
#ifdef ARCH_REAL_EXTRA
    ARCH_REAL_EXTRA
#endif
};
}  // namespace arch

template <>
class std::numeric_limits<arch::Real> {
   public:
    static constexpr bool is_specialized = true;
    static constexpr bool is_signed = true;
    static constexpr bool is_integer = false;
    static constexpr bool is_exact = false;
    static constexpr bool has_infinity = true;
    static constexpr bool has_quiet_NaN = true;
    static constexpr bool has_signaling_NaN = false;
    static constexpr bool is_iec559 = false;
    static constexpr bool is_bounded = true;
    static constexpr bool is_modulo = false;
    static constexpr int digits = 53;
    static constexpr int digits10 = 15;
    static constexpr int max_digits10 = 17;
    static constexpr int radix = 2;
    static constexpr int min_exponent = -1021;
    static constexpr int min_exponent10 = -307;
    static constexpr int max_exponent = 1024;
    static constexpr int max_exponent10 = 308;
    static arch::Real min() { return arch::Real(0x1p-1022); }
    static arch::Real max() { return arch::Real(0x1p1023); }
    static arch::Real lowest() { return arch::Real(-0x1p1023); }
    static arch::Real epsilon() { return arch::Real(0x1p-52); }
    static arch::Real round_error() { return arch::Real(0.5); }
    static arch::Real infinity() { return arch::Real(__builtin_inf()); }
    static arch::Real quiet_NaN() { return arch::Real(__builtin_nan("")); }
    static arch::Real signaling_NaN() { return arch::Real(__builtin_nan("")); }
    static arch::Real denorm_min() { return arch::Real(0x1p-1074); }
};

namespace tlapack {
namespace traits {
    template <>
    struct real_type_traits<arch::Real, int> {
        using type = arch::Real;
        constexpr static bool is_real = true;
    };
    template <>
    struct complex_type_traits<arch::Real, int> {
        using type = std::complex<arch::Real>;
        constexpr static bool is_complex = false;
    };

    template <class U, int K>
    struct CreateFunctor<arch::Mat<U, K>, int> {
        template <class T>
        auto operator()(std::vector<T>& v, arch::idx m, arch::idx n) const
        {
            v.resize(m * n);
            return arch::Access::mat<T, 0>(v.data(), m, n, 1, m);
        }
    };
    template <class U, int K>
    struct CreateFunctor<arch::Vec<U, K>, int> {
        template <class T>
        auto operator()(std::vector<T>& v, arch::idx n) const
        {
            v.resize(n);
            return arch::Access::vec<T, 0>(v.data(), n, 1);
        }
    };
    template <class U, int K, int m, int n>
    struct CreateStaticFunctor<arch::Mat<U, K>, m, n, int> {
        template <class T>
        auto operator()(T* v) const
        {
            return arch::Access::mat<T, 0>(v, m, n, 1, m);
        }
    };
    template <class U, int K, int n>
    struct CreateStaticFunctor<arch::Vec<U, K>, n, -1, int> {
        template <class T>
        auto operator()(T* v) const
        {
            return arch::Access::vec<T, 0>(v, n, 1);
        }
    };
    template <class A, class B>
    struct matrix_type_traits<
        A, B, std::enable_if_t<arch::is_arch<A>::value && arch::is_arch<B>::value, int>> {
        using type = arch::Mat<scalar_type<type_t<A>, type_t<B>>, 0>;
    };
    template <class A, class B>
    struct vector_type_traits<
        A, B, std::enable_if_t<arch::is_arch<A>::value && arch::is_arch<B>::value, int>> {
        using type = arch::Vec<scalar_type<type_t<A>, type_t<B>>, 0>;
    };
    template <class T, int K>
    struct real_type_traits<arch::Mat<T, K>, int> {
        using type = arch::Mat<real_type<T>, 0>;
    };
    template <class T, int K>
    struct real_type_traits<arch::Vec<T, K>, int> {
        using type = arch::Vec<real_type<T>, 0>;
    };
    template <class T, int K>
    struct complex_type_traits<arch::Mat<T, K>, int> {
        using type = arch::Mat<complex_type<T>, 0>;
    };
    template <class T, int K>
    struct complex_type_traits<arch::Vec<T, K>, int> {
        using type = arch::Vec<complex_type<T>, 0>;
    };
}  // namespace traits
}  // namespace tlapack
#endif
