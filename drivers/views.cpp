// Analysis driver for the array layer: every accessor, view and reshape of the
// library's own array types, instantiated on all layouts, directions and
// increment types.
#include <complex>
#include <cstdint>
#include <vector>
#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"
#include "tlapack/base/utils.hpp"
using namespace tlapack;
using idx = std::size_t;
using T = SCALAR;
using R2 = std::pair<idx, idx>;

template <class V> void use_vector(V& v, R2 r, idx n)
{
    const V& w = v;
    (void)size(v);
    v[n] = T(0);
    (void)w[n];
    auto a = slice(v, r);
    auto b = slice(w, r);
    (void)a[n];
    (void)b[n];
    (void)size(a);
    auto p = reshape(v, n);
    (void)p.first[n];
    auto q = reshape(v, n, n);
    (void)q.first(n, n);
    (void)q.second[n];
    (void)legacy_matrix(v);
    (void)legacy_vector(v);
}
template <class M> void use_matrix(M& A, R2 r, R2 c, idx n, int d)
{
    const M& B = A;
    (void)nrows(A);
    (void)ncols(A);
    (void)size(A);
    A(n, n) = T(0);
    (void)B(n, n);
    auto s1 = slice(A, r, c);
    auto s2 = slice(B, r, c);
    (void)s1(n, n); (void)s2(n, n);
    auto s3 = slice(A, n, c);
    auto s4 = slice(B, n, c);
    (void)s3[n]; (void)s4[n];
    auto s5 = slice(A, r, n);
    auto s6 = slice(B, r, n);
    (void)s5[n]; (void)s6[n];
    auto r1 = rows(A, r);
    auto r2 = rows(B, r);
    (void)r1(n, n); (void)r2(n, n);
    auto c1 = cols(A, c);
    auto c2 = cols(B, c);
    (void)c1(n, n); (void)c2(n, n);
    auto u1 = row(A, n);
    auto u2 = row(B, n);
    (void)u1[n]; (void)u2[n];
    auto v1 = col(A, n);
    auto v2 = col(B, n);
    (void)v1[n]; (void)v2[n];
    auto d1 = diag(A, d);
    auto d2 = diag(B, d);
    (void)d1[n]; (void)d2[n];
    auto t1 = transpose_view(A);
    auto t2 = transpose_view(B);
    (void)t1(n, n); (void)t2(n, n);
    auto p = reshape(A, n, n);
    (void)p.second(n, n);
    auto q = reshape(A, n);
    (void)q.first[n];
    (void)legacy_matrix(A);
}
template <class M> void make_matrix(idx m, idx n, T* p, std::vector<T>& w)
{
    M A(m, n, p);
    M B(m, n, p, n);
    auto C = Create<M>()(w, m, n);
    auto D = CreateStatic<M, 3, 2>()(p);
    (void)A(0, 0); (void)B(0, 0); (void)C(0, 0); (void)D(0, 0);
}
template <class V> void make_vector(idx n, T* p, std::vector<T>& w)
{
    V x(n, p);
    auto y = Create<V>()(w, n);
    auto z = CreateStatic<V, 3>()(p);
    (void)x[0]; (void)y[0]; (void)z[0];
}
using MC = LegacyMatrix<T, idx, Layout::ColMajor>;
using MR = LegacyMatrix<T, idx, Layout::RowMajor>;
using V1 = LegacyVector<T, idx>;
using VF = LegacyVector<T, idx, idx>;
using VI = LegacyVector<T, idx, std::int64_t>;
using W1 = LegacyVector<T, idx, tlapack::internal::StrongOne, Direction::Backward>;
using WF = LegacyVector<T, idx, idx, Direction::Backward>;
using WI = LegacyVector<T, idx, std::int64_t, Direction::Backward>;
void use(MC& a, MR& b, V1& v1, VF& vf, VI& vi, W1& w1, WF& wf, WI& wi,
         LegacyBandedMatrix<T>& g, R2 r, R2 c, idx n, int d, T* p, std::vector<T>& w, std::span<T>& sp)
{
    use_matrix(a, r, c, n, d);
    use_matrix(b, r, c, n, d);
    use_vector(v1, r, n); use_vector(vf, r, n); use_vector(vi, r, n);
    use_vector(w1, r, n); use_vector(wf, r, n); use_vector(wi, r, n);
    make_matrix<MC>(n, n, p, w); make_matrix<MR>(n, n, p, w);
    make_vector<V1>(n, p, w); make_vector<VF>(n, p, w); make_vector<VI>(n, p, w);
    make_vector<W1>(n, p, w); make_vector<WF>(n, p, w); make_vector<WI>(n, p, w);
    LegacyBandedMatrix<T> h(n, n, n, n, p);
    const LegacyBandedMatrix<T>& k = g;
    (void)nrows(g); (void)ncols(g); (void)lowerband(g); (void)upperband(g);
    g(n, n) = T(0);
    (void)k(n, n); (void)h(n, n);
    (void)size(w); (void)size(sp);
    (void)slice(w, r); (void)slice(sp, r);
}
