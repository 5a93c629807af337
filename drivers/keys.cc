// tree keys and space-filling curves
#include <array>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <string>
#include "tree_topology/filling_curve.h"
using namespace flecsi;
template<class K, size_t D>
K
enc(const double * lo, const double * hi, const double * p, size_t depth) {
  std::array<space_vector_u<double, D>, 2> r;
  space_vector_u<double, D> x;
  for(size_t i = 0; i < D; ++i) { r[0][i] = lo[i]; r[1][i] = hi[i]; x[i] = p[i]; }
  return K(r, x, depth);
}
template<class K, size_t D>
K
encf(const double * lo, const double * hi, const double * p) {
  std::array<space_vector_u<double, D>, 2> r;
  space_vector_u<double, D> x;
  for(size_t i = 0; i < D; ++i) { r[0][i] = lo[i]; r[1][i] = hi[i]; x[i] = p[i]; }
  return K(r, x);
}
template<class K, size_t D>
void
dec(const double * lo, const double * hi, K k, double * q) {
  std::array<space_vector_u<double, D>, 2> r;
  space_vector_u<double, D> x;
  for(size_t i = 0; i < D; ++i) { r[0][i] = lo[i]; r[1][i] = hi[i]; }
  k.coordinates(r, x);
  for(size_t i = 0; i < D; ++i) q[i] = x[i];
}
#define CURVE(N, C, D)                                                          \
  using N = C<D, uint64_t>;                                                    \
  extern "C" uint64_t vf_enc_##N(const double * lo, const double * hi, const double * p, size_t d) { return enc<N, D>(lo, hi, p, d).value(); } \
  extern "C" uint64_t vf_encf_##N(const double * lo, const double * hi, const double * p) { return encf<N, D>(lo, hi, p).value(); } \
  extern "C" void vf_dec_##N(const double * lo, const double * hi, uint64_t k, double * q) { dec<N, D>(lo, hi, N(k), q); } \
  extern "C" uint64_t vf_push_##N(uint64_t k, uint64_t b) { N x(k); x.push(b); return x.value(); } \
  extern "C" uint64_t vf_pop_##N(uint64_t k) { N x(k); x.pop(); return x.value(); } \
  extern "C" uint64_t vf_popd_##N(uint64_t k, size_t d) { N x(k); x.pop(d); return x.value(); } \
  extern "C" uint64_t vf_popv_##N(uint64_t k, int * d) { N x(k); *d = x.pop_value(); return x.value(); } \
  extern "C" uint64_t vf_last_##N(uint64_t k, int * d) { N x(k); *d = x.last_value(); return x.value(); } \
  extern "C" uint64_t vf_parent_##N(uint64_t k) { N x(k); return x.parent().value(); } \
  extern "C" uint64_t vf_trunc_##N(uint64_t k, size_t d) { N x(k); x.truncate(d); return x.value(); } \
  extern "C" size_t vf_depth_##N(uint64_t k) { N x(k); return x.depth(); }      \
  extern "C" size_t vf_maxd_##N() { return N::max_depth(); }                   \
  extern "C" uint64_t vf_min_##N() { return N::min().value(); }                \
  extern "C" uint64_t vf_max_##N() { return N::max().value(); }                \
  extern "C" uint64_t vf_root_##N() { return N::root().value(); }              \
  extern "C" uint64_t vf_null_##N() { return N::null().value(); }              \
  extern "C" uint64_t vf_def_##N() { return N().value(); }                     \
  extern "C" bool vf_isnull_##N(uint64_t k) { return N(k).is_null(); }         \
  extern "C" uint64_t vf_cast_##N(uint64_t k) { return static_cast<uint64_t>(N(k)); } \
  extern "C" uint64_t vf_copy_##N(uint64_t k) { N a(k), b(a), c; c = b; return c.value(); } \
  extern "C" int vf_confl_##N(uint64_t a, uint64_t b) { return N().conflict_depth(N(a), N(b)); } \
  extern "C" bool vf_eq_##N(uint64_t a, uint64_t b) { return N(a) == N(b); }   \
  extern "C" bool vf_ne_##N(uint64_t a, uint64_t b) { return N(a) != N(b); }   \
  extern "C" bool vf_lt_##N(uint64_t a, uint64_t b) { return N(a) < N(b); }    \
  extern "C" bool vf_le_##N(uint64_t a, uint64_t b) { return N(a) <= N(b); }   \
  extern "C" bool vf_gt_##N(uint64_t a, uint64_t b) { return N(a) > N(b); }    \
  extern "C" bool vf_ge_##N(uint64_t a, uint64_t b) { return N(a) >= N(b); }
CURVE(m1, morton_curve_u, 1)
CURVE(m2, morton_curve_u, 2)
CURVE(m3, morton_curve_u, 3)
CURVE(h1, hilbert_curve_u, 1)
CURVE(h2, hilbert_curve_u, 2)
CURVE(h3, hilbert_curve_u, 3)
#define RANGE(N, D)                                                            \
  extern "C" void vf_range_##N(const double * lo, const double * hi, uint64_t k, double * out) { \
    std::array<space_vector_u<double, D>, 2> r;                                \
    for(size_t i = 0; i < D; ++i) { r[0][i] = lo[i]; r[1][i] = hi[i]; }        \
    auto q = N(k).range(r);                                                    \
    for(size_t i = 0; i < D; ++i) { out[i] = q[0][i]; out[D + i] = q[1][i]; }  \
  }
RANGE(m1, 1)
RANGE(m2, 2)
RANGE(m3, 3)
