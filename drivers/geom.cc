// geometric predicates of the tree
#include <limits>
#include "tree_topology/tree_geometry.h"
using namespace flecsi;
#ifndef EXT_GDIMENSION
#error dimension
#endif
constexpr size_t D = EXT_GDIMENSION;
using pt = space_vector_u<double, D>;
using G = topology::tree_geometry<double, D>;
static pt P(const double * p) { pt v; for(size_t i = 0; i < D; ++i) v[i] = p[i]; return v; }
#define C const double *
extern "C" double vf_d2(C a, C b) { return G::distance2(P(a), P(b)); }
extern "C" bool vf_wd2(C a, C b, double r) { return G::within_distance2(P(a), P(b), r); }
extern "C" bool vf_within(C a, C b, double r, double s) { return G::within(P(a), P(b), r, s); }
extern "C" bool vf_within1(C a, C b, double r) { return G::within(P(a), P(b), r); }
extern "C" bool vf_wsq(C a, C b, double r, double s) { return G::within_square(P(a), P(b), r, s); }
extern "C" bool vf_wbox(C lo, C hi, C p, double r) { return G::within_box(P(lo), P(hi), P(p), r); }
extern "C" bool vf_ss(C a, double r, C b, double s) { return G::intersects_sphere_sphere(P(a), r, P(b), s); }
extern "C" bool vf_sb(C lo, C hi, C c, double r) { return G::intersects_sphere_box(P(lo), P(hi), P(c), r); }
extern "C" bool vf_bb(C a, C b, C c, C d) { return G::intersects_box_box(P(a), P(b), P(c), P(d)); }
extern "C" bool vf_mac(C a, double r, C b, double s, double t) { return G::mac(P(a), r, P(b), s, t); }
extern "C" bool vf_bmac(C a, C b, C lo, C hi, double t) { return G::box_MAC(P(a), P(b), P(lo), P(hi), t); }
