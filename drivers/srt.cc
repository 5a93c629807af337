// ordering and redistribution of particles
#include <cfloat>
#include <iostream>
#include "vf_out.h"
#include <mpi.h>
#include "default_physics.h"
#include "bodies_system.h"
#include "tree_colorer.h"
#include "vf_body.h"
#define X extern "C"
typedef body_system<double, gdimension> bsys;
X bool vf_less(body * a, body * b) { return *a < *b; }
X void vf_update(bsys * s) { s->update_iteration(); }
X void vf_qsort(tree_colorer<double, gdimension> * c, std::vector<body> * v, int n) { c->mpi_qsort(*v, n); }
X bool vf_lt(const body & a, const body & b);
struct vf_cmp { bool operator()(const body & a, const body & b) const { return vf_lt(a, b); } };
X void vf_psort(body * b, int n, int * dist, body * o, int * m) {
  std::vector<body> v(b, b + n);
  psort::psort(v, vf_cmp(), dist);
  *m = v.size();
  for(size_t i = 0; i < v.size(); ++i) o[i] = v[i];
}
typedef std::pair<key_type, int64_t> vf_split;
X unsigned long vf_split_size() { return sizeof(vf_split); }
X void vf_split_put(vf_split * s, unsigned long k, long i) { s->first = key_type(k); s->second = i; }
X bool vf_same(body * a, body * b) { return *a == *b; }
#define VF_KEY(n, T) \
  X unsigned vf_key_##n(unsigned long a, unsigned long b) { const T x(a), y(b); return (x < y) | (x <= y) << 1 | (x > y) << 2 | (x >= y) << 3 | (x == y) << 4 | (x != y) << 5; }
using vf_mo = flecsi::morton_curve_u<gdimension, uint64_t>;
using vf_mo32 = flecsi::morton_curve_u<gdimension, uint32_t>;
VF_KEY(morton, vf_mo)
VF_KEY(morton32, vf_mo32)
#if EXT_GDIMENSION > 1
using vf_hi = flecsi::hilbert_curve_u<gdimension, uint64_t>;
VF_KEY(hilbert, vf_hi)
#endif
X bsys * vf_new() { return new bsys; }
X void vf_set(bsys * s, body * b, int n) { s->getLocalbodies() = std::vector<body>(b, b + n); }
X void vf_range(bsys * s, double * o) { for(int j = 0; j < 2; ++j) for(size_t i = 0; i < gdimension; ++i) *o++ = s->tree()->range()[j][i]; }
X void vf_nop() { param::_periodic_boundary_x = param::_periodic_boundary_y = param::_periodic_boundary_z = false; }
X long vf_nlocal(bsys * s) { return s->getNLocalBodies(); }
X body * vf_ents(bsys * s) { return s->getLocalbodies().data(); }
X unsigned long vf_nents(bsys * s) { return s->getLocalbodies().size(); }
X void vf_periodic(bool x, bool y, bool z, double a, double b, double c) {
  param::_periodic_boundary_x = x;
  param::_periodic_boundary_y = y;
  param::_periodic_boundary_z = z;
  param::_box_length = a;
  param::_box_width = b;
  param::_box_height = c;
}
X void vf_images(bsys * s, double halo) { boundary::pboundary_generate(s->getLocalbodies(), halo); }
X void vf_noimages(bsys * s) { boundary::pboundary_clean(s->getLocalbodies()); }
X long vf_ntotal(bsys * s) { return s->getNBodies(); }
