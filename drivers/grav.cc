// gravity between particles and tree nodes
#include <cfloat>
#include <iostream>
#include <mpi.h>
#include "default_physics.h"
#include "vf_body.h"
#define X extern "C"
static point_t pt(const double * x) { point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]; return p; }
X double vf_gc() { return fmm::gc; }
X double vf_p2p(double * pot, const double * a, const double * b, double m, double * acc) {
  point_t r = fmm::gravitation_p2p(*pot, pt(a), pt(b), m);
  for(size_t i = 0; i < gdimension; ++i) acc[i] = r[i];
  return *pot;
}
X unsigned long vf_node_size() { return sizeof(node); }
// s: centre, mass, potential, field
X void vf_node_put(node * c, const double * s) {
  new(c) node(key_type(1));
  c->set_coordinates(pt(s)); s += gdimension;
  c->set_mass(*s++);
  c->pc() = *s++;
  for(size_t i = 0; i < gdimension; ++i) c->fc()[i] = s[i];
}
X void vf_node_get(node * c, double * o) {
  for(size_t i = 0; i < gdimension; ++i) *o++ = c->coordinates()[i];
  *o++ = c->mass();
  *o++ = c->pc();
  for(size_t i = 0; i < gdimension; ++i) *o++ = c->fc()[i];
}
X void vf_c2c(node * c, node * s) { fmm::taylor_c2c(c, s); }
X void vf_p2c(node * c, body * s) { fmm::taylor_p2c(c, s); }
X void vf_c2p(node * c, body ** b, int n) { std::vector<body *> v(b, b + n); fmm::fmm_c2p(c, v); }
X void vf_pp(body ** a, int n, node * c, body ** b, int k) { std::vector<body *> v(a, a + n), w(b, b + k); fmm::fmm_p2p(v, c, w); }
