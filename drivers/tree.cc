// the distributed tree
#include <cfloat>
#include <iostream>
#include "vf_out.h"
#include <mpi.h>
#include "default_physics.h"
#include "tree.h"
#include "vf_body.h"
#define X extern "C"
typedef tree_topology_t T;
typedef key_type K;
// the analysis tells what a cell made of these parts is like
X void vfm_cofm(node * c, unsigned long key, body ** e, int n, node ** s, int m);
X void vfm_found(body * k, body ** e, int n);
static void vf_combine(node * c, std::vector<body *> e, std::vector<node *> s) {
  vfm_cofm(c, (unsigned long)c->key().value(), e.data(), e.size(), s.data(), s.size());
}
X unsigned long vf_node_size() { return sizeof(node); }
// s: centre, box, mass, radius, margin
X void vf_node_put(node * c, const double * s, int sub) {
  point_t x, lo, hi;
  for(size_t i = 0; i < gdimension; ++i) {
    x[i] = s[i];
    lo[i] = s[gdimension + i];
    hi[i] = s[2 * gdimension + i];
  }
  s += 3 * gdimension;
  c->set_coordinates(x);
  c->set_bmin(lo);
  c->set_bmax(hi);
  c->set_mass(s[0]);
  c->set_radius(s[1]);
  c->set_lap(s[2]);
  c->set_sub_entities(sub);
}
X void vf_node_take(node * c, double * s) {
  for(size_t i = 0; i < gdimension; ++i) {
    s[i] = c->coordinates()[i];
    s[gdimension + i] = c->bmin()[i];
    s[2 * gdimension + i] = c->bmax()[i];
  }
  s += 3 * gdimension;
  s[0] = c->radius();
  s[1] = c->lap();
}
X double vf_node_mass(node * c) { return c->mass(); }
X int vf_node_sub(node * c) { return c->sub_entities(); }
X unsigned long vf_node_key(node * c) { return c->key().value(); }
X double vf_mass(body * b) { return b->mass(); }
X unsigned long vf_id(body * b) { return b->id(); }
X unsigned long vf_bkey(body * b) { return b->key().value(); }
X double vf_h(body * b) { return b->radius(); }
X T * vf_new() { return new T; }
X void vf_set(T * t, body * b, int n) { t->entities() = std::vector<body>(b, b + n); }
X body * vf_ents(T * t) { return t->entities().data(); }
X void vf_build(T * t) { t->build_tree(vf_combine); }
X void vf_reset(T * t) { t->reset_ghosts(vf_combine); }
X T::hcell_t * vf_root(T * t) { return t->root(); }
X int vf_isnode(T::hcell_t * c) { return c->is_unset() ? 2 : c->is_node() ? 1 : 0; }
X unsigned long vf_key(T::hcell_t * c) { return c->key().value(); }
X int vf_owner(T::hcell_t * c) { return c->owner(); }
X int vf_shared(T::hcell_t * c) { return c->is_shared(); }
X int vf_empty(T::hcell_t * c) { return c->is_empty_node(); }
X node * vf_node(T * t, T::hcell_t * c) { return t->get_node(c); }
X body * vf_ent(T * t, T::hcell_t * c) { return t->get_entity(c); }
// every cell that can be reached from the root
X int vf_cells(T * t, T::hcell_t ** o) {
  int n = 0;
  t->traversal(t->root(), [&](T::hcell_t * c) {
    if(o) o[n] = c;
    ++n;
    return true;
  });
  return n;
}
// the number of particles a group of cells has at most, where it can be chosen
template<class Q> static auto groups_(Q * t, int n, int) -> decltype(const_cast<int &>(t->sub_entities_), void()) {
  const_cast<int &>(t->sub_entities_) = n;
}
template<class Q> static void groups_(Q *, int, long) {}
X void vf_groups(T * t, int n) { groups_(t, n, 0); }
X void vf_neighbours(T * t) {
  t->traversal_sph([](body & k, std::vector<body *> & e) { vfm_found(&k, e.data(), e.size()); });
}
X void vf_around(T * t, const double * c, double r) {
  point_t x;
  for(size_t i = 0; i < gdimension; ++i)
    x[i] = c[i];
  std::vector<body *> e = t->find_in_radius(x, r, 0);
  vfm_found(nullptr, e.data(), e.size());
}
// gravity: what acts on what
X void vfm_c2c(node * a, node * b);
X void vfm_p2c(node * a, body * b);
X void vfm_p2p(body ** e, int n, const node * b, body ** q, int m);
X void vfm_c2p(const node * a, body ** e, int n);
static void c2c(node * a, node * b) { vfm_c2c(a, b); }
static void p2c(node * a, body * b) { vfm_p2c(a, b); }
static void p2p(std::vector<body *> & e, const node * b, const std::vector<body *> & q) {
  vfm_p2p(e.data(), e.size(), b, const_cast<body **>(q.data()), q.size());
}
static void c2p(const node * a, std::vector<body *> & e) { vfm_c2p(a, e.data(), e.size()); }
X void vf_gravity(T * t, double angle) { t->traversal_fmm(angle, c2c, p2c, p2p, c2p); }
