// relaxation by weighted Voronoi tessellation
#include <cfloat>
#include <cmath>
#include <cstring>
#include <iostream>
#include <mpi.h>
#include "analysis.h"
#include "bodies_system.h"
#include "default_physics.h"
#include "diagnostic.h"
#include "wvt.h"
#include "vf_body.h"
#define X extern "C"
#define IN(p, x) point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]
#define OUT(p, o) for(size_t i = 0; i < gdimension; ++i) o[i] = p[i]
X double vfm_W(double, double);
X double vfm_rho(double);
static double vW(const double & r, const double & h) { return vfm_W(r, h); }
X void vf_kernel() { kernels::sph_kernel_function = vW; }
X void vf_profile() { density_profiles::spherical_density_profile = vfm_rho; }
X void vf_mode(const char * method, const char * edge) {
  strcpy(param::_wvt_method, method);
  strcpy(param::_wvt_boundary, edge);
  wvt::select();
}
X void vf_radius(double r, double s) { param::_wvt_radius = r; param::_sphere_radius = s; }
X void vf_step(double mu, long it, long last, int cool, bool byngb) {
  param::_wvt_mu = mu;
  physics::iteration = it;
  param::_final_iteration = last;
  param::_wvt_cool_down = cool;
  param::_wvt_h_ngb = byngb;
}
// the inverse may have to be told the side in one dimension
template<class F> static auto back_(F f, const point_t & s, double side, int) -> decltype(f(s, side)) { return f(s, side); }
template<class F> static auto back_(F f, const point_t & s, double, long) -> decltype(f(s)) { return f(s); }
static auto inverse_ = [](auto &&... a) -> decltype(wvt::spherical_to_cartesian(a...)) { return wvt::spherical_to_cartesian(a...); };
X void vf_polar(const double * x, double * o) { IN(p, x); point_t q = wvt::cartesian_to_spherical(p); OUT(q, o); }
X void vf_cart(const double * s, double side, double * o) { IN(p, s); point_t q = back_(inverse_, p, side, 0); OUT(q, o); }
X void vf_tangent(const double * x, const double * a, double * o) { IN(p, x); IN(c, a); point_t q = wvt::remove_radial_acc(p, c); OUT(q, o); }
X void vf_move(body * b) { wvt::wvt_displacement(*b); }
X void vf_setrho(body * b) { wvt::wvt_set_density(*b); }
X void vf_push(body * b, body ** nb, int n) { std::vector<body *> v(nb, nb + n); wvt::wvt_acceleration(*b, v); }
X void vf_rho(body * b, body ** nb, int n) { std::vector<body *> v(nb, nb + n); wvt::compute_density(*b, v); }
X void vf_rescale(body * b, int n) { std::vector<body> v(b, b + n); wvt::compute_smoothinglength_wvt(v); for(int i = 0; i < n; ++i) b[i] = v[i]; }
X bool vf_converged(body * b, int n, double mu, double ngb, double point) {
  param::_wvt_mu = mu;
  param::_wvt_ngb = ngb;
  param::_wvt_convergence_point = point;
  wvt_basic::wvt_converged = false;
  std::vector<body> v(b, b + n);
  wvt::check_convergence_wvt(v);
  return wvt_basic::wvt_converged;
}
