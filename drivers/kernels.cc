// kernels as the rest of the code reaches them (through the selector) and directly
#include "kernels.h"
extern "C" void vf_setk(int k) { param::_sph_kernel = (param::sph_kernel_keyword)k; }
extern "C" void vf_select() { kernels::select(); }
extern "C" double vf_W(double r, double h) { return kernels::sph_kernel_function(r, h); }
extern "C" void vf_dW(const double * p, double h, double * out) {
  point_t v;
  for(size_t i = 0; i < gdimension; ++i) v[i] = p[i];
  point_t g = kernels::sph_kernel_gradient(v, h);
  for(size_t i = 0; i < gdimension; ++i) out[i] = g[i];
}
#define K(X) case param::X: return kernels::kernel<param::X, gdimension>(r, h);
extern "C" double vf_Wk(int k, double r, double h) {
  switch(k) {
    K(cubic_spline) K(quintic_spline) K(wendland_c2) K(wendland_c4) K(wendland_c6)
    K(gaussian) K(super_gaussian) K(sinc_ker)
    default: return -1;
  }
}
#define N(X) extern "C" int vf_id_##X() { return param::X; }
N(cubic_spline) N(quintic_spline) N(wendland_c2) N(wendland_c4) N(wendland_c6)
N(gaussian) N(super_gaussian) N(sinc_ker)
