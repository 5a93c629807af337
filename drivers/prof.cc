// radial density profiles
#include <cmath>
#include <iostream>
#include <mpi.h>
#include "density_profiles.h"
#define X extern "C"
X void vf_select(const char * s) {
  int i = 0;
  do param::_density_profile[i] = s[i]; while(s[i++]);
  density_profiles::select();
}
X double vf_q() { return param::mesa_rim_width; }
X double vf_rho(double r) { return density_profiles::spherical_density_profile(r); }
X double vf_mass(double r) { return density_profiles::spherical_mass_profile(r); }
X double vf_drho(double r) { return density_profiles::spherical_drho_dr(r); }
X int vf_index(double x, const double * g, int n) { std::vector<double> v(g, g + n); return density_profiles::get_interval_index(x, v); }
X double vf_cubic(double x, const double * g, const double * y, int n) { std::vector<double> v(g, g + n), w(y, y + n); return density_profiles::cubic_interp(x, v, w); }
X void vf_table(const double * r, const double * a, const double * b, const double * c, int n) {
  using namespace density_profiles;
  rad_grid = std::vector<double>(r, r + n); rho_grid = std::vector<double>(a, a + n); mass_grid = std::vector<double>(b, b + n); drhodr_grid = std::vector<double>(c, c + n);
}
X double vf_trho(double r) { return density_profiles::rho_from_input_file(r); }
X double vf_tmass(double r) { return density_profiles::mass_from_input_file(r); }
X double vf_tdrho(double r) { return density_profiles::drhodr_from_input_file(r); }
