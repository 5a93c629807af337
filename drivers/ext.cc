// external forces
#include <cfloat>
#include <iostream>
#include <mpi.h>
#include "default_physics.h"
#include "vf_body.h"
#define X extern "C"
X void vf_select(const char * s) { std::string t(s); external_force::select(t); }
X double vf_pot(const double * x) { point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]; return external_force::potential(p); }
X void vf_acc(body * b, double * o) { point_t a = external_force::acceleration(*b); for(size_t i = 0; i < gdimension; ++i) o[i] = a[i]; }
X unsigned long vf_npot() { return external_force::vec_potentials.size(); }
X unsigned long vf_nacc() { return external_force::vec_accelerations.size(); }
// any smooth profile: a cubic stands for it
X double vfm_rho(double);
X double vfm_drho(double);
X void vf_profile() { density_profiles::spherical_density_profile = vfm_rho; density_profiles::spherical_drho_dr = vfm_drho; }
