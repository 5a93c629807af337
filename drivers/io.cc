// snapshots
#include <cfloat>
#include <iostream>
#include <mpi.h>
#include "default_physics.h"
#include "bodies_system.h"
#include "vf_body.h"
#define X extern "C"
typedef body_system<double, gdimension> bsys;
X bsys * vf_new() { return new bsys; }
X void vf_set(bsys * s, body * b, int n) { s->getLocalbodies() = std::vector<body>(b, b + n); }
X body * vf_ents(bsys * s) { return s->getLocalbodies().data(); }
X unsigned long vf_nents(bsys * s) { return s->getLocalbodies().size(); }
X long vf_nlocal(bsys * s) { return s->getNLocalBodies(); }
X long vf_ntotal(bsys * s) { return s->getNBodies(); }
X void vf_files(bool separate, long first) { param::_out_h5data_separate_iterations = separate; param::_initial_iteration = first; }
X void vf_clock(double t, double dt) { physics::totaltime = t; physics::dt = dt; }
X double vf_time() { return physics::totaltime; }
X double vf_dt() { return physics::dt; }
X void vf_write(bsys * s, const char * p, int it) { s->write_bodies(p, it, physics::totaltime); }
X void vf_read(bsys * s, const char * in, const char * out, int it) { s->read_bodies(in, out, it); }
