// filling and reading particles through their public interface
#pragma once
#include <new>
#define VF_VEC(X) X(coordinates, set_coordinates) X(getVelocity, setVelocity) X(getVelocityhalf, setVelocityhalf) X(getAcceleration, setAcceleration) X(getGAcceleration, setGAcceleration)
#define VF_SCA(X) X(mass, set_mass) X(radius, set_radius) X(getGPotential, setGPotential) X(getDensity, setDensity) X(getPressure, setPressure) X(getEntropy, setEntropy) \
  X(getElectronfraction, setElectronfraction) X(getTemperature, setTemperature) X(getSoundspeed, setSoundspeed) X(getInternalenergy, setInternalenergy) X(getTotalenergy, setTotalenergy) \
  X(getDudt, setDudt) X(getDedt, setDedt) X(getAdiabatic, setAdiabatic) X(getDadt, setDadt) X(getDt, setDt) X(getAlpha, setAlpha) X(getDivergenceV, setDivergenceV) X(getDdivvdt, setDdivvdt) \
  X(getTrigger, setTrigger) X(getXi, setXi) X(getTraceSS, setTraceSS) X(getGradV, setGradV) X(getPressuremin, setPressuremin) X(getSignalspeed, setSignalspeed)
extern "C" unsigned long vf_body_size() { return sizeof(body); }
extern "C" void vf_body_new(body * b) { new(b) body(); }
extern "C" void vf_body_put(body * b, const double * s, unsigned long id, int type, int state, unsigned long nn, int owner, unsigned long k) {
  new(b) body();
#define X(g, f) { point_t v; for(size_t i = 0; i < gdimension; ++i) v[i] = *s++; b->f(v); }
  VF_VEC(X)
#undef X
#define X(g, f) b->f(*s++);
  VF_SCA(X)
#undef X
  b->set_id(id);
  b->setType((particle_type_t)type);
  b->set_state((state_t)state);
  b->setNeighbors(nn);
  b->set_owner(owner);
  b->set_key(key_type(k));
}
extern "C" void vf_body_get(body * b, double * o, unsigned long * io) {
#define X(g, f) { point_t v = b->g(); for(size_t i = 0; i < gdimension; ++i) *o++ = v[i]; }
  VF_VEC(X)
#undef X
#define X(g, f) *o++ = b->g();
  VF_SCA(X)
#undef X
  *io++ = b->id();
  *io++ = b->getType();
  *io++ = b->state();
  *io++ = b->getNeighbors();
  *io++ = b->owner();
  *io++ = b->key().value();
}
