// text output: what is written to string and file streams is handed to the analysis, log messages are dropped
#pragma once
#include <cfloat>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <mpi.h>
#include "log.h"
extern "C" void vfm_putd(void *, double);
extern "C" void vfm_puti(void *, long);
extern "C" void vfm_puts(void *, const char *);
extern "C" void vfm_open(void *, const char *);
extern "C" void vfm_all(void *, const void *);
namespace std {
struct vf_text { const void * from; operator string() const { return string(); } };
template<class T>
struct vf_put_base {
  int id;
  vf_put_base() {}
  vf_put_base(const vf_put_base &) = delete;
  T & me() { return *static_cast<T *>(this); }
  T & operator<<(double x) { vfm_putd(this, x); return me(); }
  T & operator<<(float x) { vfm_putd(this, x); return me(); }
  T & operator<<(int x) { vfm_puti(this, x); return me(); }
  T & operator<<(unsigned x) { vfm_puti(this, x); return me(); }
  T & operator<<(long x) { vfm_puti(this, x); return me(); }
  T & operator<<(unsigned long x) { vfm_puti(this, x); return me(); }
  T & operator<<(bool x) { vfm_puti(this, x); return me(); }
  T & operator<<(const char * x) { vfm_puts(this, x); return me(); }
  T & operator<<(const vf_text & x) { vfm_all(this, x.from); return me(); }
  T & operator<<(ostream & (*)(ostream &)) { return me(); }
  T & operator<<(ios_base & (*)(ios_base &)) { return me(); }
  T & operator<<(decltype(setw(1))) { return me(); }
  T & operator<<(decltype(setprecision(1))) { return me(); }
  T & operator<<(decltype(setfill('c'))) { return me(); }
};
struct vf_oss : vf_put_base<vf_oss> {
  vf_oss() { vfm_open(this, nullptr); }
  vf_text str() { return {this}; }
};
struct vf_ofs : vf_put_base<vf_ofs> {
  vf_ofs() {}
  vf_ofs(const char * n, ios_base::openmode = ios_base::out) { vfm_open(this, n); }
  void close() {}
  bool operator!() const { return false; }
};
struct vf_null {
  template<class T> const vf_null & operator<<(const T &) const { return *this; }
  const vf_null & operator<<(ostream & (*)(ostream &)) const { return *this; }
  const vf_null & operator<<(ios_base & (*)(ios_base &)) const { return *this; }
  operator bool() const { return true; }
};
}
#undef log_one
#undef logm
#ifdef VF_LOG
namespace std {
struct vf_log : vf_put_base<vf_log> {
  vf_log(const char * n) { vfm_open(this, n); }
  using vf_put_base<vf_log>::operator<<;
  template<class U> vf_log & operator<<(const U &) { return *this; }
  operator bool() const { return true; }
};
}
#define vf_log_info std::vf_log("log:info")
#define vf_log_trace std::vf_null()
#define vf_log_warn std::vf_null()
#define vf_log_error std::vf_null()
#define vf_log_fatal std::vf_null()
#define log_one(x) vf_log_##x
#define logm(x) vf_log_##x
#else
#define log_one(x) std::vf_null()
#define logm(x) std::vf_null()
#endif
#define ostringstream vf_oss
#define ofstream vf_ofs
