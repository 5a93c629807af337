// parameters by name
#include "vf_out.h"
extern "C" double vfm_parse(const char *);
extern "C" long vfm_parsei(const char *, int);
extern "C" bool vfm_line(std::string *);
extern "C" void vfm_setparam(const char *, const char *);
namespace std {
struct vf_iss {
  string s;
  vf_iss(const string & t) : s(t) {}
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
  bool fail() const { return false; }
  vf_iss & operator>>(double & x) { x = vfm_parse(s.c_str()); return *this; }
  vf_iss & operator>>(int & x) { x = vfm_parsei(s.c_str(), 32); return *this; }
  vf_iss & operator>>(unsigned & x) { x = vfm_parsei(s.c_str(), 32); return *this; }
  vf_iss & operator>>(short & x) { x = vfm_parsei(s.c_str(), 16); return *this; }
  vf_iss & operator>>(unsigned short & x) { x = vfm_parsei(s.c_str(), 16); return *this; }
  vf_iss & operator>>(long & x) { x = vfm_parsei(s.c_str(), 64); return *this; }
  vf_iss & operator>>(unsigned long & x) { x = vfm_parsei(s.c_str(), 64); return *this; }
};
struct vf_ifs {
  void open(const char *) {}
  void close() {}
  bool operator!() const { return false; }
  bool is_open() const { return true; }
  bool fail() const { return false; }
};
inline bool getline(vf_ifs &, string & s) { return vfm_line(&s); }
}
#define istringstream vf_iss
#define ifstream vf_ifs
#include "params.h"
extern "C" void vf_set(const char * n, const char * v) { std::string a(n), b(v); param::set_param(a, b); }
extern "C" void vf_read() { param::read_params("file"); }
extern "C" void vf_assign(std::string * s, const char * v) { *s = v; }
extern "C" void vf_keep() { static volatile char sink; sink = *(const volatile char *)&param::sph_eta; }
