// plain overloads of two string algorithms: same results, no locale objects
#pragma once
#include_next <boost/algorithm/string.hpp>
#include <string>
#include <vector>
namespace boost {
inline bool vf_ieq(const char * a, const char * b) {
  for(;; ++a, ++b) {
    char x = *a, y = *b;
    if(x >= 'A' && x <= 'Z') x += 32;
    if(y >= 'A' && y <= 'Z') y += 32;
    if(x != y) return false;
    if(!x) return true;
  }
}
inline bool iequals(const std::string & a, const char * b) { return vf_ieq(a.c_str(), b); }
inline bool iequals(const char * a, const std::string & b) { return vf_ieq(a, b.c_str()); }
inline bool iequals(const std::string & a, const std::string & b) { return vf_ieq(a.c_str(), b.c_str()); }
inline bool iequals(const char * a, const char * b) { return vf_ieq(a, b); }
inline std::vector<std::string> & split(std::vector<std::string> & r, const std::string & s, algorithm::detail::is_any_ofF<char> f) {
  r.clear();
  std::string t;
  for(std::size_t i = 0; i < s.size(); ++i) {
    if(f(s[i])) { r.push_back(t); t = std::string(); }
    else t.push_back(s[i]);
  }
  r.push_back(t);
  return r;
}
} // namespace boost
