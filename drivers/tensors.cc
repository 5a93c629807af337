// element access and element-wise algebra of the tensor classes
#include <cassert>
#include <cstddef>
#include "tensor.h"
#include "space_vector.h"
using namespace flecsi;
#define GEN symmetry_type::generic
#define SYM symmetry_type::symmetric
static const tensor_indices::rank1_index names1[] = {
  tensor_indices::_x, tensor_indices::_y, tensor_indices::_z, tensor_indices::_t, };
static const tensor_indices::rank2_index names2[] = {
  tensor_indices::xx, tensor_indices::xy, tensor_indices::xz, tensor_indices::xt, tensor_indices::yx, 
  tensor_indices::yy, tensor_indices::yz, tensor_indices::yt, tensor_indices::zx, tensor_indices::zy, 
  tensor_indices::zz, tensor_indices::zt, tensor_indices::tx, tensor_indices::ty, tensor_indices::tz, 
  tensor_indices::tt, };
static const tensor_indices::rank3_index names3[] = {
  tensor_indices::xxx, tensor_indices::xxy, tensor_indices::xxz, tensor_indices::xxt, tensor_indices::xyx, 
  tensor_indices::xyy, tensor_indices::xyz, tensor_indices::xyt, tensor_indices::xzx, tensor_indices::xzy, 
  tensor_indices::xzz, tensor_indices::xzt, tensor_indices::xtx, tensor_indices::xty, tensor_indices::xtz, 
  tensor_indices::xtt, tensor_indices::yxx, tensor_indices::yxy, tensor_indices::yxz, tensor_indices::yxt, 
  tensor_indices::yyx, tensor_indices::yyy, tensor_indices::yyz, tensor_indices::yyt, tensor_indices::yzx, 
  tensor_indices::yzy, tensor_indices::yzz, tensor_indices::yzt, tensor_indices::ytx, tensor_indices::yty, 
  tensor_indices::ytz, tensor_indices::ytt, tensor_indices::zxx, tensor_indices::zxy, tensor_indices::zxz, 
  tensor_indices::zxt, tensor_indices::zyx, tensor_indices::zyy, tensor_indices::zyz, tensor_indices::zyt, 
  tensor_indices::zzx, tensor_indices::zzy, tensor_indices::zzz, tensor_indices::zzt, tensor_indices::ztx, 
  tensor_indices::zty, tensor_indices::ztz, tensor_indices::ztt, tensor_indices::txx, tensor_indices::txy, 
  tensor_indices::txz, tensor_indices::txt, tensor_indices::tyx, tensor_indices::tyy, tensor_indices::tyz, 
  tensor_indices::tyt, tensor_indices::tzx, tensor_indices::tzy, tensor_indices::tzz, tensor_indices::tzt, 
  tensor_indices::ttx, tensor_indices::tty, tensor_indices::ttz, tensor_indices::ttt, };
static const tensor_indices::rank4_index names4[] = {
  tensor_indices::xxxx, tensor_indices::xxxy, tensor_indices::xxxz, tensor_indices::xxxt, 
  tensor_indices::xxyx, tensor_indices::xxyy, tensor_indices::xxyz, tensor_indices::xxyt, 
  tensor_indices::xxzx, tensor_indices::xxzy, tensor_indices::xxzz, tensor_indices::xxzt, 
  tensor_indices::xxtx, tensor_indices::xxty, tensor_indices::xxtz, tensor_indices::xxtt, 
  tensor_indices::xyxx, tensor_indices::xyxy, tensor_indices::xyxz, tensor_indices::xyxt, 
  tensor_indices::xyyx, tensor_indices::xyyy, tensor_indices::xyyz, tensor_indices::xyyt, 
  tensor_indices::xyzx, tensor_indices::xyzy, tensor_indices::xyzz, tensor_indices::xyzt, 
  tensor_indices::xytx, tensor_indices::xyty, tensor_indices::xytz, tensor_indices::xytt, 
  tensor_indices::xzxx, tensor_indices::xzxy, tensor_indices::xzxz, tensor_indices::xzxt, 
  tensor_indices::xzyx, tensor_indices::xzyy, tensor_indices::xzyz, tensor_indices::xzyt, 
  tensor_indices::xzzx, tensor_indices::xzzy, tensor_indices::xzzz, tensor_indices::xzzt, 
  tensor_indices::xztx, tensor_indices::xzty, tensor_indices::xztz, tensor_indices::xztt, 
  tensor_indices::xtxx, tensor_indices::xtxy, tensor_indices::xtxz, tensor_indices::xtxt, 
  tensor_indices::xtyx, tensor_indices::xtyy, tensor_indices::xtyz, tensor_indices::xtyt, 
  tensor_indices::xtzx, tensor_indices::xtzy, tensor_indices::xtzz, tensor_indices::xtzt, 
  tensor_indices::xttx, tensor_indices::xtty, tensor_indices::xttz, tensor_indices::xttt, 
  tensor_indices::yxxx, tensor_indices::yxxy, tensor_indices::yxxz, tensor_indices::yxxt, 
  tensor_indices::yxyx, tensor_indices::yxyy, tensor_indices::yxyz, tensor_indices::yxyt, 
  tensor_indices::yxzx, tensor_indices::yxzy, tensor_indices::yxzz, tensor_indices::yxzt, 
  tensor_indices::yxtx, tensor_indices::yxty, tensor_indices::yxtz, tensor_indices::yxtt, 
  tensor_indices::yyxx, tensor_indices::yyxy, tensor_indices::yyxz, tensor_indices::yyxt, 
  tensor_indices::yyyx, tensor_indices::yyyy, tensor_indices::yyyz, tensor_indices::yyyt, 
  tensor_indices::yyzx, tensor_indices::yyzy, tensor_indices::yyzz, tensor_indices::yyzt, 
  tensor_indices::yytx, tensor_indices::yyty, tensor_indices::yytz, tensor_indices::yytt, 
  tensor_indices::yzxx, tensor_indices::yzxy, tensor_indices::yzxz, tensor_indices::yzxt, 
  tensor_indices::yzyx, tensor_indices::yzyy, tensor_indices::yzyz, tensor_indices::yzyt, 
  tensor_indices::yzzx, tensor_indices::yzzy, tensor_indices::yzzz, tensor_indices::yzzt, 
  tensor_indices::yztx, tensor_indices::yzty, tensor_indices::yztz, tensor_indices::yztt, 
  tensor_indices::ytxx, tensor_indices::ytxy, tensor_indices::ytxz, tensor_indices::ytxt, 
  tensor_indices::ytyx, tensor_indices::ytyy, tensor_indices::ytyz, tensor_indices::ytyt, 
  tensor_indices::ytzx, tensor_indices::ytzy, tensor_indices::ytzz, tensor_indices::ytzt, 
  tensor_indices::yttx, tensor_indices::ytty, tensor_indices::yttz, tensor_indices::yttt, 
  tensor_indices::zxxx, tensor_indices::zxxy, tensor_indices::zxxz, tensor_indices::zxxt, 
  tensor_indices::zxyx, tensor_indices::zxyy, tensor_indices::zxyz, tensor_indices::zxyt, 
  tensor_indices::zxzx, tensor_indices::zxzy, tensor_indices::zxzz, tensor_indices::zxzt, 
  tensor_indices::zxtx, tensor_indices::zxty, tensor_indices::zxtz, tensor_indices::zxtt, 
  tensor_indices::zyxx, tensor_indices::zyxy, tensor_indices::zyxz, tensor_indices::zyxt, 
  tensor_indices::zyyx, tensor_indices::zyyy, tensor_indices::zyyz, tensor_indices::zyyt, 
  tensor_indices::zyzx, tensor_indices::zyzy, tensor_indices::zyzz, tensor_indices::zyzt, 
  tensor_indices::zytx, tensor_indices::zyty, tensor_indices::zytz, tensor_indices::zytt, 
  tensor_indices::zzxx, tensor_indices::zzxy, tensor_indices::zzxz, tensor_indices::zzxt, 
  tensor_indices::zzyx, tensor_indices::zzyy, tensor_indices::zzyz, tensor_indices::zzyt, 
  tensor_indices::zzzx, tensor_indices::zzzy, tensor_indices::zzzz, tensor_indices::zzzt, 
  tensor_indices::zztx, tensor_indices::zzty, tensor_indices::zztz, tensor_indices::zztt, 
  tensor_indices::ztxx, tensor_indices::ztxy, tensor_indices::ztxz, tensor_indices::ztxt, 
  tensor_indices::ztyx, tensor_indices::ztyy, tensor_indices::ztyz, tensor_indices::ztyt, 
  tensor_indices::ztzx, tensor_indices::ztzy, tensor_indices::ztzz, tensor_indices::ztzt, 
  tensor_indices::zttx, tensor_indices::ztty, tensor_indices::zttz, tensor_indices::zttt, 
  tensor_indices::txxx, tensor_indices::txxy, tensor_indices::txxz, tensor_indices::txxt, 
  tensor_indices::txyx, tensor_indices::txyy, tensor_indices::txyz, tensor_indices::txyt, 
  tensor_indices::txzx, tensor_indices::txzy, tensor_indices::txzz, tensor_indices::txzt, 
  tensor_indices::txtx, tensor_indices::txty, tensor_indices::txtz, tensor_indices::txtt, 
  tensor_indices::tyxx, tensor_indices::tyxy, tensor_indices::tyxz, tensor_indices::tyxt, 
  tensor_indices::tyyx, tensor_indices::tyyy, tensor_indices::tyyz, tensor_indices::tyyt, 
  tensor_indices::tyzx, tensor_indices::tyzy, tensor_indices::tyzz, tensor_indices::tyzt, 
  tensor_indices::tytx, tensor_indices::tyty, tensor_indices::tytz, tensor_indices::tytt, 
  tensor_indices::tzxx, tensor_indices::tzxy, tensor_indices::tzxz, tensor_indices::tzxt, 
  tensor_indices::tzyx, tensor_indices::tzyy, tensor_indices::tzyz, tensor_indices::tzyt, 
  tensor_indices::tzzx, tensor_indices::tzzy, tensor_indices::tzzz, tensor_indices::tzzt, 
  tensor_indices::tztx, tensor_indices::tzty, tensor_indices::tztz, tensor_indices::tztt, 
  tensor_indices::ttxx, tensor_indices::ttxy, tensor_indices::ttxz, tensor_indices::ttxt, 
  tensor_indices::ttyx, tensor_indices::ttyy, tensor_indices::ttyz, tensor_indices::ttyt, 
  tensor_indices::ttzx, tensor_indices::ttzy, tensor_indices::ttzz, tensor_indices::ttzt, 
  tensor_indices::tttx, tensor_indices::ttty, tensor_indices::tttz, tensor_indices::tttt, };
template<class X> static long off(X & t, double & e) { return (char *)&e - (char *)&t; }
template<class X> static long coff(const X & t, const double & e) { return (const char *)&e - (const char *)&t; }
extern "C" long vf_at_1_1_GEN(size_t i) { tensor_u<double, GEN, 1> t; return off(t, t(i)); }
extern "C" long vf_cat_1_1_GEN(size_t i) { tensor_u<double, GEN, 1> u; const tensor_u<double, GEN, 1> & t = u; return coff(t, t(i)); }
extern "C" long vf_nm_1_1_GEN(size_t k) { tensor_u<double, GEN, 1> t; return off(t, t[names1[k]]); }
extern "C" long vf_ln_1_1_GEN(size_t k) { tensor_u<double, GEN, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_1_1_GEN() { return tensor_u<double, GEN, 1>::size(); }
extern "C" long vf_bytes_1_1_GEN() { return sizeof(tensor_u<double, GEN, 1>); }
extern "C" long vf_rk_1_1_GEN() { return tensor_u<double, GEN, 1>::RANK; }
extern "C" long vf_at_1_2_GEN(size_t i) { tensor_u<double, GEN, 2> t; return off(t, t(i)); }
extern "C" long vf_cat_1_2_GEN(size_t i) { tensor_u<double, GEN, 2> u; const tensor_u<double, GEN, 2> & t = u; return coff(t, t(i)); }
extern "C" long vf_nm_1_2_GEN(size_t k) { tensor_u<double, GEN, 2> t; return off(t, t[names1[k]]); }
extern "C" long vf_ln_1_2_GEN(size_t k) { tensor_u<double, GEN, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_1_2_GEN() { return tensor_u<double, GEN, 2>::size(); }
extern "C" long vf_bytes_1_2_GEN() { return sizeof(tensor_u<double, GEN, 2>); }
extern "C" long vf_rk_1_2_GEN() { return tensor_u<double, GEN, 2>::RANK; }
extern "C" long vf_at_1_3_GEN(size_t i) { tensor_u<double, GEN, 3> t; return off(t, t(i)); }
extern "C" long vf_cat_1_3_GEN(size_t i) { tensor_u<double, GEN, 3> u; const tensor_u<double, GEN, 3> & t = u; return coff(t, t(i)); }
extern "C" long vf_nm_1_3_GEN(size_t k) { tensor_u<double, GEN, 3> t; return off(t, t[names1[k]]); }
extern "C" long vf_ln_1_3_GEN(size_t k) { tensor_u<double, GEN, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_1_3_GEN() { return tensor_u<double, GEN, 3>::size(); }
extern "C" long vf_bytes_1_3_GEN() { return sizeof(tensor_u<double, GEN, 3>); }
extern "C" long vf_rk_1_3_GEN() { return tensor_u<double, GEN, 3>::RANK; }
extern "C" long vf_at_1_4_GEN(size_t i) { tensor_u<double, GEN, 4> t; return off(t, t(i)); }
extern "C" long vf_cat_1_4_GEN(size_t i) { tensor_u<double, GEN, 4> u; const tensor_u<double, GEN, 4> & t = u; return coff(t, t(i)); }
extern "C" long vf_nm_1_4_GEN(size_t k) { tensor_u<double, GEN, 4> t; return off(t, t[names1[k]]); }
extern "C" long vf_ln_1_4_GEN(size_t k) { tensor_u<double, GEN, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_1_4_GEN() { return tensor_u<double, GEN, 4>::size(); }
extern "C" long vf_bytes_1_4_GEN() { return sizeof(tensor_u<double, GEN, 4>); }
extern "C" long vf_rk_1_4_GEN() { return tensor_u<double, GEN, 4>::RANK; }
extern "C" long vf_at_2_1_GEN(size_t i, size_t j) { tensor_u<double, GEN, 1, 1> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_1_GEN(size_t i, size_t j) { tensor_u<double, GEN, 1, 1> u; const tensor_u<double, GEN, 1, 1> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_2_1_GEN() { return tensor_u<double, GEN, 1, 1>::size(); }
extern "C" long vf_bytes_2_1_GEN() { return sizeof(tensor_u<double, GEN, 1, 1>); }
extern "C" long vf_rk_2_1_GEN() { return tensor_u<double, GEN, 1, 1>::RANK; }
extern "C" long vf_at_2_1_SYM(size_t i, size_t j) { tensor_u<double, SYM, 1, 1> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_1_SYM(size_t i, size_t j) { tensor_u<double, SYM, 1, 1> u; const tensor_u<double, SYM, 1, 1> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_2_1_SYM() { return tensor_u<double, SYM, 1, 1>::size(); }
extern "C" long vf_bytes_2_1_SYM() { return sizeof(tensor_u<double, SYM, 1, 1>); }
extern "C" long vf_rk_2_1_SYM() { return tensor_u<double, SYM, 1, 1>::RANK; }
extern "C" long vf_at_2_2_GEN(size_t i, size_t j) { tensor_u<double, GEN, 2, 2> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_2_GEN(size_t i, size_t j) { tensor_u<double, GEN, 2, 2> u; const tensor_u<double, GEN, 2, 2> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_2_2_GEN() { return tensor_u<double, GEN, 2, 2>::size(); }
extern "C" long vf_bytes_2_2_GEN() { return sizeof(tensor_u<double, GEN, 2, 2>); }
extern "C" long vf_rk_2_2_GEN() { return tensor_u<double, GEN, 2, 2>::RANK; }
extern "C" long vf_at_2_2_SYM(size_t i, size_t j) { tensor_u<double, SYM, 2, 2> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_2_SYM(size_t i, size_t j) { tensor_u<double, SYM, 2, 2> u; const tensor_u<double, SYM, 2, 2> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_2_2_SYM() { return tensor_u<double, SYM, 2, 2>::size(); }
extern "C" long vf_bytes_2_2_SYM() { return sizeof(tensor_u<double, SYM, 2, 2>); }
extern "C" long vf_rk_2_2_SYM() { return tensor_u<double, SYM, 2, 2>::RANK; }
extern "C" long vf_at_2_3_GEN(size_t i, size_t j) { tensor_u<double, GEN, 3, 3> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_3_GEN(size_t i, size_t j) { tensor_u<double, GEN, 3, 3> u; const tensor_u<double, GEN, 3, 3> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_2_3_GEN() { return tensor_u<double, GEN, 3, 3>::size(); }
extern "C" long vf_bytes_2_3_GEN() { return sizeof(tensor_u<double, GEN, 3, 3>); }
extern "C" long vf_rk_2_3_GEN() { return tensor_u<double, GEN, 3, 3>::RANK; }
extern "C" long vf_at_2_3_SYM(size_t i, size_t j) { tensor_u<double, SYM, 3, 3> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_3_SYM(size_t i, size_t j) { tensor_u<double, SYM, 3, 3> u; const tensor_u<double, SYM, 3, 3> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_2_3_SYM() { return tensor_u<double, SYM, 3, 3>::size(); }
extern "C" long vf_bytes_2_3_SYM() { return sizeof(tensor_u<double, SYM, 3, 3>); }
extern "C" long vf_rk_2_3_SYM() { return tensor_u<double, SYM, 3, 3>::RANK; }
extern "C" long vf_at_2_4_GEN(size_t i, size_t j) { tensor_u<double, GEN, 4, 4> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_4_GEN(size_t i, size_t j) { tensor_u<double, GEN, 4, 4> u; const tensor_u<double, GEN, 4, 4> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_2_4_GEN() { return tensor_u<double, GEN, 4, 4>::size(); }
extern "C" long vf_bytes_2_4_GEN() { return sizeof(tensor_u<double, GEN, 4, 4>); }
extern "C" long vf_rk_2_4_GEN() { return tensor_u<double, GEN, 4, 4>::RANK; }
extern "C" long vf_at_2_4_SYM(size_t i, size_t j) { tensor_u<double, SYM, 4, 4> t; return off(t, t(i, j)); }
extern "C" long vf_cat_2_4_SYM(size_t i, size_t j) { tensor_u<double, SYM, 4, 4> u; const tensor_u<double, SYM, 4, 4> & t = u; return coff(t, t(i, j)); }
extern "C" long vf_nm_2_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4> t; return off(t, t[names2[k]]); }
extern "C" long vf_ln_2_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_2_4_SYM() { return tensor_u<double, SYM, 4, 4>::size(); }
extern "C" long vf_bytes_2_4_SYM() { return sizeof(tensor_u<double, SYM, 4, 4>); }
extern "C" long vf_rk_2_4_SYM() { return tensor_u<double, SYM, 4, 4>::RANK; }
extern "C" long vf_at_3_1_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 1, 1, 1> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_1_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 1, 1, 1> u; const tensor_u<double, GEN, 1, 1, 1> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1, 1> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_3_1_GEN() { return tensor_u<double, GEN, 1, 1, 1>::size(); }
extern "C" long vf_bytes_3_1_GEN() { return sizeof(tensor_u<double, GEN, 1, 1, 1>); }
extern "C" long vf_rk_3_1_GEN() { return tensor_u<double, GEN, 1, 1, 1>::RANK; }
extern "C" long vf_at_3_1_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 1, 1, 1> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_1_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 1, 1, 1> u; const tensor_u<double, SYM, 1, 1, 1> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1, 1> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_3_1_SYM() { return tensor_u<double, SYM, 1, 1, 1>::size(); }
extern "C" long vf_bytes_3_1_SYM() { return sizeof(tensor_u<double, SYM, 1, 1, 1>); }
extern "C" long vf_rk_3_1_SYM() { return tensor_u<double, SYM, 1, 1, 1>::RANK; }
extern "C" long vf_at_3_2_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 2, 2, 2> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_2_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 2, 2, 2> u; const tensor_u<double, GEN, 2, 2, 2> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2, 2> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_3_2_GEN() { return tensor_u<double, GEN, 2, 2, 2>::size(); }
extern "C" long vf_bytes_3_2_GEN() { return sizeof(tensor_u<double, GEN, 2, 2, 2>); }
extern "C" long vf_rk_3_2_GEN() { return tensor_u<double, GEN, 2, 2, 2>::RANK; }
extern "C" long vf_at_3_2_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 2, 2, 2> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_2_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 2, 2, 2> u; const tensor_u<double, SYM, 2, 2, 2> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2, 2> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_3_2_SYM() { return tensor_u<double, SYM, 2, 2, 2>::size(); }
extern "C" long vf_bytes_3_2_SYM() { return sizeof(tensor_u<double, SYM, 2, 2, 2>); }
extern "C" long vf_rk_3_2_SYM() { return tensor_u<double, SYM, 2, 2, 2>::RANK; }
extern "C" long vf_at_3_3_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 3, 3, 3> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_3_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 3, 3, 3> u; const tensor_u<double, GEN, 3, 3, 3> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3, 3> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_3_3_GEN() { return tensor_u<double, GEN, 3, 3, 3>::size(); }
extern "C" long vf_bytes_3_3_GEN() { return sizeof(tensor_u<double, GEN, 3, 3, 3>); }
extern "C" long vf_rk_3_3_GEN() { return tensor_u<double, GEN, 3, 3, 3>::RANK; }
extern "C" long vf_at_3_3_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 3, 3, 3> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_3_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 3, 3, 3> u; const tensor_u<double, SYM, 3, 3, 3> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3, 3> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_3_3_SYM() { return tensor_u<double, SYM, 3, 3, 3>::size(); }
extern "C" long vf_bytes_3_3_SYM() { return sizeof(tensor_u<double, SYM, 3, 3, 3>); }
extern "C" long vf_rk_3_3_SYM() { return tensor_u<double, SYM, 3, 3, 3>::RANK; }
extern "C" long vf_at_3_4_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 4, 4, 4> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_4_GEN(size_t i, size_t j, size_t k) { tensor_u<double, GEN, 4, 4, 4> u; const tensor_u<double, GEN, 4, 4, 4> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4, 4> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_3_4_GEN() { return tensor_u<double, GEN, 4, 4, 4>::size(); }
extern "C" long vf_bytes_3_4_GEN() { return sizeof(tensor_u<double, GEN, 4, 4, 4>); }
extern "C" long vf_rk_3_4_GEN() { return tensor_u<double, GEN, 4, 4, 4>::RANK; }
extern "C" long vf_at_3_4_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 4, 4, 4> t; return off(t, t(i, j, k)); }
extern "C" long vf_cat_3_4_SYM(size_t i, size_t j, size_t k) { tensor_u<double, SYM, 4, 4, 4> u; const tensor_u<double, SYM, 4, 4, 4> & t = u; return coff(t, t(i, j, k)); }
extern "C" long vf_nm_3_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4, 4> t; return off(t, t[names3[k]]); }
extern "C" long vf_ln_3_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_3_4_SYM() { return tensor_u<double, SYM, 4, 4, 4>::size(); }
extern "C" long vf_bytes_3_4_SYM() { return sizeof(tensor_u<double, SYM, 4, 4, 4>); }
extern "C" long vf_rk_3_4_SYM() { return tensor_u<double, SYM, 4, 4, 4>::RANK; }
extern "C" long vf_at_4_1_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 1, 1, 1, 1> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_1_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 1, 1, 1, 1> u; const tensor_u<double, GEN, 1, 1, 1, 1> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1, 1, 1> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_1_GEN(size_t k) { tensor_u<double, GEN, 1, 1, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_4_1_GEN() { return tensor_u<double, GEN, 1, 1, 1, 1>::size(); }
extern "C" long vf_bytes_4_1_GEN() { return sizeof(tensor_u<double, GEN, 1, 1, 1, 1>); }
extern "C" long vf_rk_4_1_GEN() { return tensor_u<double, GEN, 1, 1, 1, 1>::RANK; }
extern "C" long vf_at_4_1_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 1, 1, 1, 1> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_1_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 1, 1, 1, 1> u; const tensor_u<double, SYM, 1, 1, 1, 1> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1, 1, 1> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_1_SYM(size_t k) { tensor_u<double, SYM, 1, 1, 1, 1> t; return off(t, t[k]); }
extern "C" long vf_sz_4_1_SYM() { return tensor_u<double, SYM, 1, 1, 1, 1>::size(); }
extern "C" long vf_bytes_4_1_SYM() { return sizeof(tensor_u<double, SYM, 1, 1, 1, 1>); }
extern "C" long vf_rk_4_1_SYM() { return tensor_u<double, SYM, 1, 1, 1, 1>::RANK; }
extern "C" long vf_at_4_2_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 2, 2, 2, 2> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_2_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 2, 2, 2, 2> u; const tensor_u<double, GEN, 2, 2, 2, 2> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2, 2, 2> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_2_GEN(size_t k) { tensor_u<double, GEN, 2, 2, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_4_2_GEN() { return tensor_u<double, GEN, 2, 2, 2, 2>::size(); }
extern "C" long vf_bytes_4_2_GEN() { return sizeof(tensor_u<double, GEN, 2, 2, 2, 2>); }
extern "C" long vf_rk_4_2_GEN() { return tensor_u<double, GEN, 2, 2, 2, 2>::RANK; }
extern "C" long vf_at_4_2_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 2, 2, 2, 2> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_2_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 2, 2, 2, 2> u; const tensor_u<double, SYM, 2, 2, 2, 2> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2, 2, 2> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_2_SYM(size_t k) { tensor_u<double, SYM, 2, 2, 2, 2> t; return off(t, t[k]); }
extern "C" long vf_sz_4_2_SYM() { return tensor_u<double, SYM, 2, 2, 2, 2>::size(); }
extern "C" long vf_bytes_4_2_SYM() { return sizeof(tensor_u<double, SYM, 2, 2, 2, 2>); }
extern "C" long vf_rk_4_2_SYM() { return tensor_u<double, SYM, 2, 2, 2, 2>::RANK; }
extern "C" long vf_at_4_3_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 3, 3, 3, 3> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_3_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 3, 3, 3, 3> u; const tensor_u<double, GEN, 3, 3, 3, 3> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3, 3, 3> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_3_GEN(size_t k) { tensor_u<double, GEN, 3, 3, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_4_3_GEN() { return tensor_u<double, GEN, 3, 3, 3, 3>::size(); }
extern "C" long vf_bytes_4_3_GEN() { return sizeof(tensor_u<double, GEN, 3, 3, 3, 3>); }
extern "C" long vf_rk_4_3_GEN() { return tensor_u<double, GEN, 3, 3, 3, 3>::RANK; }
extern "C" long vf_at_4_3_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 3, 3, 3, 3> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_3_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 3, 3, 3, 3> u; const tensor_u<double, SYM, 3, 3, 3, 3> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3, 3, 3> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_3_SYM(size_t k) { tensor_u<double, SYM, 3, 3, 3, 3> t; return off(t, t[k]); }
extern "C" long vf_sz_4_3_SYM() { return tensor_u<double, SYM, 3, 3, 3, 3>::size(); }
extern "C" long vf_bytes_4_3_SYM() { return sizeof(tensor_u<double, SYM, 3, 3, 3, 3>); }
extern "C" long vf_rk_4_3_SYM() { return tensor_u<double, SYM, 3, 3, 3, 3>::RANK; }
extern "C" long vf_at_4_4_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 4, 4, 4, 4> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_4_GEN(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, GEN, 4, 4, 4, 4> u; const tensor_u<double, GEN, 4, 4, 4, 4> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4, 4, 4> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_4_GEN(size_t k) { tensor_u<double, GEN, 4, 4, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_4_4_GEN() { return tensor_u<double, GEN, 4, 4, 4, 4>::size(); }
extern "C" long vf_bytes_4_4_GEN() { return sizeof(tensor_u<double, GEN, 4, 4, 4, 4>); }
extern "C" long vf_rk_4_4_GEN() { return tensor_u<double, GEN, 4, 4, 4, 4>::RANK; }
extern "C" long vf_at_4_4_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 4, 4, 4, 4> t; return off(t, t(i, j, k, l)); }
extern "C" long vf_cat_4_4_SYM(size_t i, size_t j, size_t k, size_t l) { tensor_u<double, SYM, 4, 4, 4, 4> u; const tensor_u<double, SYM, 4, 4, 4, 4> & t = u; return coff(t, t(i, j, k, l)); }
extern "C" long vf_nm_4_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4, 4, 4> t; return off(t, t[names4[k]]); }
extern "C" long vf_ln_4_4_SYM(size_t k) { tensor_u<double, SYM, 4, 4, 4, 4> t; return off(t, t[k]); }
extern "C" long vf_sz_4_4_SYM() { return tensor_u<double, SYM, 4, 4, 4, 4>::size(); }
extern "C" long vf_bytes_4_4_SYM() { return sizeof(tensor_u<double, SYM, 4, 4, 4, 4>); }
extern "C" long vf_rk_4_4_SYM() { return tensor_u<double, SYM, 4, 4, 4, 4>::RANK; }

typedef space_vector_u<double, 1> T_v1;
static void ld(T_v1 & t, const double * a) { for(size_t i = 0; i < (size_t)T_v1::size(); ++i) t[i] = a[i]; }
static void sv(const T_v1 & t, double * a) { for(size_t i = 0; i < (size_t)T_v1::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_v1(const double * pa, const double * pb, double s, double * o) { T_v1 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_v1 c(b); a = c) OP2(fill, T_v1 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_v1 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_v1(const double * pa, const double * pb) { T_v1 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_v1(const double * pa, const double * pb) { T_v1 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_v1() { return T_v1::size(); }

typedef space_vector_u<double, 2> T_v2;
static void ld(T_v2 & t, const double * a) { for(size_t i = 0; i < (size_t)T_v2::size(); ++i) t[i] = a[i]; }
static void sv(const T_v2 & t, double * a) { for(size_t i = 0; i < (size_t)T_v2::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_v2(const double * pa, const double * pb, double s, double * o) { T_v2 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_v2 c(b); a = c) OP2(fill, T_v2 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_v2 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_v2(const double * pa, const double * pb) { T_v2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_v2(const double * pa, const double * pb) { T_v2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_v2() { return T_v2::size(); }

typedef space_vector_u<double, 3> T_v3;
static void ld(T_v3 & t, const double * a) { for(size_t i = 0; i < (size_t)T_v3::size(); ++i) t[i] = a[i]; }
static void sv(const T_v3 & t, double * a) { for(size_t i = 0; i < (size_t)T_v3::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_v3(const double * pa, const double * pb, double s, double * o) { T_v3 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_v3 c(b); a = c) OP2(fill, T_v3 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_v3 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_v3(const double * pa, const double * pb) { T_v3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_v3(const double * pa, const double * pb) { T_v3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_v3() { return T_v3::size(); }

typedef tensor_u<double, GEN, 2, 2> T_m2;
static void ld(T_m2 & t, const double * a) { for(size_t i = 0; i < (size_t)T_m2::size(); ++i) t[i] = a[i]; }
static void sv(const T_m2 & t, double * a) { for(size_t i = 0; i < (size_t)T_m2::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_m2(const double * pa, const double * pb, double s, double * o) { T_m2 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_m2 c(b); a = c) OP2(fill, T_m2 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_m2 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_m2(const double * pa, const double * pb) { T_m2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_m2(const double * pa, const double * pb) { T_m2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_m2() { return T_m2::size(); }

typedef tensor_u<double, GEN, 3, 3> T_m3;
static void ld(T_m3 & t, const double * a) { for(size_t i = 0; i < (size_t)T_m3::size(); ++i) t[i] = a[i]; }
static void sv(const T_m3 & t, double * a) { for(size_t i = 0; i < (size_t)T_m3::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_m3(const double * pa, const double * pb, double s, double * o) { T_m3 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_m3 c(b); a = c) OP2(fill, T_m3 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_m3 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_m3(const double * pa, const double * pb) { T_m3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_m3(const double * pa, const double * pb) { T_m3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_m3() { return T_m3::size(); }

typedef tensor_u<double, SYM, 2, 2> T_s2;
static void ld(T_s2 & t, const double * a) { for(size_t i = 0; i < (size_t)T_s2::size(); ++i) t[i] = a[i]; }
static void sv(const T_s2 & t, double * a) { for(size_t i = 0; i < (size_t)T_s2::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_s2(const double * pa, const double * pb, double s, double * o) { T_s2 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_s2 c(b); a = c) OP2(fill, T_s2 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_s2 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_s2(const double * pa, const double * pb) { T_s2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_s2(const double * pa, const double * pb) { T_s2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_s2() { return T_s2::size(); }

typedef tensor_u<double, SYM, 3, 3> T_s3;
static void ld(T_s3 & t, const double * a) { for(size_t i = 0; i < (size_t)T_s3::size(); ++i) t[i] = a[i]; }
static void sv(const T_s3 & t, double * a) { for(size_t i = 0; i < (size_t)T_s3::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_s3(const double * pa, const double * pb, double s, double * o) { T_s3 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_s3 c(b); a = c) OP2(fill, T_s3 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_s3 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_s3(const double * pa, const double * pb) { T_s3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_s3(const double * pa, const double * pb) { T_s3 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_s3() { return T_s3::size(); }

typedef tensor_u<double, GEN, 2, 3> T_m23;
static void ld(T_m23 & t, const double * a) { for(size_t i = 0; i < (size_t)T_m23::size(); ++i) t[i] = a[i]; }
static void sv(const T_m23 & t, double * a) { for(size_t i = 0; i < (size_t)T_m23::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_m23(const double * pa, const double * pb, double s, double * o) { T_m23 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_m23 c(b); a = c) OP2(fill, T_m23 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_m23 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_m23(const double * pa, const double * pb) { T_m23 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_m23(const double * pa, const double * pb) { T_m23 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_m23() { return T_m23::size(); }

typedef tensor_u<double, SYM, 2, 2, 2> T_c2;
static void ld(T_c2 & t, const double * a) { for(size_t i = 0; i < (size_t)T_c2::size(); ++i) t[i] = a[i]; }
static void sv(const T_c2 & t, double * a) { for(size_t i = 0; i < (size_t)T_c2::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_c2(const double * pa, const double * pb, double s, double * o) { T_c2 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_c2 c(b); a = c) OP2(fill, T_c2 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_c2 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_c2(const double * pa, const double * pb) { T_c2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_c2(const double * pa, const double * pb) { T_c2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_c2() { return T_c2::size(); }

typedef tensor_u<double, SYM, 2, 2, 2, 2> T_q2;
static void ld(T_q2 & t, const double * a) { for(size_t i = 0; i < (size_t)T_q2::size(); ++i) t[i] = a[i]; }
static void sv(const T_q2 & t, double * a) { for(size_t i = 0; i < (size_t)T_q2::size(); ++i) a[i] = t[i]; }
#define OP2(NM, EXPR) extern "C" void vf_##NM##_q2(const double * pa, const double * pb, double s, double * o) { T_q2 a(0.), b(0.); ld(a, pa); ld(b, pb); EXPR; sv(a, o); }
OP2(addeq, a += b) OP2(subeq, a -= b) OP2(addeqs, a += s) OP2(subeqs, a -= s) OP2(muleqs, a *= s) OP2(diveqs, a /= s)
OP2(addself, a += a) OP2(subself, a -= a)
OP2(assign, a = b) OP2(assigns, a = s) OP2(assignself, a = a)
OP2(add, a = a + b) OP2(sub, a = a - b) OP2(mulr, a = a * s) OP2(mull, a = s * a) OP2(copy, T_q2 c(b); a = c) OP2(fill, T_q2 c(s); a = c)
OP2(mdiv, a = a / s) OP2(divc, const T_q2 c(a); a = c / s)
OP2(chain, (a += b) -= b)
#undef OP2
extern "C" bool vf_eq_q2(const double * pa, const double * pb) { T_q2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a == b; }
extern "C" bool vf_ne_q2(const double * pa, const double * pb) { T_q2 a(0.), b(0.); ld(a, pa); ld(b, pb); return a != b; }
extern "C" long vf_n_q2() { return T_q2::size(); }

extern "C" void vf_list_v2(double a, double b, double * o) { T_v2 t{a, b}; sv(t, o); }
extern "C" void vf_args_v2(double a, double b, double * o) { T_v2 t(a, b); sv(t, o); }
extern "C" void vf_list_v3(double a, double b, double c, double * o) { T_v3 t{a, b, c}; sv(t, o); }
extern "C" void vf_args_v3(double a, double b, double c, double * o) { T_v3 t(a, b, c); sv(t, o); }
extern "C" void vf_one_v3(double a, double * o) { T_v3 t{a}; sv(t, o); }
extern "C" void vf_mixed_m23(double * o) { T_m23 t(0.); for(size_t i = 0; i < 2; ++i) for(size_t j = 0; j < 3; ++j) o[3 * i + j] = (char *)&t(i, j) - (char *)&t; }


extern "C" double vf_dist_v1(const double * p, const double * q) { T_v1 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::distance(a, b); }
extern "C" double vf_dot_v1(const double * p, const double * q) { T_v1 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::dot(a, b); }
extern "C" double vf_mag_v1(const double * p) { T_v1 a(0.); ld(a, p); return flecsi::magnitude(a); }
extern "C" double vf_cmag_v1(const double * p, const double * q) { T_v1 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::cross_magnitude(a, b); }
extern "C" void vf_mid_v1(const double * p, const double * q, double * o) { T_v1 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::midpoint(a, b), o); }
extern "C" void vf_cross_v1(const double * p, const double * q, double * o) { T_v1 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::cross(a, b), o); }


extern "C" double vf_dist_v2(const double * p, const double * q) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::distance(a, b); }
extern "C" double vf_dot_v2(const double * p, const double * q) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::dot(a, b); }
extern "C" double vf_mag_v2(const double * p) { T_v2 a(0.); ld(a, p); return flecsi::magnitude(a); }
extern "C" double vf_cmag_v2(const double * p, const double * q) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::cross_magnitude(a, b); }
extern "C" void vf_mid_v2(const double * p, const double * q, double * o) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::midpoint(a, b), o); }
extern "C" void vf_cross_v2(const double * p, const double * q, double * o) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::cross(a, b), o); }


extern "C" double vf_dist_v3(const double * p, const double * q) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::distance(a, b); }
extern "C" double vf_dot_v3(const double * p, const double * q) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::dot(a, b); }
extern "C" double vf_mag_v3(const double * p) { T_v3 a(0.); ld(a, p); return flecsi::magnitude(a); }
extern "C" double vf_cmag_v3(const double * p, const double * q) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); return flecsi::cross_magnitude(a, b); }
extern "C" void vf_mid_v3(const double * p, const double * q, double * o) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::midpoint(a, b), o); }
extern "C" void vf_cross_v3(const double * p, const double * q, double * o) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::cross(a, b), o); }


#include <vector>
extern "C" void vf_centroid_v3(const double * p, const double * q, const double * r, double * o) { std::vector<T_v3> v(3); ld(v[0], p); ld(v[1], q); ld(v[2], r); sv(flecsi::centroid(v), o); }
extern "C" void vf_normal_v2(const double * p, const double * q, double * o) { T_v2 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::normal(a, b), o); }
extern "C" void vf_normal_v3(const double * p, const double * q, double * o) { T_v3 a(0.), b(0.); ld(a, p); ld(b, q); sv(flecsi::normal(a, b), o); }

