/* the verifier's arithmetic is exact: a multiprecision number is a real number */
#ifndef GV_CPP_DEC_FLOAT
#define GV_CPP_DEC_FLOAT
#include <cmath>
namespace boost { namespace multiprecision {
struct cpp_dec_float_100 { double v; cpp_dec_float_100() : v(0) {} cpp_dec_float_100(double x) : v(x) {} template<class T> T convert_to() const { return T(v); } explicit operator double() const { return v; } };
#define GV_F1(f) inline cpp_dec_float_100 f(cpp_dec_float_100 a) { return cpp_dec_float_100(std::f(a.v)); }
GV_F1(sin) GV_F1(cos) GV_F1(tan) GV_F1(acos) GV_F1(asin) GV_F1(atan) GV_F1(sqrt) GV_F1(exp) GV_F1(log) GV_F1(fabs)
inline cpp_dec_float_100 abs(cpp_dec_float_100 a) { return cpp_dec_float_100(std::fabs(a.v)); }
inline cpp_dec_float_100 atan2(cpp_dec_float_100 a, cpp_dec_float_100 b) { return cpp_dec_float_100(std::atan2(a.v,b.v)); }
inline cpp_dec_float_100 pow(cpp_dec_float_100 a, cpp_dec_float_100 b) { return cpp_dec_float_100(std::pow(a.v,b.v)); }
#define GV_OP(o) inline cpp_dec_float_100 operator o(cpp_dec_float_100 a, cpp_dec_float_100 b) { return cpp_dec_float_100(a.v o b.v); } inline cpp_dec_float_100 &operator o##=(cpp_dec_float_100 &a, cpp_dec_float_100 b) { a.v=a.v o b.v; return a; }
GV_OP(+) GV_OP(-) GV_OP(*) GV_OP(/)
#define GV_CMP(o) inline bool operator o(cpp_dec_float_100 a, cpp_dec_float_100 b) { return a.v o b.v; }
GV_CMP(<) GV_CMP(>) GV_CMP(<=) GV_CMP(>=) GV_CMP(==) GV_CMP(!=)
inline cpp_dec_float_100 operator-(cpp_dec_float_100 a) { return cpp_dec_float_100(-a.v); }
typedef cpp_dec_float_100 cpp_dec_float_50;
} }
#endif
