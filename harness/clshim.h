// OpenCL C on the host: address spaces vanish, built-ins map to <cmath>.
#include <cmath>
#include <utility>
#include <type_traits>
#include <cstddef>
#include "clrt.h"
#define __kernel
#define __global
#define __constant const
#define __local static
#define __private
#define __read_only
#define __write_only
#define __attribute__(x)
#define global
#define constant const
#define kernel
#undef M_PI
#define M_PI 3.14159265358979323846264338328
#ifndef M_PI_F
#define M_PI_F 3.14159265358979323846f
#endif
#define restrict
#define CLK_LOCAL_MEM_FENCE 1
#define CLK_GLOBAL_MEM_FENCE 2
namespace clb {
using std::fabs; using std::sqrt; using std::rint; using std::acos; using std::asin; using std::atan; using std::atan2; using std::cos; using std::sin; using std::tan;
using std::exp; using std::log; using std::pow; using std::floor; using std::ceil; using std::round; using std::trunc; using std::fmin; using std::fmax; using std::fmod;
using std::hypot; using std::fma; using std::isnan; using std::isinf; using std::isfinite; using std::copysign; using std::cbrt;
typedef unsigned int uint; typedef unsigned long ulong; typedef unsigned char uchar; typedef unsigned short ushort;
inline size_t get_global_id(unsigned d) { return clrt::gid(d); }
inline size_t get_global_size(unsigned d) { return clrt::gsize(d); }
inline size_t get_local_id(unsigned d) { return clrt::lid(d); }
inline size_t get_local_size(unsigned d) { return clrt::lsize(d); }
inline size_t get_group_id(unsigned d) { return clrt::gid(d) / clrt::lsize(d); }
inline size_t get_num_groups(unsigned d) { return clrt::gsize(d) / clrt::lsize(d); }
inline size_t get_global_offset(unsigned) { return 0; }
inline unsigned get_work_dim() { return 1; }
#define CLF1(n, e) inline float n(float x) { return e; } inline double n(double x) { return e; } inline double n(int x) { return n((double)x); }
CLF1(native_sqrt, std::sqrt(x)) CLF1(half_sqrt, std::sqrt(x)) CLF1(native_cos, std::cos(x)) CLF1(native_sin, std::sin(x)) CLF1(native_exp, std::exp(x)) CLF1(native_log, std::log(x))
CLF1(rsqrt, 1 / std::sqrt(x)) CLF1(native_rsqrt, 1 / std::sqrt(x)) CLF1(native_recip, 1 / x) CLF1(acospi, std::acos(x) / M_PI) CLF1(sign, (x > 0) - (x < 0)) CLF1(degrees, x * 180 / M_PI) CLF1(radians, x * M_PI / 180)
inline double mad(double a, double b, double c) { return a * b + c; }
inline float mad(float a, float b, float c) { return a * b + c; }
inline double native_divide(double a, double b) { return a / b; }
inline float native_divide(float a, float b) { return a / b; }
template <class T, class U> inline typename std::common_type<T, U>::type max(T a, U b) { return a < b ? b : a; }
template <class T, class U> inline typename std::common_type<T, U>::type min(T a, U b) { return b < a ? b : a; }
template <class T, class U, class W> inline T clamp(T x, U lo, W hi) { return x < lo ? lo : x > hi ? hi : x; }
template <class T> inline T select(T a, T b, long c) { return c ? b : a; }
using std::abs;
template <class T> inline int convert_int(T x) { return (int)x; }
template <class T> inline int convert_int_rte(T x) { return (int)std::rint(x); }
template <class T> inline int convert_int_rtz(T x) { return (int)x; }
template <class T> inline int convert_int_rtn(T x) { return (int)std::floor(x); }
template <class T> inline double convert_double(T x) { return (double)x; }
template <class T> inline float convert_float(T x) { return (float)x; }
inline void mem_fence(int) {}
}
