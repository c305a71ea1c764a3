// Stand-in for Julia's C interface and CxxWrap's jlcxx, as far as DREAM uses them (Julia is not present here).
#pragma once
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

struct jl_value_t { int is_float = 0; size_t dims = 0; };            // a type: element type, dimensions
typedef jl_value_t jl_datatype_t;
struct jl_array_t { void *data; size_t length, nrows, ncols, ndims; bool is_float; };
extern "C" {
extern jl_datatype_t *jl_float64_type, *jl_float32_type;
jl_value_t *jl_apply_array_type(jl_value_t *type, size_t dims);
jl_array_t *jl_alloc_array_2d(jl_value_t *atype, size_t nr, size_t nc);
jl_array_t *jl_alloc_array_1d(jl_value_t *atype, size_t n);
}
#define jl_array_data(a) ((void *)((jl_array_t *)(a))->data)
#define jl_array_len(a) (((jl_array_t *)(a))->length)
#define jl_array_nrows(a) (((jl_array_t *)(a))->nrows)
#define jl_array_ncols(a) (((jl_array_t *)(a))->ncols)
#define jl_array_dim(a, i) ((i) == 0 ? ((jl_array_t *)(a))->nrows : (i) == 1 ? ((jl_array_t *)(a))->ncols : (size_t)1)
#define jl_array_ndims(a) (((jl_array_t *)(a))->ndims)

namespace jlcxx {
template <class T, int Dim = 1> class ArrayRef {
public:
  ArrayRef(jl_array_t *a) : m_a(a) {
    if (!a || a->ndims != (size_t)Dim || a->is_float != std::is_same<T, float>::value) throw std::logic_error("ArrayRef of another type than the array");
  }
  jl_array_t *wrapped() const { return m_a; }
  T *data() const { return (T *)m_a->data; }
  size_t size() const { return m_a->length; }
  T &operator[](size_t i) const { return data()[i]; }
  T *begin() const { return data(); }
  T *end() const { return data() + size(); }
private:
  jl_array_t *m_a;
};
struct MethodError { std::string what; };                              // no method matches the arguments
// What the Julia side holds; the array in the number of dimensions asked for.
struct Value {
  enum { ARRAY, NUMBER, STRING, OTHER } kind = OTHER;
  std::vector<jl_array_t *> as;        // the same data as vector (if it is one) and matrix
  double num = 0; bool is_float = false;
  std::string str;
};
template <class A> struct Conv;
template <class T, int D> struct Conv<ArrayRef<T, D>> {
  static ArrayRef<T, D> from(const Value &v) {
    if (v.kind == Value::ARRAY) for (jl_array_t *a : v.as) if (a->ndims == (size_t)D && a->is_float == std::is_same<T, float>::value) return ArrayRef<T, D>(a);
    throw MethodError{"no method for this array"};
  }
};
template <> struct Conv<double> { static double from(const Value &v) { if (v.kind != Value::NUMBER || v.is_float) throw MethodError{"not a Float64"}; return v.num; } };
template <> struct Conv<float> { static float from(const Value &v) { if (v.kind != Value::NUMBER || !v.is_float) throw MethodError{"not a Float32"}; return (float)v.num; } };
template <> struct Conv<std::string> { static std::string from(const Value &v) { if (v.kind != Value::STRING) throw MethodError{"not a String"}; return v.str; } };
template <class A> using arg_t = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template <class T, int D> jl_array_t *boxed(const ArrayRef<T, D> &a) { return a.wrapped(); }

class Module {
public:
  typedef std::function<jl_array_t *(const std::vector<Value> &)> Fn;
  template <class R, class... A> void method(const std::string &name, R (*f)(A...)) {
    m.push_back({name, [f](const std::vector<Value> &v) -> jl_array_t * {
      if (v.size() != sizeof...(A)) throw MethodError{"no method with " + std::to_string(v.size()) + " arguments"};
      return apply(f, v, std::index_sequence_for<A...>());
    }});
  }
  std::vector<std::pair<std::string, Fn>> m;
private:
  template <class R, class... A, size_t... I> static jl_array_t *apply(R (*f)(A...), const std::vector<Value> &v, std::index_sequence<I...>) { return boxed(f(Conv<arg_t<A>>::from(v[I])...)); }
};
} // namespace jlcxx
#define JLCXX_MODULE extern "C" __attribute__((visibility("default"))) void
