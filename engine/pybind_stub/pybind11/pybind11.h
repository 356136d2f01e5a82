// Verification stand-in for pybind11: just enough of the public interface for
// riptide's bindings to be compiled to LLVM IR and executed symbolically.
// Arrays are views of memory owned by the symbolic executor.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>

#define PYBIND11_NAMESPACE pybind11

extern "C" {
void *vp_array_alloc(size_t elemsize, size_t nelem);
void vp_register(const char *name, void *tramp, void *fn, const char *ret);
void vp_register_ret(size_t index, const char *type);
void vp_register_type(size_t index, const char *type);
void vp_register_arg(size_t index, const char *name, int has_default, double dflt);
[[noreturn]] void vp_raise(const char *kind);
}

namespace pybind11 {

using ssize_t = ::ssize_t;
using size_t = ::size_t;

namespace detail {
struct npy_api {
    enum constants {
        NPY_ARRAY_C_CONTIGUOUS_ = 0x0001,
        NPY_ARRAY_F_CONTIGUOUS_ = 0x0002,
        NPY_ARRAY_OWNDATA_ = 0x0004,
        NPY_ARRAY_FORCECAST_ = 0x0010,
        NPY_ARRAY_ENSUREARRAY_ = 0x0040,
        NPY_ARRAY_ALIGNED_ = 0x0100,
        NPY_ARRAY_WRITEABLE_ = 0x0400
    };
};
inline bool check_flags(const void *, int) { return true; }
} // namespace detail

class index_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class value_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class type_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };

// Same layout as the executor's array descriptor (engine/cppsym.py)
struct vp_desc {
    void *ptr;
    size_t nd;
    size_t dims[4];
    ssize_t strides[4]; // bytes
    size_t flags;
    size_t itemsize;
};

struct handle { };
struct object : handle { };
struct none : object { };

struct arg_v;
struct arg {
    const char *name;
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    template <typename T> arg_v operator=(T &&v) const;
    arg &noconvert(bool = true) { return *this; }
};
struct arg_v : arg {
    double value;
    arg_v(const char *n, double v) : arg(n), value(v) {}
    arg_v &noconvert(bool = true) { return *this; }
};
template <typename T> arg_v arg::operator=(T &&v) const { return arg_v(name, double(v)); }

namespace literals { constexpr arg operator"" _a(const char *n, size_t) { return arg(n); } }

template <typename... T> struct call_guard { };
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
struct doc { const char *s; doc(const char *s) : s(s) {} };

template <typename... A> std::tuple<typename std::decay<A>::type...> make_tuple(A &&...a)
{ return std::tuple<typename std::decay<A>::type...>(std::forward<A>(a)...); }

} // namespace pybind11

#include "numpy.h"
