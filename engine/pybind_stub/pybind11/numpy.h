#pragma once
#include "pybind11.h"

namespace pybind11 {

struct buffer_info {
    void *ptr; ssize_t itemsize; ssize_t size; std::string format; ssize_t ndim;
    std::vector<ssize_t> shape; std::vector<ssize_t> strides;
};

class array : public object {
public:
    vp_desc d;
    enum { c_style = detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_,
           f_style = detail::npy_api::NPY_ARRAY_F_CONTIGUOUS_,
           forcecast = detail::npy_api::NPY_ARRAY_FORCECAST_ };
    array() { d.ptr = nullptr; d.nd = 1; d.dims[0] = 0; d.flags = 0x501; d.itemsize = 1; }
    explicit array(const vp_desc &x) : d(x) {}
    array(const array &o) : d(o.d) {}
    array &operator=(const array &o) { d = o.d; return *this; }
    ~array() {}

    template <typename It> void vp_init(It b, It e, size_t isz)
    {
        size_t n = 1; d.nd = 0; d.itemsize = isz;
        for (; b != e; ++b) { d.dims[d.nd++] = size_t(*b); n *= size_t(*b); }
        ssize_t s = isz;
        for (size_t i = d.nd; i-- > 0;) { d.strides[i] = s; s *= d.dims[i]; }
        d.flags = 0x0501;
        d.ptr = vp_array_alloc(isz, n);
    }

    ssize_t size() const { size_t n = 1; for (size_t i = 0; i < d.nd; ++i) n *= d.dims[i]; return n; }
    ssize_t ndim() const { return d.nd; }
    ssize_t itemsize() const { return d.itemsize; }
    ssize_t nbytes() const { return size() * d.itemsize; }
    const ssize_t *shape() const { return reinterpret_cast<const ssize_t *>(d.dims); }
    ssize_t shape(ssize_t i) const { if (size_t(i) >= d.nd) vp_raise("IndexError"); return d.dims[i]; }
    const ssize_t *strides() const { return d.strides; }
    ssize_t strides(ssize_t i) const { if (size_t(i) >= d.nd) vp_raise("IndexError"); return d.strides[i]; }
    int flags() const { return int(d.flags); }
    bool writeable() const { return true; }
    buffer_info request(bool = false) const
    {
        buffer_info b; b.ptr = d.ptr; b.itemsize = d.itemsize; b.size = size(); b.ndim = d.nd;
        for (size_t i = 0; i < d.nd; ++i) { b.shape.push_back(d.dims[i]); b.strides.push_back(d.strides[i]); }
        return b;
    }
    template <typename... Ix> ssize_t vp_offset(Ix... ix) const
    {
        ssize_t idx[] = {ssize_t(ix)..., 0};
        if (sizeof...(ix) > d.nd) vp_raise("IndexError");
        ssize_t off = 0;
        for (size_t i = 0; i < sizeof...(ix); ++i) off += idx[i] * d.strides[i];
        return off;
    }
    // as pybind11: data(i...) / mutable_data(i...) / at(i...) check their indices
    template <typename... Ix> void vp_check(Ix... ix) const
    {
        ssize_t idx[] = {ssize_t(ix)..., 0};
        if (sizeof...(ix) > d.nd) vp_raise("IndexError");
        for (size_t i = 0; i < sizeof...(ix); ++i)
            if (size_t(idx[i]) >= d.dims[i]) vp_raise("IndexError");
    }
};

template <typename T, ssize_t Dims> struct vp_proxy {
    vp_desc d;
    ssize_t ndim() const { return d.nd; }
    ssize_t size() const { size_t n = 1; for (size_t i = 0; i < d.nd; ++i) n *= d.dims[i]; return n; }
    ssize_t nbytes() const { return size() * sizeof(T); }
    ssize_t itemsize() const { return sizeof(T); }
    ssize_t shape(ssize_t i) const { return d.dims[i]; }
    template <typename... Ix> T &operator()(Ix... ix) const
    {
        ssize_t idx[] = {ssize_t(ix)..., 0}; ssize_t off = 0;
        for (size_t i = 0; i < sizeof...(ix); ++i) off += idx[i] * d.strides[i];
        return *reinterpret_cast<T *>(static_cast<char *>(d.ptr) + off);
    }
    T &operator[](ssize_t i) const { return (*this)(i); }
    template <typename... Ix> T *data(Ix... ix) const
    {
        ssize_t idx[] = {ssize_t(ix)..., 0}; ssize_t off = 0;
        for (size_t i = 0; i < sizeof...(ix); ++i) off += idx[i] * d.strides[i];
        return reinterpret_cast<T *>(static_cast<char *>(d.ptr) + off);
    }
    template <typename... Ix> T *mutable_data(Ix... ix) const { return data(ix...); }
};

template <typename T, int Extra = array::forcecast> class array_t : public array {
public:
    using value_type = T;
    array_t() : array() { }
    explicit array_t(const vp_desc &x) : array(x) {}
    array_t(const array_t &o) : array(o.d) {}
    template <int E2> array_t(const array_t<T, E2> &o) : array(o.d) {}
    array_t &operator=(const array_t &o) { d = o.d; return *this; }
    template <typename I> array_t(std::initializer_list<I> s) { vp_init(s.begin(), s.end(), sizeof(T)); }
    template <typename I> explicit array_t(const std::vector<I> &s) { vp_init(s.begin(), s.end(), sizeof(T)); }
    explicit array_t(size_t n, const T *src = nullptr)
    { vp_init(&n, &n + 1, sizeof(T)); if (src) for (size_t i = 0; i < n; ++i) static_cast<T *>(d.ptr)[i] = src[i]; }
    explicit array_t(int n) : array_t(size_t(n)) {}
    explicit array_t(ssize_t n) : array_t(size_t(n)) {}

    template <typename... Ix> const T *data(Ix... ix) const
    { vp_check(ix...); return reinterpret_cast<const T *>(static_cast<const char *>(d.ptr) + vp_offset(ix...)); }
    template <typename... Ix> T *mutable_data(Ix... ix)
    { vp_check(ix...); return reinterpret_cast<T *>(static_cast<char *>(d.ptr) + vp_offset(ix...)); }
    template <typename... Ix> const T &at(Ix... ix) const { return *data(ix...); }
    template <typename... Ix> T &mutable_at(Ix... ix) { return *mutable_data(ix...); }
    template <ssize_t Dims = -1> vp_proxy<const T, Dims> unchecked() const
    { if (Dims >= 0 && size_t(Dims) != d.nd) vp_raise("ValueError"); vp_proxy<const T, Dims> p; p.d = d; return p; }
    template <ssize_t Dims = -1> vp_proxy<T, Dims> mutable_unchecked()
    { if (Dims >= 0 && size_t(Dims) != d.nd) vp_raise("ValueError"); vp_proxy<T, Dims> p; p.d = d; return p; }
};

// ---- generic calling convention used by the executor -----------------------
struct vp_val { uint64_t u; double f; vp_desc d; };

template <typename T> struct vp_type;
#define VP_SCALAR(T, NAME, FIELD) \
    template <> struct vp_type<T> { \
        static const char *name() { return NAME; } \
        static T get(vp_val *v) { return static_cast<T>(v->FIELD); } \
        static void put(vp_val *v, T x) { v->FIELD = static_cast<decltype(v->FIELD)>(x); } };
VP_SCALAR(bool, "bool", u)
VP_SCALAR(int, "i32", u)
VP_SCALAR(unsigned, "u32", u)
VP_SCALAR(long, "i64", u)
VP_SCALAR(unsigned long, "u64", u)
VP_SCALAR(long long, "i64", u)
VP_SCALAR(unsigned long long, "u64", u)
VP_SCALAR(float, "f32", f)
VP_SCALAR(double, "f64", f)

template <typename T> struct vp_dtype;
template <> struct vp_dtype<float> { static const char *name() { return "array:f4"; } static const char *cname() { return "carray:f4"; } };
template <> struct vp_dtype<double> { static const char *name() { return "array:f8"; } static const char *cname() { return "carray:f8"; } };
template <> struct vp_dtype<int32_t> { static const char *name() { return "array:i4"; } static const char *cname() { return "carray:i4"; } };
template <> struct vp_dtype<uint32_t> { static const char *name() { return "array:u4"; } static const char *cname() { return "carray:u4"; } };
template <> struct vp_dtype<int64_t> { static const char *name() { return "array:i8"; } static const char *cname() { return "carray:i8"; } };
template <> struct vp_dtype<uint64_t> { static const char *name() { return "array:u8"; } static const char *cname() { return "carray:u8"; } };

template <typename T, int E> struct vp_type<array_t<T, E>> {
    static const char *name() { return (E & array::c_style) ? vp_dtype<T>::cname() : vp_dtype<T>::name(); }
    static array_t<T, E> get(vp_val *v) { return array_t<T, E>(v->d); }
    static void put(vp_val *v, const array_t<T, E> &x) { v->d = x.d; }
};
template <typename... A> struct vp_type<std::tuple<A...>> {
    static const char *name()
    {
        size_t i = 0;
        (void)std::initializer_list<int>{(vp_register_ret(i++, vp_type<A>::name()), 0)...};
        return "tuple";
    }
    template <size_t... I> static void put_(vp_val *v, const std::tuple<A...> &x, std::index_sequence<I...>)
    { (void)std::initializer_list<int>{(vp_type<A>::put(v + I, std::get<I>(x)), 0)...}; }
    static void put(vp_val *v, const std::tuple<A...> &x) { put_(v, x, std::index_sequence_for<A...>()); }
};
template <typename A, typename B> struct vp_type<std::pair<A, B>> {
    static const char *name() { return vp_type<std::tuple<A, B>>::name(); }
    static void put(vp_val *v, const std::pair<A, B> &x) { vp_type<A>::put(v, x.first); vp_type<B>::put(v + 1, x.second); }
};
template <> struct vp_type<void> { static const char *name() { return "void"; } };

template <typename R, typename... A> struct vp_tramp {
    template <size_t... I> static void call(R (*f)(A...), vp_val *a, vp_val *r, std::index_sequence<I...>)
    { vp_type<typename std::decay<R>::type>::put(r, f(vp_type<typename std::decay<A>::type>::get(a + I)...)); }
    static void run(void *f, vp_val *a, vp_val *r)
    { call(reinterpret_cast<R (*)(A...)>(f), a, r, std::index_sequence_for<A...>()); }
};
template <typename... A> struct vp_tramp<void, A...> {
    template <size_t... I> static void call(void (*f)(A...), vp_val *a, std::index_sequence<I...>)
    { f(vp_type<typename std::decay<A>::type>::get(a + I)...); }
    static void run(void *f, vp_val *a, vp_val *)
    { call(reinterpret_cast<void (*)(A...)>(f), a, std::index_sequence_for<A...>()); }
};

struct module_ {
    size_t iarg = 0;
    void extra(const char *) {}
    void extra(const doc &) {}
    void extra(const arg_v &a) { vp_register_arg(iarg++, a.name, 1, a.value); }
    void extra(const arg &a) { vp_register_arg(iarg++, a.name, 0, 0.0); }
    template <typename T> void extra(const T &) {}

    template <typename R, typename... A, typename... E> module_ &def_(const char *name, R (*f)(A...), const E &...e)
    {
        vp_register(name, reinterpret_cast<void *>(&vp_tramp<R, A...>::run), reinterpret_cast<void *>(f),
                    vp_type<typename std::decay<R>::type>::name());
        size_t i = 0;
        (void)std::initializer_list<int>{(vp_register_type(i++, vp_type<typename std::decay<A>::type>::name()), 0)..., 0};
        iarg = 0;
        (void)std::initializer_list<int>{(extra(e), 0)..., 0};
        return *this;
    }
    template <typename R, typename... A, typename... E> module_ &def(const char *name, R (*f)(A...), const E &...e)
    { return def_(name, f, e...); }
    template <typename L, typename... E, typename = decltype(+std::declval<L>())>
    module_ &def(const char *name, L f, const E &...e) { return def_(name, +f, e...); }
    const char *&doc() { static const char *d; return d; }
    struct vp_attr_ { template <typename T> void operator=(const T &) {} };
    vp_attr_ attr(const char *) { return vp_attr_(); }
};

} // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR) \
    static void vp_init_body(pybind11::module_ &VAR); \
    extern "C" void vp_module_init() { pybind11::module_ m; vp_init_body(m); } \
    static void vp_init_body(pybind11::module_ &VAR)
