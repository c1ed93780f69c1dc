// Minimal stand-in for pybind11, used only to lower the kernel to LLVM IR.
#ifndef VF_PYBIND_STUB
#define VF_PYBIND_STUB
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <new>
#include <string>
#include <vector>
#include <utility>
#include <type_traits>
extern "C" {
void *vf_alloc(long bytes);
void vf_reg_fn(const char *name, void *thunk, void *fn, long retsize);
void vf_reg_member(const char *name, long offset, int kind);  // kind: 0 double 1 float 2 array<float> 3 array<double> 4 int
}
namespace pybind11 {
typedef long ssize_t;
struct buffer_info { void *ptr; long itemsize; long size; long ndim; };
template <class T> struct vf_ref { T *p; T &operator()(long i) { return p[i]; } T &operator[](long i) { return p[i]; } long shape(int) const; };
enum { VF_CSTYLE = 1 };
struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
template <class T, int F = 16> struct array_t {
    T *vf_p; long vf_n;
    array_t() : vf_p(nullptr), vf_n(0) {}
    array_t(long n) : vf_p((T *)vf_alloc(n * (long)sizeof(T))), vf_n(n) {}
    array_t(int n) : array_t((long)n) {}
    array_t(size_t n) : array_t((long)n) {}
    array_t(std::initializer_list<long> s) : vf_p(nullptr), vf_n(1) { for (long k : s) vf_n *= k; vf_p = (T *)vf_alloc(vf_n * (long)sizeof(T)); }
    buffer_info request(bool = false) const { return buffer_info{(void *)vf_p, (long)sizeof(T), vf_n, 1}; }
    T *mutable_data() { return vf_p; }
    T *mutable_data(long i) { return vf_p + i; }
    const T *data() const { return vf_p; }
    const T *data(long i) const { return vf_p + i; }
    T &mutable_at(long i) { return vf_p[i]; }
    const T &at(long i) const { return vf_p[i]; }
    long size() const { return vf_n; }
    long ndim() const { return 1; }
    template <int N> vf_ref<T> mutable_unchecked() { return vf_ref<T>{vf_p}; }
    template <int N> vf_ref<T> unchecked() { return vf_ref<T>{vf_p}; }
};
template <class M> struct vf_kind { enum { v = 9 }; };
template <> struct vf_kind<double> { enum { v = 0 }; };
template <> struct vf_kind<float> { enum { v = 1 }; };
template <int F> struct vf_kind<array_t<float, F>> { enum { v = 2 }; };
template <int F> struct vf_kind<array_t<double, F>> { enum { v = 3 }; };
template <> struct vf_kind<int> { enum { v = 4 }; };
template <class R, class A, class B, class C> __attribute__((noinline, used)) void vf_thunk(void *f, long a, long b, long c, void *out) {
    R (*g)(A, B, C) = (R (*)(A, B, C))f;
    new (out) R(g((A)a, (B)b, (C)c));
}
struct arg { arg(const char *) {} };
inline arg operator""_a(const char *s, size_t) { return arg(s); }
namespace literals {}
struct gil_scoped_release {}; 
template <class T> struct call_guard {};
struct module_ {
    template <class R, class A, class B, class C, class... X> module_ &def(const char *n, R (*f)(A, B, C), const X &...) {
        vf_reg_fn(n, (void *)&vf_thunk<R, A, B, C>, (void *)f, (long)sizeof(R));
        return *this;
    }
    template <class F, class... X> module_ &def(const char *, F, const X &...) { return *this; }
    template <class T> module_ &attr(const T &) { return *this; }
    const char *vf_doc;
    const char *&doc() { return vf_doc; }
};
typedef module_ module;
template <class T, class... O> struct class_ {
    template <class S, class... X> class_(S &, const char *, const X &...) {}
    template <class M, class... X> class_ &def_readwrite(const char *n, M T::*pm, const X &...) {
        vf_reg_member(n, (long)(char *)&(((T *)64)->*pm) - 64, vf_kind<M>::v);
        return *this;
    }
    template <class M, class... X> class_ &def_readonly(const char *n, M T::*pm, const X &...x) { return def_readwrite(n, pm, x...); }
    template <class... X> class_ &def(const X &...) { return *this; }
    template <class... X> class_ &def_property_readonly(const X &...) { return *this; }
};
template <class... A> struct init {};
}  // namespace pybind11
#define PYBIND11_MODULE(name, m) extern "C" void vf_module(pybind11::module_ &m)
#endif
