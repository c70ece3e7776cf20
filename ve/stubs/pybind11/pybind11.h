#pragma once
namespace pybind11 {
struct buffer_info { void *ptr; long size; };
template <class T> struct array_t { array_t(long n); buffer_info request(); T *mutable_data(); long size(); };
struct module_ { template <class... A> module_ &def(A...); };
template <class T> struct class_ { template <class... A> class_(A...); template <class... A> class_ &def_readwrite(A...); template <class... A> class_ &def(A...); };
}
#define PYBIND11_MODULE(name, m) static void pybind_init_##name(pybind11::module_ &m)
