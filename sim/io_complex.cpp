#include "io.hpp"
#ifdef VERIF_DROPPED // does not compile against the present tree
#define MAKE(f, T) Obj *f(int, int k, size_t r, size_t c, uint64_t s, int st) { return make_d(E_DOUBLE, k, r, c, s, st); }
#else
#define MAKE(f, T) Obj *f(int t, int k, size_t r, size_t c, uint64_t s, int st) { return new ObjT<T>(t, k, r, c, s, st); }
#endif
Obj *make_d(int, int, size_t, size_t, uint64_t, int);
MAKE(make_cd, cd)
MAKE(make_cf, std::complex<float>)
