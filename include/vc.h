// Contract primitives of the harnesses.  The verifier (vc/) gives them their symbolic meaning;
// native/vc_native.cpp gives them a run-time meaning for replays and random runs.
#ifndef VERIF_VC_H
#define VERIF_VC_H
#include <cstddef>
#include <cstdint>
extern "C"
{
long vc_i(const char* name, long lo, long hi);                    // any integer in [lo,hi]
long vc_sz(const char* name, long lo, long hi);                   // same, a size (kept small in native runs)
double vc_r(const char* name, double lo, double hi);              // any finite real in [lo,hi]
double vc_x(const char* name);                                    // any double, NaN and infinities included
bool vc_b(const char* name);
long vc_pick(const char* name, long n);                           // case split 0..n-1
long vc_skolem(const char* name, long lo, long hi);               // arbitrary but fixed index (history instantiation)
void vc_assume(bool c);                                           // precondition / contract hypothesis
void vc_prove(bool c, const char* label);                         // obligation
void vc_lemma(bool c, const char* label);                         // obligation, then usable as a fact
void vc_eq(double a, double b, const char* label);                // obligation a == b (native: tolerance)
void vc_le(double a, double b, const char* label);                // obligation a <= b (native: tolerance)
void vc_eqt(double a, double b, double tol, const char* label);   // same with explicit native tolerance
void vc_let(double a, double b, double tol, const char* label);
void vc_cover(const char* label);                                 // vacuity guard: must be reachable
void vc_watch_(const void* p, int kind);                          // candidate invariant: cell unchanged so far
void vc_fill_i(const void* p, int kind, long nv, bool inbox, long q0, long q1, long q2);
void vc_fill_r(const void* p, int kind, double nv, bool inbox, long q0, long q1, long q2);
void vc_arr_i_(void* p, long count, long stride, int kind, const char* name, long lo, long hi);
void vc_arr_r_(void* p, long count, long stride, int kind, const char* name, double lo, double hi);
void vc_use(long v);
void vc_user(double v);
void vc_ghost_i(const char* name, long v);                       // value the invariant templates of the property may use
void vc_ghost_r(const char* name, double v);
void vc_map_(const void* cell, int kind, const char* name, double lo, double hi);
long vc_cell_i(const char* name, long p0, long p1, long p2, int dim, long lo, long hi);
double vc_cell_r(const char* name, long p0, long p1, long p2, int dim, double lo, double hi);
void vc_hint(bool (*fn)());                                       // candidate invariant of every loop from here on
void vc_done_(bool (*fn)(), int n, long q0, long q1, long q2, long q3);  // candidate: true once the loops have passed the coordinates
void* vc_alloc_(long elsize);                                     // arbitrarily long sequence (container contracts)
void vc_link_(void* p, const std::size_t* n, long elsize);        // its valid part is *n elements
void vc_clone_(void* dst, const void* src);
void vc_rfill_(void* p, long lo, long hi, const void* proto, long size);
void vc_rshift_(void* p, long from, long delta);
long vc_bytes_(const void* p);
long vc_fresh_(void);                                             // any value (version of a container contract)
long vc_uf_i_(const char* name, long lo, long hi, long a, long b, long c, long d, long e, long f);      // uninterpreted functions
double vc_uf_r_(const char* name, double lo, double hi, long a, long b, long c, long d, long e, long f);
bool vc_uf_b_(const char* name, long a, long b, long c, long d, long e, long f);
bool vc_native(void);                                             // true in native runs, false in the proof
}
template <class T> struct vc_kind;
template <> struct vc_kind<bool> { enum { v = 1 }; };
template <> struct vc_kind<char> { enum { v = 1 }; };
template <> struct vc_kind<signed char> { enum { v = 1 }; };
template <> struct vc_kind<unsigned char> { enum { v = 1 }; };
template <> struct vc_kind<short> { enum { v = 2 }; };
template <> struct vc_kind<int> { enum { v = 4 }; };
template <> struct vc_kind<unsigned> { enum { v = 4 }; };
template <> struct vc_kind<long> { enum { v = 8 }; };
template <> struct vc_kind<unsigned long> { enum { v = 8 }; };
template <> struct vc_kind<float> { enum { v = 104 }; };
template <> struct vc_kind<double> { enum { v = 108 }; };
template <class T> inline void vc_watch(const T& c) { vc_watch_(&c, vc_kind<T>::v); }
template <class T> inline void vc_fill(const T& c, T nv, bool inbox, long q0, long q1, long q2)
{
  if (vc_kind<T>::v > 100)
    vc_fill_r(&c, vc_kind<T>::v, nv, inbox, q0, q1, q2);
  else
    vc_fill_i(&c, vc_kind<T>::v, nv, inbox, q0, q1, q2);
}
template <class T> inline void vc_arr(T* p, long n, const char* name, double lo, double hi)
{
  if (vc_kind<T>::v > 100)
    vc_arr_r_(p, n, sizeof(T), vc_kind<T>::v, name, lo, hi);
  else
    vc_arr_i_(p, n, sizeof(T), vc_kind<T>::v, name, (long)lo, (long)hi);
}
template <class C, class T> inline void vc_put(C& c, T v) { c = C(v); }
// arbitrary contents of a grid map, named for replays
template <class T, class M, class V>
inline void vc_map(M& gm, const V& size, int dim, const char* name, double lo, double hi)
{
  V p;
  if (vc_native())
  {
    for (p[0] = 0; p[0] < size[0]; ++p[0])
      for (p[1] = 0; p[1] < size[1]; ++p[1])
        for (long a = 0; a < (dim > 2 ? (long)size[2] : 1L); ++a)
        {
          if (dim > 2)
            p[2] = a;
          vc_put(gm[p], vc_kind<T>::v > 100 ? (T)vc_cell_r(name, p[0], p[1], a, dim, lo, hi) : (T)vc_cell_i(name, p[0], p[1], a, dim, (long)lo, (long)hi));
        }
  }
  else
    vc_map_(&gm[p], vc_kind<T>::v, name, lo, hi);
}
#define VC_ENTRY extern "C" void
#endif
