// Table of moves rotated into the start frame, and the turning circles.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <list>
#include <memory>
#include <unordered_map>
#include <utility>
#include <vector>
#include <vc.h>
static long pageJ;   // the start orientation looked at: arbitrary but fixed
#ifdef VC_PROOF
// contracts of the containers used by the table: vector keeps one arbitrary page (the others are unknown), unique_ptr<T[]> owns an array
namespace std
{
template <class T>
class vc_pages
{
  T slot_, other_;
  size_t n_ = 0;

public:
  size_t size() const { return n_; }
  void resize(size_t n) { n_ = n; }
  void clear() { n_ = 0; }
  void push_back(const T&) { ++n_; }
  T& operator[](size_t i) { vc_prove(i < n_, "page index inside the table"); return (long)i == pageJ ? slot_ : other_; }
  const T& operator[](size_t i) const { vc_prove(i < n_, "page index inside the table"); return (long)i == pageJ ? slot_ : other_; }
  T& at(size_t i) { return (*this)[i]; }
  const T& at(size_t i) const { return (*this)[i]; }
};
template <class T>
class vc_uarr;
template <class T>
class vc_uarr<T[]>
{
  T* p_;
  size_t n_;

public:
  vc_uarr() : n_(0)
  {
    p_ = static_cast<T*>(vc_alloc_(sizeof(T)));
    vc_link_(p_, &n_, sizeof(T));
  }
  void reset(T* q)
  {
    vc_clone_(p_, q);
    n_ = vc_bytes_(q) / sizeof(T);
  }
  T& operator[](size_t i) const { vc_prove(i < n_, "element index inside the table"); return p_[i]; }
  T* get() const { return p_; }
};
}  // namespace std
#include <planner_cspace/cyclic_vec.h>
#define vector vc_pages
#define unique_ptr vc_uarr
#endif
#include <planner_cspace/src/rotation_cache.cpp>
using namespace planner_cspace;
using planner_3d::RotationCache;
typedef CyclicVecInt<3, 2> VI;
typedef CyclicVecFloat<3, 2> VF;
static RotationCache* cache;
static VI q;
static int range;
static float lres, ares;
static VF want;             // the displacement q seen from the start frame J
static bool motionOk()
{
  const VF& m = cache->getMotion(pageJ, q);
  return (m[0] == want[0]) & (m[1] == want[1]) & (m[2] == want[2]);
}
static int turns;
static bool shapeOk()
{
#ifdef VC_PROOF
  const RotationCache::Page& p = cache->pages_[pageJ];
  const long w = 2 * range + 1;
  return (p.size_[0] == w) & (p.size_[1] == w) & (p.size_[2] == turns) & ((long)p.c_.n_ == w * w * turns) & ((long)p.r_.n_ == w * w * turns);
#endif
  return true;
}
static int setup()
{
  const long n = vc_sz("angles", 1, 256);
  range = vc_sz("range", 0, 200);
  lres = (float)vc_r("linear_resolution", 0.01, 1);
  ares = (float)(2 * M_PI / n);
  pageJ = vc_i("start", 0, 255);
  if (vc_native())
  {
    pageJ %= n;
    range %= 12;
  }
  vc_assume(pageJ < n);
  q[0] = vc_i("q0", 0, 400);
  q[1] = vc_i("q1", 0, 400);
  q[2] = vc_i("q2", 0, 255);
  if (vc_native())
  {
    q[0] %= 2 * range + 1;
    q[1] %= 2 * range + 1;
    q[2] %= n;
  }
  vc_assume((q[0] <= 2 * range) & (q[1] <= 2 * range) & (q[2] < n));
  return n;
}
VC_ENTRY motions()
{
  const int n = setup();
  RotationCache c;
  cache = &c;
  want = VF((q[0] - range) * lres, (q[1] - range) * lres, q[2] * ares);
  want.rotate(-pageJ * ares);
  turns = n;
  vc_done_(shapeOk, 1, pageJ, 0, 0, 0);
  vc_done_(motionOk, 4, pageJ, q[0], q[1], q[2]);
  vc_done_(motionOk, 4, pageJ, q[0] - range, q[1] - range, q[2]);
  c.reset(lres, ares, range);
  const VF m = c.getMotion(pageJ, q);
  vc_eqt(m[0], want[0], 1e-3, "the tabulated motion is the displacement rotated into the start frame (x)");
  vc_eqt(m[1], want[1], 1e-3, "the tabulated motion is the displacement rotated into the start frame (y)");
  vc_eqt(m[2], want[2], 1e-3, "the tabulated motion is the displacement rotated into the start frame (turn)");
  vc_cover("end");
}
VC_ENTRY rotation()
{
  // contract of the rotation used for the table: any vector of the window, any turn that is less than one turn either way
  const double x = vc_r("x", -200, 200), y = vc_r("y", -200, 200), a = vc_r("a", 0, 2 * M_PI), g = vc_r("angle", -2 * M_PI, 0);
  VF v((float)x, (float)y, (float)a);
  v.rotate((float)g);
  const double c = std::cos((float)g), s = std::sin((float)g);
  const double ex = c * x - s * y, ey = s * x + c * y, d = v[2] - (a + g), t = 2 * M_PI;
  vc_eqt(v[0], ex, 1e-3, "rotated position (x)");
  vc_eqt(v[1], ey, 1e-3, "rotated position (y)");
  vc_eqt((double)v[0] * v[0] + (double)v[1] * v[1], x * x + y * y, 1e-3 * (1 + x * x + y * y), "a rotation keeps the length");
  vc_let(v[2], M_PI, 1e-5, "the turn is not more than half a turn");
  vc_let(-M_PI, v[2], 1e-5, "the turn is not less than minus half a turn");
  vc_prove((std::fabs(d) < 1e-4) | (std::fabs(d - t) < 1e-4) | (std::fabs(d + t) < 1e-4), "the turn is the sum of the angles up to one turn");
  vc_cover("end");
}
