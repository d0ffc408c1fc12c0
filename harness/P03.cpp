// Orientation wrap-around of grid vectors and the range tests guarding every map access.
#include <cmath>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <vc.h>
using namespace planner_cspace;
typedef CyclicVecInt<3, 2> Vec;
typedef CyclicVecInt<4, 2> Vec4;

static Vec anyVec(const char* a, const char* b, const char* c, long lim)
{
  Vec v;
  v[0] = vc_i(a, -lim, lim);
  v[1] = vc_i(b, -lim, lim);
  v[2] = vc_i(c, -lim, lim);
  return v;
}
static const long LIM = 1 << 30;

// cycleUnsigned: result in [0,res), congruent, position part untouched
VC_ENTRY cycle_unsigned()
{
  Vec v = anyVec("x", "y", "a", LIM);
  const Vec o = v;
  const int res = vc_i("res", 1, 1 << 20);
  const bool byvec = vc_b("byvec");
  if (byvec)
  {
    Vec r;
    r[0] = vc_i("r0", -LIM, LIM);
    r[1] = vc_i("r1", -LIM, LIM);
    r[2] = res;
    v.cycleUnsigned(r);
  }
  else
    v.cycleUnsigned(res);
  vc_prove((v[2] >= 0) & (v[2] < res), "cycleUnsigned yields an angle index in [0, n)");
  const long k = ((long)v[2] - o[2]) / res;
  vc_prove((long)v[2] - o[2] == k * res, "cycleUnsigned keeps the angle class modulo n");
  vc_prove((v[0] == o[0]) & (v[1] == o[1]), "cycleUnsigned leaves the position alone");
  // idempotent
  Vec w = v;
  w.cycleUnsigned(res);
  vc_prove(w == v, "cycleUnsigned is idempotent");
  vc_cover("end");
}
// cycle: balanced representative
VC_ENTRY cycle_signed()
{
  Vec v = anyVec("x", "y", "a", LIM);
  const Vec o = v;
  const int res = vc_i("res", 1, 1 << 20);
  if (vc_b("byvec"))
  {
    Vec r;
    r[0] = vc_i("r0", -1000, 1000);
    r[1] = vc_i("r1", -1000, 1000);
    r[2] = res;
    v.cycle(r);
  }
  else
    v.cycle(res);
  vc_prove((2L * v[2] >= -(long)res - 1) & (2L * v[2] < (long)res), "cycle yields the balanced angle index");
  const long k = ((long)v[2] - o[2]) / res;
  vc_prove((long)v[2] - o[2] == k * res, "cycle keeps the angle class modulo n");
  vc_prove((v[0] == o[0]) & (v[1] == o[1]), "cycle leaves the position alone");
  // equal classes are mapped to equal representatives
  Vec u = o;
  const long m = vc_i("m", -1000, 1000);
  const long a2 = (long)o[2] + m * res;
  vc_assume((a2 <= LIM) & (a2 >= -LIM));
  u[2] = (int)a2;
  u.cycle(res);
  vc_prove(u[2] == v[2], "angles one turn apart get the same index");
  vc_cover("end");
}
// two cyclic components: each is normalised with its own modulus
VC_ENTRY cycle_two()
{
  Vec4 v;
  for (int i = 0; i < 4; i++)
    v[i] = vc_i("e", -LIM, LIM);
  const Vec4 o = v;
  const int n2 = vc_i("n2", 1, 1 << 20), n3 = vc_i("n3", 1, 1 << 20);
  if (vc_b("byvec"))
  {
    Vec4 r(1, 1, 1, 1);
    r[2] = n2;
    r[3] = n3;
    v.cycleUnsigned(r);
  }
  else
    v.cycleUnsigned(n2, n3);
  vc_prove((v[2] >= 0) & (v[2] < n2) & (v[3] >= 0) & (v[3] < n3), "every cyclic component is normalised by its own modulus");
  vc_prove(((long)v[2] - o[2]) % n2 == 0, "first cyclic component keeps its class");
  vc_prove(((long)v[3] - o[3]) % n3 == 0, "second cyclic component keeps its class");
  vc_prove((v[0] == o[0]) & (v[1] == o[1]), "position part unchanged");
  vc_cover("end");
}
VC_ENTRY exceeded()
{
  const Vec v = anyVec("x", "y", "a", LIM);
  Vec s;
  s[0] = vc_i("s0", 0, LIM);
  s[1] = vc_i("s1", 0, LIM);
  s[2] = vc_i("s2", -LIM, LIM);
  const bool inside = (v[0] >= 0) & (v[0] < s[0]) & (v[1] >= 0) & (v[1] < s[1]);
  vc_prove(v.isExceeded(s) == !inside, "out-of-map test is exact");
  vc_cover("end");
}
VC_ENTRY validate()
{
  BlockMemGridmap<char, 3, 2> gm;
  Vec s;
  s[0] = vc_sz("s0", 1, 1 << 12);
  s[1] = vc_sz("s1", 1, 1 << 12);
  s[2] = vc_sz("s2", 1, 1 << 7);
  gm.reset(s);
  const Vec v = anyVec("x", "y", "a", LIM);
  const int tol = vc_i("tol", 0, 1000);
  const bool in0 = (v[0] >= tol) & (v[0] < s[0] - tol) & (v[1] >= tol) & (v[1] < s[1] - tol) & (v[2] >= 0) & (v[2] < s[2]);
  vc_prove(gm.validate(v, tol) == in0, "map validity test with margin is exact");
  const bool in1 = (v[0] >= 0) & (v[0] < s[0]) & (v[1] >= 0) & (v[1] < s[1]) & (v[2] >= 0) & (v[2] < s[2]);
  vc_prove(gm.validate(v) == in1, "map validity test is exact");
  vc_prove(gm.size() == s, "size() returns the size given");
  vc_cover("end");
}
// component-wise arithmetic
VC_ENTRY arith()
{
  const Vec a = anyVec("ax", "ay", "aa", LIM / 2), b = anyVec("bx", "by", "ba", LIM / 2);
  const Vec p = a + b, m = a - b;
  const long i = vc_pick("i", 3);
  vc_prove((long)p[i] == (long)a[i] + b[i], "sum is component-wise");
  vc_prove((long)m[i] == (long)a[i] - b[i], "difference is component-wise");
  const bool eq = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]);
  vc_prove((a == b) == eq, "equality is component-wise");
  vc_prove((a != b) == !eq, "inequality is component-wise");
  vc_prove(!(a == b) | (a(a) == b(b)), "equal vectors have equal hashes");
  vc_cover("end");
}
