// Grid map storage: every cell of the map is inside the storage and no two cells share memory.
#include <cmath>
#include <cstring>
#include <functional>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <vc.h>
using namespace planner_cspace;
typedef CyclicVecInt<3, 2> Vec;
typedef CyclicVecInt<2, 2> Vec2;
static const long DMAX = 1 << 12, AMAX = 1 << 8;

static Vec anySize(const char* a, const char* b, const char* c)
{
  Vec s;
  s[0] = vc_sz(a, 1, DMAX);
  s[1] = vc_sz(b, 1, DMAX);
  s[2] = vc_sz(c, 1, AMAX);
  return s;
}
static Vec anyCell(const Vec& s, const char* a, const char* b, const char* c)
{
  Vec p;
  p[0] = vc_i(a, 0, s[0] - 1);
  p[1] = vc_i(b, 0, s[1] - 1);
  p[2] = vc_i(c, 0, s[2] - 1);
  return p;
}
template <class M>
static void isolation(M& gm, const Vec& s)
{
  const Vec p = anyCell(s, "p0", "p1", "p2");
  const Vec q = anyCell(s, "q0", "q1", "q2");
  gm[p] = 1;
  gm[q] = 2;
  vc_prove(gm[q] == 2, "a cell holds the value last written to it");
  const bool same = (p[0] == q[0]) & (p[1] == q[1]) & (p[2] == q[2]);
  vc_prove(same | (gm[p] == 1), "writing one cell leaves every other cell alone");
  const M& cgm = gm;
  vc_prove(cgm[p] == gm[p], "read-only access sees the same cell");
  vc_cover("end");
}
template <class M>
static void resetAny(M& gm, Vec& s, const char* a, const char* b, const char* c)
{
  s = anySize(a, b, c);
  gm.reset(s);
}
VC_ENTRY fresh_char()
{
  BlockMemGridmap<char, 3, 2> gm;
  Vec s;
  resetAny(gm, s, "s0", "s1", "s2");
  isolation(gm, s);
}
VC_ENTRY fresh_float_64_checked()
{
  BlockMemGridmap<float, 3, 2, 0x40, true> gm;
  Vec s;
  resetAny(gm, s, "s0", "s1", "s2");
  isolation(gm, s);
}
VC_ENTRY constructed_float_block8()
{
  const Vec s = anySize("s0", "s1", "s2");
  BlockMemGridmap<float, 3, 2, 0x8> gm(s);
  isolation(gm, s);
}
// storage is reused or reallocated by later resets: same guarantee whatever the earlier sizes were
VC_ENTRY reset_twice()
{
  BlockMemGridmap<char, 3, 2> gm;
  Vec s;
  resetAny(gm, s, "r0", "r1", "r2");
  resetAny(gm, s, "s0", "s1", "s2");
  isolation(gm, s);
}
VC_ENTRY reset_thrice()
{
  BlockMemGridmap<float, 3, 2> gm;
  Vec s;
  resetAny(gm, s, "q0_", "q1_", "q2_");
  resetAny(gm, s, "r0", "r1", "r2");
  resetAny(gm, s, "s0", "s1", "s2");
  isolation(gm, s);
}
// the map without an angle axis
VC_ENTRY plain_2d()
{
  BlockMemGridmap<float, 2, 2> gm;
  Vec2 s;
  s[0] = vc_sz("s0", 1, DMAX);
  s[1] = vc_sz("s1", 1, DMAX);
  gm.reset(s);
  Vec2 p, q;
  p[0] = vc_i("p0", 0, s[0] - 1);
  p[1] = vc_i("p1", 0, s[1] - 1);
  q[0] = vc_i("q0", 0, s[0] - 1);
  q[1] = vc_i("q1", 0, s[1] - 1);
  gm[p] = 1;
  gm[q] = 2;
  const bool same = (p[0] == q[0]) & (p[1] == q[1]);
  vc_prove(gm[q] == 2, "a cell holds the value last written to it (2-D)");
  vc_prove(same | (gm[p] == 1), "writing one cell leaves every other cell alone (2-D)");
  vc_cover("end");
}
// checked maps: cells outside the map never touch the cells of the map
VC_ENTRY checked_outside()
{
  BlockMemGridmap<float, 3, 2, 0x20, true> gm;
  Vec s;
  resetAny(gm, s, "s0", "s1", "s2");
  const Vec p = anyCell(s, "p0", "p1", "p2");
  gm[p] = 1;
  Vec q;
  q[0] = vc_i("q0", 0, 2 * DMAX);
  q[1] = vc_i("q1", 0, 2 * DMAX);
  q[2] = vc_i("q2", 0, 2 * AMAX);
  const BlockMemGridmap<float, 3, 2, 0x20, true>& cgm = gm;
  vc_user(cgm[q]);   // the access itself is checked: inside the storage or the dummy
  vc_prove(gm[p] == 1, "reading through a checked map is harmless");
  vc_cover("end");
}
// the address function handed out is the one used by the accessors: distinct cells, distinct addresses
VC_ENTRY addressor()
{
  BlockMemGridmap<char, 3, 2> gm;
  Vec s;
  resetAny(gm, s, "s0", "s1", "s2");
  const auto addr = gm.getAddressor();
  const Vec p = anyCell(s, "p0", "p1", "p2");
  const Vec q = anyCell(s, "q0", "q1", "q2");
  size_t pb, pa, qb, qa;
  addr(p, pb, pa);
  addr(q, qb, qa);
  const bool same = (p[0] == q[0]) & (p[1] == q[1]) & (p[2] == q[2]);
  vc_prove(same | (pb != qb) | (pa != qa), "block address and in-block address identify the cell");
  vc_cover("end");
}
