// Native meaning of the contract primitives: replay of a solver model, or random/boundary inputs.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <chrono>
#include <unistd.h>
#include <execinfo.h>
#include "vc.h"

struct Entry { const char* name; void (*fn)(); };
extern Entry vc_entries[];
namespace
{
struct Skip {};
std::map<std::string, std::string> vals;      // replayed values
std::map<std::string, std::string> used;      // values of this run
std::map<std::string, int> cnt;
std::map<std::string, long> covers;
bool replay = false;
int small = 0;                                // 0: boundary values, 1..3: small integers
uint64_t rs = 88172645463325252ull;
double spread = 1.0;
const char* outfile = nullptr;
const char* curentry = "";
uint64_t rnd()
{
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs * 2685821657736338717ull;
}
std::string uniq(const char* n)
{
  int c = cnt[n]++;
  return c ? std::string(n) + "~" + std::to_string(c) : std::string(n);
}
void dump(const char* what)
{
  FILE* f = outfile ? fopen(outfile, "w") : stdout;
  if (!f) return;
  fprintf(f, "entry %s\nfailed %s\n", curentry, what);
  for (auto& u : used) fprintf(f, "val %s %s\n", u.first.c_str(), u.second.c_str());
  fclose(f);
}
void onabort(int s)
{
  char b[64];
  snprintf(b, sizeof b, "signal %d (assertion or runtime error in the code under test)", s);
  dump(b);
  _exit(1);
}
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void ondeath() { dump("sanitizer error in the code under test"); }

static long pickI(const std::string& n, long lo, long hi, bool sz)
{
  long v;
  auto it = vals.find(n);
  if (replay && it != vals.end()) v = atol(it->second.c_str());
  else if (replay) v = lo <= 0 && 0 <= hi ? 0 : lo;
  else
  {
    long h = hi;
    if (sz && hi - lo > 40) h = lo + 40;
    if (small)
    {
      // small values around zero (or the lower end)
      const long c = lo <= 0 && 0 <= h ? 0 : lo, r = small == 1 ? 6 : small == 2 ? 12 : 40;
      const long a = lo < c - r ? c - r : lo, b = h > c + r ? c + r : h;
      v = a + (long)(rnd() % (unsigned long)(b - a + 1));
      used[n] = std::to_string(v);
      return v;
    }
    unsigned long w = (unsigned long)h - (unsigned long)lo + 1;
    switch (rnd() % 8)
    {
      case 0: v = lo; break;
      case 1: v = h; break;
      case 2: v = lo + (long)(w ? rnd() % (w < 4 ? w : 4) : 0); break;
      case 3: v = h - (long)(w ? rnd() % (w < 4 ? w : 4) : 0); break;
      case 4:
      {
        long s = lo <= 0 && 0 <= h ? 0 : lo;
        v = s + (long)(rnd() % 16) - 3;
        break;
      }
      default: v = lo + (long)(w ? rnd() % w : rnd());
    }
    if (v < lo) v = lo;
    if (v > h) v = h;
  }
  used[n] = std::to_string(v);
  return v;
}
static double toD(const std::string& s)
{
  size_t p = s.find('/');
  if (p != std::string::npos) return strtod(s.substr(0, p).c_str(), 0) / strtod(s.substr(p + 1).c_str(), 0);
  return strtod(s.c_str(), 0);
}
static double pickR(const std::string& n, double lo, double hi)
{
  double v;
  auto it = vals.find(n);
  if (replay && it != vals.end()) v = toD(it->second);
  else if (replay) v = lo <= 0 && 0 <= hi ? 0 : lo;
  else
  {
    double u = (rnd() >> 11) * (1.0 / 9007199254740992.0);
    double w = hi - lo;
    switch (rnd() % 8)
    {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = lo <= 0 && 0 <= hi ? 0 : lo; break;
      case 3: v = (lo <= 0 && 0 <= hi ? 0 : lo) + (u * 4 - 2); break;
      case 4: v = std::round(lo + u * w); break;
      case 5: v = (lo <= 0 && 0 <= hi ? 0 : lo) + std::round(u * 16 - 8) * 0.5; break;
      default: v = lo + u * w;
    }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  }
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  used[n] = b;
  return v;
}
extern "C"
{
long vc_i(const char* n, long lo, long hi) { return pickI(uniq(n), lo, hi, false); }
long vc_sz(const char* n, long lo, long hi) { return pickI(uniq(n), lo, hi, true); }
double vc_r(const char* n, double lo, double hi) { return pickR(uniq(n), lo, hi); }
double vc_x(const char* nn)
{
  std::string n = uniq(nn);
  double v;
  auto it = vals.find(n);
  if (replay) v = it == vals.end() ? 0 : toD(it->second);
  else
    switch (rnd() % 10)
    {
      case 0: v = NAN; break;
      case 1: v = INFINITY; break;
      case 2: v = -INFINITY; break;
      case 3: v = 0; break;
      case 4: v = ((double)(rnd() % 2000001) - 1000000) * 1e-3; break;
      default: v = ((double)(rnd() % 2000001) - 1000000) * 1e-5;
    }
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  used[n] = b;
  return v;
}
bool vc_b(const char* nn)
{
  std::string n = uniq(nn);
  bool v;
  auto it = vals.find(n);
  if (replay) v = it != vals.end() && it->second == "1";
  else v = rnd() & 1;
  used[n] = v ? "1" : "0";
  return v;
}
long vc_pick(const char* n, long k) { return pickI(uniq(n), 0, k - 1, false); }
long vc_skolem(const char* n, long lo, long hi) { return pickI(uniq(n), lo, hi, false); }
void vc_assume(bool c) { if (!c) throw Skip(); }
static void fail(const char* l)
{
  dump(l);
  fprintf(stderr, "FAILED %s in %s\n", l, curentry);
  _exit(1);
}
void vc_prove(bool c, const char* l) { if (!c) fail(l); }
void vc_lemma(bool c, const char* l) { if (!c) fail(l); }
void vc_eqt(double a, double b, double tol, const char* l) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)))) fail(l); }
void vc_let(double a, double b, double tol, const char* l) { if (!(a <= b + tol * (1 + std::fabs(a) + std::fabs(b)))) fail(l); }
void vc_eq(double a, double b, const char* l) { vc_eqt(a, b, 1e-4, l); }
void vc_le(double a, double b, const char* l) { vc_let(a, b, 1e-4, l); }
void vc_cover(const char* l) { covers[l]++; }
void vc_watch_(const void*, int) {}
void vc_fill_i(const void*, int, long, bool, long, long, long) {}
void vc_fill_r(const void*, int, double, bool, long, long, long) {}
void vc_arr_i_(void* p, long count, long stride, int kind, const char* nn, long lo, long hi)
{
  std::string n = uniq(nn);
  char* c = (char*)p;
  if (count > 60000000) throw Skip();
  bool keep = count <= 100000;
  for (long i = 0; i < count; i++)
  {
    long v;
    if (keep || replay) v = pickI(n + "[" + std::to_string(i) + "]", lo, hi, false);
    else v = lo + (long)(rnd() % (unsigned long)(hi - lo + 1));
    switch (kind)
    {
      case 1: *(int8_t*)(c + i * stride) = (int8_t)v; break;
      case 2: *(int16_t*)(c + i * stride) = (int16_t)v; break;
      case 4: *(int32_t*)(c + i * stride) = (int32_t)v; break;
      default: *(int64_t*)(c + i * stride) = v;
    }
  }
}
void vc_arr_r_(void* p, long count, long stride, int kind, const char* nn, double lo, double hi)
{
  std::string n = uniq(nn);
  char* c = (char*)p;
  if (count > 60000000) throw Skip();
  for (long i = 0; i < count; i++)
  {
    double v = (count <= 100000 || replay) ? pickR(n + "[" + std::to_string(i) + "]", lo, hi) : lo;
    if (kind == 104) *(float*)(c + i * stride) = (float)v;
    else *(double*)(c + i * stride) = v;
  }
}
void vc_map_(const void*, int, const char*, double, double) {}
static std::string cellname(const char* n, long a, long b, long c, int dim)
{
  return std::string(n) + "[" + std::to_string(a) + "," + std::to_string(b) + (dim > 2 ? "," + std::to_string(c) : "") + "]";
}
static void fromElse(const std::string& n, const char* base)
{
  if (replay && !vals.count(n) && vals.count(std::string(base) + "[else]")) vals[n] = vals[std::string(base) + "[else]"];
}
long vc_cell_i(const char* n, long a, long b, long c, int dim, long lo, long hi)
{
  std::string s = cellname(n, a, b, c, dim);
  fromElse(s, n);
  return pickI(s, lo, hi, false);
}
double vc_cell_r(const char* n, long a, long b, long c, int dim, double lo, double hi)
{
  std::string s = cellname(n, a, b, c, dim);
  fromElse(s, n);
  return pickR(s, lo, hi);
}
long vc_fresh_(void) { return 0; }
static uint64_t ufhash(const char* n, const long* x)
{
  // a fixed function of its arguments, another one for every seed of this run
  static const char* key = "function seed";
  std::string k = key;
  auto it = used.find(k);
  if (it == used.end()) used[k] = std::to_string(replay && vals.count(k) ? atol(vals[k].c_str()) : (long)(rnd() >> 20));
  uint64_t h = strtoull(used[k].c_str(), 0, 10) + 0x9E3779B97F4A7C15ull;
  for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ull;
  for (int i = 0; i < 6; i++) { h = (h ^ (uint64_t)x[i]) * 0xff51afd7ed558ccdull; h ^= h >> 33; }
  h *= 0xc4ceb9fe1a85ec53ull;
  return h ^ (h >> 33);
}
long vc_uf_i_(const char* n, long lo, long hi, long a, long b, long c, long d, long e, long f)
{
  const long x[6] = {a, b, c, d, e, f};
  return lo + (long)(ufhash(n, x) % (uint64_t)(hi - lo + 1));
}
double vc_uf_r_(const char* n, double lo, double hi, long a, long b, long c, long d, long e, long f)
{
  const long x[6] = {a, b, c, d, e, f};
  return lo + (ufhash(n, x) >> 11) * (1.0 / 9007199254740992.0) * (hi - lo);
}
bool vc_uf_b_(const char* n, long a, long b, long c, long d, long e, long f)
{
  const long x[6] = {a, b, c, d, e, f};
  return ufhash(n, x) & 1;
}
void vc_use(long) {}
void vc_ghost_i(const char*, long) {}
void vc_ghost_r(const char*, double) {}
void vc_user(double) {}
bool vc_native(void) { return true; }
}
int main(int argc, char** argv)
{
  // prog entry replay FILE | prog entry random N SEED SECONDS ; OUT in VC_OUT
  outfile = getenv("VC_OUT");
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
  signal(SIGABRT, onabort);
  signal(SIGFPE, onabort);
  void (*fn)() = nullptr;
  for (Entry* e = vc_entries; e->name; e++)
    if (!strcmp(e->name, argv[1])) fn = e->fn;
  if (!fn) { fprintf(stderr, "no entry\n"); return 3; }
  curentry = argv[1];
  if (!strcmp(argv[2], "replay"))
  {
    replay = true;
    FILE* f = fopen(argv[3], "r");
    char k[4096], a[4096], b[4096];
    while (f && fgets(k, sizeof k, f))
      if (sscanf(k, "val %4095s %4095s", a, b) == 2) vals[a] = b;
    try { fn(); }
    catch (Skip&) { printf("precondition not met by these values\n"); return 2; }
    catch (std::exception& e) { dump(e.what()); fprintf(stderr, "exception %s\n", e.what()); return 1; }
    printf("no failure with these values\n");
    return 0;
  }
  long n = atol(argv[3]);
  rs ^= (uint64_t)atol(argv[4]) * 0x9E3779B97F4A7C15ull;
  double secs = argc > 5 ? atof(argv[5]) : 10;
  auto t0 = std::chrono::steady_clock::now();
  long done = 0, skipped = 0;
  for (long i = 0; i < n; i++)
  {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    used.clear();
    cnt.clear();
    for (int j = 0; j < 8; j++) rnd();
    small = rnd() % 2 ? 1 + rnd() % 3 : 0;
    try { fn(); done++; }
    catch (Skip&) { skipped++; }
    catch (std::exception& e) { dump(e.what()); fprintf(stderr, "exception %s\n", e.what()); return 1; }
  }
  printf("runs %ld skipped %ld\n", done, skipped);
  for (auto& c : covers) printf("cover %s\t%ld\n", c.first.c_str(), c.second);
  return 0;
}

extern "C" void vc_hint(bool (*)()) {}
extern "C" void vc_done_(bool (*)(), int, long, long, long, long) {}
