// Driver: boost::lock / boost::try_lock on several lockables.
// cfg: k = 0 mutex, 1 timed_mutex, 2 unique_lock<mutex> objects, 4 a lockable that refuses or throws (sequential)
// ops: lockn SEQ how | tryn SEQ how | lock m | try m | unlock m | env m v     SEQ: decimal digits 1..5; how: 0 variadic, 1 range
#include "vs.h"
#include "util.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <iterator>
using namespace vs;
enum { NM = 6 };
struct Thrown {};
static int g_env[NM], g_own[NM];
struct Fake { int id;
  void lock() { if (g_env[id] == -1) throw Thrown(); if (g_own[id]) fault("deadlock", id); g_own[id] = 1; }
  bool try_lock() { if (g_env[id] == -1 || g_env[id] == -2) throw Thrown(); if (g_env[id] > 0) { --g_env[id]; return false; } if (g_own[id]) return false; g_own[id] = 1; return true; }
  void unlock() { if (!g_own[id]) fault("misuse", id); g_own[id] = 0; } };
template <class M> struct It {
  typedef std::forward_iterator_tag iterator_category; typedef M value_type; typedef std::ptrdiff_t difference_type; typedef M* pointer; typedef M& reference;
  M** p; It(M** q = 0) : p(q) {}
  M& operator*() const { return **p; } M* operator->() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; }
  bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; }
};
template <class M> struct Par {
  static void lockn(M** v, int n, int how) {
    if (how) { boost::lock(It<M>(v), It<M>(v + n)); return; }
    switch (n) { case 2: boost::lock(*v[0], *v[1]); break; case 3: boost::lock(*v[0], *v[1], *v[2]); break; case 4: boost::lock(*v[0], *v[1], *v[2], *v[3]); break;
      case 5: boost::lock(*v[0], *v[1], *v[2], *v[3], *v[4]); break; default: v[0]->lock(); }
  }
  static int tryn(M** v, int n, int how) {
    if (how) { It<M> e(v + n), r = boost::try_lock(It<M>(v), e); return r == e ? -1 : (int)(r.p - v); }
    switch (n) { case 2: return boost::try_lock(*v[0], *v[1]); case 3: return boost::try_lock(*v[0], *v[1], *v[2]); case 4: return boost::try_lock(*v[0], *v[1], *v[2], *v[3]);
      case 5: return boost::try_lock(*v[0], *v[1], *v[2], *v[3], *v[4]); default: return v[0]->try_lock() ? -1 : 0; }
  }
};
template <class M> struct Mk { static M* mk(int, void*) { return new M; } };
template <> struct Mk<Fake> { static Fake* mk(int i, void*) { Fake* f = new Fake; f->id = i; return f; } };
template <class M> void go(const Program& p, M* (*get)(int, int), int (*held_mask)(int)) {
  static bool held[16][NM]; memset(held, 0, sizeof held); memset(g_env, 0, sizeof g_env); memset(g_own, 0, sizeof g_own);
  run_standard(p, [=](int t, const Op& o) {
    const std::string& s = o.name;
    if (s == "env") { if (p.get("k") == 4) { g_env[o.a] = o.b; } return; }
    int q[8], n = 0; for (int x = o.a; x; x /= 10) q[n++] = x % 10;
    for (int i = 0; i < n / 2; ++i) std::swap(q[i], q[n - 1 - i]);
    M* v[8]; for (int i = 0; i < n; ++i) v[i] = get(t, q[i]);
    if (s == "unlock") { if (!held[t][o.a]) return; pwrite(o.a); call(t, "unlock", o.a); held[t][o.a] = false; v[0]->unlock(); ret(t, "unlock", "ok", held_mask(t), o.a); return; }
    for (int i = 0; i < n; ++i) if (held[t][q[i]]) return;
    bool got = false; const char* r = "ok";
    call(t, s.c_str(), o.a, 0, n);
    try {
      if (s == "lock") { v[0]->lock(); got = true; }
      else if (s == "try") { got = v[0]->try_lock(); r = got ? "ok" : "fail0"; }
      else if (s == "lockn") { Par<M>::lockn(v, n, o.b); got = true; }
      else { int f = Par<M>::tryn(v, n, o.b); static const char* names[] = {"ok", "fail0", "fail1", "fail2", "fail3", "fail4"}; got = f == -1; r = f < -1 || f > 4 ? "bad" : names[f + 1]; }
    } catch (Thrown&) { r = "thrown"; }
    if (got) for (int i = 0; i < n; ++i) { held[t][q[i]] = true; pread(q[i]); pwrite(q[i]); }
    ret(t, s.c_str(), r, held_mask(t), o.a);
  });
}
static boost::mutex* g_m; static boost::timed_mutex* g_tm; static boost::unique_lock<boost::mutex>* g_ul[16][NM]; static Fake* g_f;
static int none(int) { return 0; }
void vs::driver_run(const Program& p) {
  g_m = new boost::mutex[NM]; g_tm = new boost::timed_mutex[NM]; g_f = new Fake[NM];
  for (int i = 0; i < NM; ++i) { g_f[i].id = i; for (int t = 0; t < 16; ++t) g_ul[t][i] = t <= (int)p.th.size() ? new boost::unique_lock<boost::mutex>(g_m[i], boost::defer_lock) : 0; }
  switch (p.get("k")) {
    case 0: go<boost::mutex>(p, [](int, int i) { return &g_m[i]; }, none); break;
    case 1: go<boost::timed_mutex>(p, [](int, int i) { return &g_tm[i]; }, none); break;
    case 2: go<boost::unique_lock<boost::mutex> >(p, [](int t, int i) { return g_ul[t][i]; }, [](int t) { int m = 0; for (int i = 1; i < NM; ++i) if (g_ul[t][i]->owns_lock()) m |= 1 << i; return m; }); break;
    default: go<Fake>(p, [](int, int i) { return &g_f[i]; }, [](int) { int m = 0; for (int i = 1; i < NM; ++i) if (g_own[i]) m |= 1 << i; return m; });
  }
}
