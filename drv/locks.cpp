// Driver: lock ownership wrappers over a recording lockable (sequential).
// slots 0,1 unique_lock; 2,3 shared_lock; 4,5 upgrade_lock; mutexes 1,2 (0 = none)
#include "vs.h"
#include "util.h"
#include <boost/thread/lock_types.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/exceptions.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lockable_traits.hpp>
using namespace vs;
static int g_h[3][3], g_env[3];
struct Thrown {};
struct Mx {
  int id;
  Mx() : id(0) {}
  bool chk(bool timed) { if (g_env[id] == 2) throw Thrown(); return !timed || g_env[id] == 0; }
  bool get(int k, bool timed) { if (!chk(timed)) return false; ++g_h[id][k]; return true; }
  void put(int k) { if (g_h[id][k] == 0) fault("misuse", id); else --g_h[id][k]; }
  bool mv(int f, int to, bool timed) { if (timed && !chk(true)) return false; put(f); ++g_h[id][to]; return true; }
  void lock() { get(0, false); } void unlock() { put(0); } bool try_lock() { return get(0, true); }
  template <class T> bool try_lock_for(T const&) { return get(0, true); } template <class T> bool try_lock_until(T const&) { return get(0, true); }
  template <class T> bool timed_lock(T const&) { return get(0, true); }
  void lock_shared() { get(1, false); } void unlock_shared() { put(1); } bool try_lock_shared() { return get(1, true); }
  template <class T> bool try_lock_shared_for(T const&) { return get(1, true); } template <class T> bool try_lock_shared_until(T const&) { return get(1, true); }
  template <class T> bool timed_lock_shared(T const&) { return get(1, true); }
  void lock_upgrade() { get(2, false); } void unlock_upgrade() { put(2); } bool try_lock_upgrade() { return get(2, true); }
  template <class T> bool try_lock_upgrade_for(T const&) { return get(2, true); } template <class T> bool try_lock_upgrade_until(T const&) { return get(2, true); }
  void unlock_upgrade_and_lock() { mv(2, 0, false); } void unlock_and_lock_upgrade() { mv(0, 2, false); } void unlock_and_lock_shared() { mv(0, 1, false); }
  void unlock_upgrade_and_lock_shared() { mv(2, 1, false); }
  bool try_unlock_shared_and_lock() { return mv(1, 0, true); } template <class T> bool try_unlock_shared_and_lock_for(T const&) { return mv(1, 0, true); } template <class T> bool try_unlock_shared_and_lock_until(T const&) { return mv(1, 0, true); }
  bool try_unlock_shared_and_lock_upgrade() { return mv(1, 2, true); } template <class T> bool try_unlock_shared_and_lock_upgrade_for(T const&) { return mv(1, 2, true); } template <class T> bool try_unlock_shared_and_lock_upgrade_until(T const&) { return mv(1, 2, true); }
  bool try_unlock_upgrade_and_lock() { return mv(2, 0, true); } template <class T> bool try_unlock_upgrade_and_lock_for(T const&) { return mv(2, 0, true); } template <class T> bool try_unlock_upgrade_and_lock_until(T const&) { return mv(2, 0, true); }
};
typedef boost::unique_lock<Mx> U; typedef boost::shared_lock<Mx> S; typedef boost::upgrade_lock<Mx> G;
static Mx g_m[3]; static U* u[2]; static S* s[2]; static G* g[2];
static int mid(Mx* m) { return m ? m->id : 0; }
template <class L> static int one(L* l) { int o = l->owns_lock(); if ((bool)*l != (o != 0)) fault("bool"); return mid(l->mutex()) * 2 + o; }
static int slots() { int v = 0, k = 1; for (int i = 0; i < 6; ++i, k *= 6) v += k * (i < 2 ? one(u[i]) : i < 4 ? one(s[i - 2]) : one(g[i - 4])); return v; }
static int held() { int v = 0, k = 1; for (int m = 1; m < 3; ++m) for (int t = 0; t < 3; ++t, k *= 4) v += k * g_h[m][t]; return v; }
static const char* tf(bool b) { return b ? "true" : "false"; }

struct Ops {
  template <class L> static void del(L*& l) { delete l; l = 0; }
  template <class L> static L* mk(int m, int how);
  template <class L> static L* mk0(int m, int how) {
    Timeout x(1000);
    switch (how) {
      case 0: return new L(g_m[m]);
      case 1: return new L(g_m[m], boost::defer_lock);
      case 2: return new L(g_m[m], boost::adopt_lock);
      case 3: return new L(g_m[m], boost::try_to_lock);
      case 4: return new L(g_m[m], usec(1000));
      default: return new L(g_m[m], how == 5 ? x.st : x.st);
    }
  }
  template <class L> static const char* create(L*& l, int m, int how) {
    delete l; l = new L();
    L* n = 0;
    try { n = mk<L>(m, how); } catch (Thrown&) { return "thrown"; } catch (boost::lock_error&) { return "err"; }
    delete l; l = n; return "ok";
  }
  template <class L> static const char* attempt(L* l, const std::string& o) {
    Timeout x(1000);
    if (o == "lock") { l->lock(); return "ok"; }
    if (o == "try") return tf(l->try_lock());
    if (o == "for") return tf(l->try_lock_for(usec(1000)));
    if (o == "until") return tf(l->try_lock_until(x.sy));
    if (o == "unlock") { l->unlock(); return "ok"; }
    return 0;
  }
  template <class L> static const char* guard_err(L* l, const std::string& o, const char* (*f)(L*, const std::string&)) {
    try { return f(l, o); } catch (Thrown&) { return "thrown"; }
    catch (boost::lock_error& e) { return e.native_error() == (int)boost::system::errc::resource_deadlock_would_occur ? "deadlock" : e.native_error() == (int)boost::system::errc::operation_not_permitted ? "perm" : "err"; }
  }
  template <class L> static const char* att2(L* l, const std::string& o) { const char* r = attempt(l, o); return r; }
  template <class L> static const char* timed(L* l, const std::string& o) { Timeout x(1000); if (o == "tabs") return tf(l->timed_lock(x.pt)); if (o == "trel") return tf(l->timed_lock(pusec(1000))); return attempt(l, o); }
  static const char* timedu(U* l, const std::string& o) { if (o == "trel") return tf(l->timed_lock(pusec(1000))); if (o == "xt") return tf(l->timed_lock(boost::xtime())); return timed(l, o); }
};
template <> U* Ops::mk<U>(int m, int how) {
  if (how == 6) { Timeout x(1000); return new U(g_m[m], x.pt); }
  if (how == 7) return new U(boost::make_unique_lock(g_m[m])); if (how == 8) return new U(boost::make_unique_lock(g_m[m], boost::defer_lock));
  if (how == 9) return new U(boost::make_unique_lock(g_m[m], boost::adopt_lock)); if (how == 10) return new U(boost::make_unique_lock(g_m[m], boost::try_to_lock));
  return mk0<U>(m, how);
}
template <> S* Ops::mk<S>(int m, int how) { if (how == 6) { Timeout x(1000); return new S(g_m[m], x.pt); } return mk0<S>(m, how % 7); }
template <> G* Ops::mk<G>(int m, int how) { return mk0<G>(m, how % 6); }

static void body() { ev("ev", 1, "in", held(), 0, "", 0); }
template <class D, class Sx> static const char* mconv(D*& d, Sx* x, int how) {
  Timeout t(1000); D* n = 0;
  try {
    if (how == 1) n = new D(boost::move(*x), boost::try_to_lock); else if (how == 2) n = new D(boost::move(*x), usec(1000)); else n = new D(boost::move(*x), t.st);
  } catch (Thrown&) { return "thrown"; }
  delete d; d = n; return "ok";
}
template <class D, class Sx> static const char* pconv(D*& d, Sx* x) { D* n = new D(boost::move(*x)); delete d; d = n; return "ok"; }
template <class L> static const char* move_ops(L** a, int i, int j, const std::string& n) {
  if (i == j) return 0;
  if (n == "swap") { a[i]->swap(*a[j]); return "ok"; }
  if (n == "fswap") { swap(*a[i], *a[j]); return "ok"; }
  if (n == "mova") { *a[i] = boost::move(*a[j]); return "ok"; }
  if (n == "movc") { L* x = new L(boost::move(*a[j])); delete a[i]; a[i] = x; return "ok"; }
  return 0;
}
typedef boost::externally_locked<int, Mx> Ext;
// access is given exactly for a lock on the object's own mutex
template <class L> static void ext(Ext& a, Ext& b, L& l) {
  const Ext& ca = a; const Ext& cb = b;
  if (a.get(l) != 5 || ca.get(l) != 5) fault("ext_value");
  a.get(l) = 8; if (ca.get(l) != 8) fault("ext_value");
  int n = 0;
  try { b.get(l); } catch (boost::lock_error&) { ++n; }
  try { cb.get(l); } catch (boost::lock_error&) { ++n; }
  if (n != 2) fault("ext_wrong_lock", n);
}
static const char* scoped(int m, int how) {
  Mx& x = g_m[m];
  try {
    switch (how) {
      case 0: { boost::lock_guard<Mx> l(x); body(); return "ok"; }
      case 1: { auto&& l = boost::make_lock_guard(x); (void)l; body(); return "ok"; }
      case 2: { boost::strict_lock<Mx> l(x); if (!l.owns_lock() || !l.owns_lock(&x) || l.owns_lock(&g_m[3 - m]) || l.mutex() != &x) fault("strict"); body(); return "ok"; }
      case 3: { auto&& l = boost::make_strict_lock(x); (void)l; body(); return "ok"; }
      case 4: { boost::with_lock_guard(x, body); return "ok"; }
      case 5: { boost::shared_lock_guard<Mx> l(x); body(); return "ok"; }
      case 6: { boost::lock_guard<Mx> l(x, boost::adopt_lock); body(); return "ok"; }
      case 7: { boost::shared_lock_guard<Mx> l(x, boost::adopt_lock); body(); return "ok"; }
      case 8: { int r = boost::with_lock_guard(x, [](int a) { body(); return a + 1; }, 41); return r == 42 ? "ok" : "bad"; }
      case 9: { auto&& l = boost::make_lock_guard(x, boost::adopt_lock); (void)l; body(); return "ok"; }
      case 10: { try { boost::lock_guard<Mx> l(x); body(); throw 1; } catch (int) { return "ok"; } }
      case 11: { auto t = boost::make_unique_locks(x, g_m[3 - m]); if (!std::get<0>(t).owns_lock() || !std::get<1>(t).owns_lock() || std::get<0>(t).mutex() != &x) fault("make_unique_locks"); body(); return "ok"; }
      case 12: { Ext a(x, 5), b(g_m[3 - m], 6); boost::strict_lock<Mx> l(x); ext(a, b, l); body(); return "ok"; }
      case 13: { Ext a(x, 5), b(g_m[3 - m], 6); U u1(x); boost::nested_strict_lock<U> l(u1); ext(a, b, l); body(); return "ok"; }
      case 14: { Ext a(x, 5), b(g_m[3 - m], 6); a.swap(b); if (a.mutex() == &x || b.mutex() != &x) fault("ext_swap"); boost::strict_lock<Ext> l(b); if (!l.owns_lock(&b)) fault("ext_strict"); body(); return "ok"; }
      case 15: { Ext b(g_m[3 - m], 6), a(b); a = Ext(x, 5); Ext c(boost::move(a)); boost::strict_lock<Mx> l(x); ext(c, b, l); body(); return "ok"; }
    }
  } catch (Thrown&) { return "thrown"; }
  return 0;
}
void vs::driver_run(const Program& p) {
  memset(g_h, 0, sizeof g_h); memset(g_env, 0, sizeof g_env);
  for (int i = 1; i < 3; ++i) g_m[i].id = i;
  for (int i = 0; i < 2; ++i) { u[i] = new U; s[i] = new S; g[i] = new G; }
  static int loose[3][3]; memset(loose, 0, sizeof loose);
  run_standard(p, [=](int t, const Op& o) {
    NoPreempt np;
    const std::string& n = o.name; int i = o.a, ty = i / 2, k = i % 2; const char* r = 0;
    for (int m = 1; m < 3; ++m) for (int q = 0; q < 3; ++q) if (g_h[m][q] >= 3 && (n == "raw" || n == "new" || n == "lock" || n == "scoped")) return;
    if (n == "env") { g_env[o.a] = o.b; ev("ev", t, "env", o.a, o.b, "", 0); return; }
    // adopting needs somebody's ownership to adopt
    if (n == "new" && (o.c == 2 || o.c == 9) && !loose[o.b][ty]) return;
    if (n == "new" && ((ty == 1 && o.c > 6) || (ty == 2 && o.c > 5))) return;
    if (n == "scoped" && ((o.b == 6 || o.b == 9) ? !loose[o.a][0] : o.b == 7 ? !loose[o.a][1] : false)) return;
    if (n == "scoped" && o.b == 11 && (g_env[o.a] != g_env[3 - o.a] || g_env[o.a] == 1)) return;
    if (n == "rawu" && !loose[o.a][o.b]) return;
    if ((n == "swap" || n == "fswap" || n == "mova" || n == "movc") && (o.a / 2 != o.b / 2 || o.a == o.b)) return;
    if ((n == "up" && ty != 2) || (n == "nested" && ty != 0) || (n == "rev" && ty != 0)) return;
    if ((n == "trel" && ty == 2) || (n == "xt" && ty != 0)) return;
    if (n == "tabs" && ty == 2) return;
    if (n == "rev" && u[k]->mutex() && g_env[u[k]->mutex()->id] == 2) return;    // would throw from a destructor
    bool plain = n == "conv" && o.c == 0, tried = n == "conv" && o.c > 0; int tj = o.b / 2;
    if (plain && !((ty == 0 && tj == 2) || (ty == 1 && tj != 1) || (ty == 2 && tj == 0))) return;
    if (tried && !((ty == 0 && tj != 0) || (ty == 2 && tj == 1))) return;
    call(t, n.c_str(), o.a, o.b, o.c);
    if (n == "new") { if (o.c == 2 || o.c == 9) --loose[o.b][ty]; r = ty == 0 ? Ops::create(u[k], o.b, o.c) : ty == 1 ? Ops::create(s[k], o.b, o.c) : Ops::create(g[k], o.b, o.c); }
    else if (n == "del") { if (ty == 0) { delete u[k]; u[k] = new U; } else if (ty == 1) { delete s[k]; s[k] = new S; } else { delete g[k]; g[k] = new G; } r = "ok"; }
    else if (n == "raw") { ++loose[o.a][o.b]; ++g_h[o.a][o.b]; r = "ok"; }
    else if (n == "rawu") { --loose[o.a][o.b]; --g_h[o.a][o.b]; r = "ok"; }
    else if (n == "release") {
      bool own = ty == 0 ? u[k]->owns_lock() : ty == 1 ? s[k]->owns_lock() : g[k]->owns_lock();
      Mx* m = ty == 0 ? u[k]->release() : ty == 1 ? s[k]->release() : g[k]->release();
      if (own && m) ++loose[m->id][ty];
      r = m ? (m->id == 1 ? "m1" : "m2") : "null";
    } else if (n == "swap" || n == "fswap" || n == "mova" || n == "movc") r = ty == 0 ? move_ops(u, k, o.b % 2, n) : ty == 1 ? move_ops(s, k, o.b % 2, n) : move_ops(g, k, o.b % 2, n);
    else if (plain) r = ty == 0 ? pconv(u[k], g[o.b % 2]) : ty == 2 ? pconv(g[k], u[o.b % 2]) : tj == 0 ? pconv(s[k], u[o.b % 2]) : pconv(s[k], g[o.b % 2]);
    else if (tried) r = ty == 2 ? mconv(g[k], s[o.b % 2], o.c) : tj == 2 ? mconv(u[k], g[o.b % 2], o.c) : mconv(u[k], s[o.b % 2], o.c);
    else if (n == "scoped") { if (o.b == 6 || o.b == 9) --loose[o.a][0]; if (o.b == 7) --loose[o.a][1]; r = scoped(o.a, o.b); }
    else if (n == "up") { typedef boost::upgrade_to_unique_lock<Mx> X; X l0(*g[k]); if (o.b == 2) { X l1(boost::move(l0)); if (l0.owns_lock() || l0.mutex()) fault("up_moved"); l0 = boost::move(l1); }
      X l2(boost::move(l0)); G none; X l3(none); if (o.b == 1) l3.swap(l2); X& l = o.b == 1 ? l3 : l2; if (l.owns_lock() != (bool)l) fault("bool"); ev("ev", t, "in", held(), slots(), l.owns_lock() ? "own" : "not", mid(l.mutex())); r = "ok"; }
    else if (n == "nested") {
      try { boost::nested_strict_lock<U> l(*u[k]); if (!l.owns_lock() || !l.owns_lock(l.mutex())) fault("nested"); ev("ev", t, "in", held(), slots(), "own", mid(l.mutex())); r = "ok"; }
      catch (Thrown&) { r = "thrown"; } catch (boost::lock_error&) { r = "err"; }
    } else if (n == "rev") { { boost::reverse_lock<U> l(*u[k]); ev("ev", t, "in", held(), slots(), "", 0); } r = "ok"; }
    else r = ty == 0 ? Ops::guard_err<U>(u[k], n, Ops::timedu) : ty == 1 ? Ops::guard_err<S>(s[k], n, Ops::timed<S>) : Ops::guard_err<G>(g[k], n, Ops::att2<G>);
    if (!r) r = "unknown";
    ret(t, n.c_str(), r, slots(), held());
  });
}
