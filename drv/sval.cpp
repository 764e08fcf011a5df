// Driver: synchronized_value, its handles and operators.
// cfg: m = 0 mutex, 1 recursive_mutex, 2 timed_mutex
// ops: OP cells arg code      cells: decimal digits; code = handle + 10 * variant + 1000 * throw + 10000 * form
#include "vs.h"
#include "util.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <memory>
#include <tuple>
using namespace vs;
enum { NC = 4, NHD = 7 };
struct Thrown {};
static const void* g_addr[NC]; static int g_arm[20];
static int cell(const void* p) { for (int i = 1; i < NC; ++i) if (g_addr[i] == p) return i; return 0; }
static bool trip() { int t = tid(); if (t >= 0 && t < 20 && g_arm[t]) { g_arm[t] = 0; return true; } return false; }
// a value in two parts; every access is checked for races and can be interrupted between the parts
struct Pay { int a, b;
  Pay() : a(0), b(0) {}
  explicit Pay(int v) : a(v), b(v) {}
  Pay(const Pay& o) : a(0), b(0) { if (trip()) throw Thrown(); o.rd(*this); }
  Pay& operator=(const Pay& o) { if (&o == this) return *this; if (trip()) throw Thrown(); Pay x(0); o.rd(x); wr(x.a, x.b); return *this; }
  void rd(Pay& x) const { int c = cell(this); if (c) pread(c); x.a = a; if (c) { point(); pread(c); } x.b = b; }
  void wr(int x, int y) { int c = cell(this); if (c) pwrite(c); a = x; if (c) { point(); pwrite(c); } b = y; }
  int get() const { Pay x(0); rd(x); return x.a == x.b ? x.a : -9; }
  int add(int n) { if (trip()) throw Thrown(); int v = get(); wr(v + n, v + n); return v; }
  void set(int n) { if (trip()) throw Thrown(); wr(n, n); }
};
static int G(const Pay& p) { return p.get(); }
bool operator==(const Pay& x, const Pay& y) { return G(x) == G(y); } bool operator!=(const Pay& x, const Pay& y) { return G(x) != G(y); }
bool operator<(const Pay& x, const Pay& y) { return G(x) < G(y); } bool operator<=(const Pay& x, const Pay& y) { return G(x) <= G(y); }
bool operator>(const Pay& x, const Pay& y) { return G(x) > G(y); } bool operator>=(const Pay& x, const Pay& y) { return G(x) >= G(y); }
struct OS { int v; }; struct IS { int v; };
OS& operator<<(OS& o, const Pay& p) { o.v = p.get(); return o; }
IS& operator>>(IS& i, Pay& p) { p.set(i.v); return i; }
struct FGet { int operator()(const Pay& p) const { if (trip()) throw Thrown(); return p.get(); } };
struct FAdd { int n; int operator()(Pay& p) const { return p.add(n); } };
struct FSet { int n; int operator()(Pay& p) const { p.set(n); return 0; } };
template <class A, class B> static bool rel(int k, const A& x, const B& y) { switch (k) { case 0: return x == y; case 1: return x != y; case 2: return x < y; case 3: return x <= y; case 4: return x > y; default: return x >= y; } }

template <class M> struct Run {
  typedef boost::synchronized_value<Pay, M> SV; typedef boost::strict_lock_ptr<Pay, M> SP; typedef boost::const_strict_lock_ptr<Pay, M> CSP;
  typedef boost::unique_lock_ptr<Pay, M> UP; typedef boost::const_unique_lock_ptr<Pay, M> CUP;
  // a handle over one to three values
  struct H { int t, n, c[3]; SP* s[3]; CSP* cs[3]; UP* u; CUP* cu; bool on, cst; H() : t(0), n(0), u(0), cu(0), on(false), cst(false) { for (int i = 0; i < 3; ++i) { s[i] = 0; cs[i] = 0; } }
    bool lockable() const { return u || cu; } };
  SV* v[NC]; H h[NHD + 1]; bool rec; int holds[20][NC]; bool resv[NHD + 1];
  Run(bool r) : rec(r) { memset(holds, 0, sizeof holds); memset(resv, 0, sizeof resv); for (int i = 1; i < NC; ++i) { v[i] = new SV(); g_addr[i] = &v[i]->value(); } }
  bool grab(int i) { NoPreempt np; if (h[i].t || resv[i]) return false; return resv[i] = true; }
  int get(int c, int f) {
    SV& x = *v[c]; const SV& k = x;
    switch (f) {
      case 0: return k.get().get(); case 1: return static_cast<Pay>(k).get(); case 2: { Pay p = *x; return p.get(); } case 3: { Pay p = *k; return p.get(); }
      case 4: return x->get(); case 5: return k->get(); case 6: { OS o = {0}; o << k; return o.v; } case 7: return k(FGet()); case 8: { SV y(k); return y.value().get(); }
      default: { SV y(k); return y.get().get(); } }
  }
  void set(int c, int n, int f) {
    SV& x = *v[c]; switch (f) { case 0: { const Pay p(n); x = p; break; } case 1: *x = Pay(n); break; case 2: x->set(n); break; case 3: { IS i = {n}; i >> x; break; } case 4: x(FSet{n}); break; default: x.synchronize()->set(n); } }
  int add(int c, int n, int f) { SV& x = *v[c]; switch (f) { case 0: return x->add(n); case 1: return x(FAdd{n}); case 2: return x.synchronize()->add(n); default: return x.unique_synchronize()->add(n); } }
  void open(int i, int n, int* c, int k, int t) {
    H& x = h[i]; SV& a = *v[c[0]]; const SV& ka = a;
    if (n == 1) switch (k) {
      case 0: x.s[0] = new SP(a.synchronize()); break; case 1: x.u = new UP(a.unique_synchronize()); break; case 2: x.cs[0] = new CSP(ka.synchronize()); break; default: x.cu = new CUP(ka.unique_synchronize()); }
    else if (n == 2) {
      SV& b = *v[c[1]]; const SV& kb = b;
      if (k % 3 == 0) { std::tuple<SP, SP> q(boost::synchronize(a, b)); x.s[0] = new SP(boost::move(std::get<0>(q))); x.s[1] = new SP(boost::move(std::get<1>(q))); }
      else if (k % 3 == 1) { std::tuple<CSP, SP> q(boost::synchronize(ka, b)); x.cs[0] = new CSP(boost::move(std::get<0>(q))); x.s[1] = new SP(boost::move(std::get<1>(q))); }
      else { std::tuple<SP, CSP> q(boost::synchronize(a, kb)); x.s[0] = new SP(boost::move(std::get<0>(q))); x.cs[1] = new CSP(boost::move(std::get<1>(q))); }
    } else { std::tuple<SP, SP, SP> q(boost::synchronize(a, *v[c[1]], *v[c[2]])); x.s[0] = new SP(boost::move(std::get<0>(q))); x.s[1] = new SP(boost::move(std::get<1>(q))); x.s[2] = new SP(boost::move(std::get<2>(q))); }
    put(i, n, c, t, true);
  }
  void put(int i, int n, int* c, int t, bool on) { H& x = h[i]; x.n = n; for (int j = 0; j < n; ++j) x.c[j] = c[j]; x.on = on; x.t = t; if (on) for (int j = 0; j < n; ++j) ++holds[t][c[j]]; }
  void op(int t, const Op& o) {
    const std::string& n = o.name; int q[4], m = 0; for (int x = o.a; x && m < 4; x /= 10) q[m++] = x % 10; for (int i = 0; i < m / 2; ++i) std::swap(q[i], q[m - 1 - i]);
    for (int i = 0; i < m; ++i) if (q[i] < 1 || q[i] >= NC) return;
    int hn = o.c % 10, k = o.c / 10 % 10; bool thr = o.c / 1000 % 10 == 1; int f = o.c / 10000; if (hn > NHD) return;
    bool two = n == "asg" || n == "swp" || n == "cmp"; if (two && m != 2) return;
    bool same = two && q[0] == q[1];
    if (n[0] != 'h' && (m < 1 || m > 3)) return;
    bool tr = n == "try", opens = n == "open" || tr || n == "defer";
    if (opens) { if (hn < 1 || (n != "open" && m != 1)) return; for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) if (q[i] == q[j]) return; }
    else if (n[0] != 'h' && !two && m != 1) return;
    if (n[0] != 'h' && n != "defer" && !rec) for (int i = 0; i < m; ++i) if (holds[t][q[i]] && !(same && n != "cmp")) return;
    if (same && n != "cmp") thr = false;
    if (n == "swp" || n == "swt" || n == "cmp" || n == "cmt" || opens || (n == "get" && f % 10 >= 4 && f % 10 <= 6)) thr = false;
    if (opens) {
      if (!grab(hn)) return;
      if (n != "open") k &= 1;                                   // 0: mutable, 1: const
      call(t, n.c_str(), o.a, 0, hn + 10 * k); H& x = h[hn]; const char* r = "ok"; SV& a = *v[q[0]]; const SV& ka = a;
      if (n == "open") open(hn, m, q, k, t);
      else if (n == "defer") { if (k) x.cu = new CUP(f % 2 ? ka.defer_synchronize() : ka.unique_synchronize(boost::defer_lock)); else x.u = new UP(f % 2 ? a.defer_synchronize() : a.unique_synchronize(boost::defer_lock)); put(hn, 1, q, t, false); }
      else { bool on; if (k) { x.cu = new CUP(ka.try_to_synchronize()); on = x.cu->owns_lock(); } else { x.u = new UP(a.try_to_synchronize()); on = x.u->owns_lock(); } put(hn, 1, q, t, on); r = on ? "true" : "false"; }
      resv[hn] = false; ret(t, n.c_str(), r, 0, o.a); return;
    }
    if (n[0] == 'h') {
      if (hn < 1 || h[hn].t != t) return; H& x = h[hn]; int val = 0; const char* r = "ok";
      if (n == "hlock" || n == "htry" || n == "hunlock" || n == "hadopt") { if (!x.lockable()) return; if (n != "hunlock" && n != "hadopt" && !x.on && !rec && holds[t][x.c[0]]) return; if (n == "hadopt" && !x.on) return; }
      if (n == "hget" || n == "hset") { if (!x.on || k < 1 || k > x.n) return; if (n == "hset" && !(x.u || x.s[k - 1])) return; }
      call(t, n.c_str(), 0, n == "hset" ? o.b : 0, hn + 10 * (n == "hget" || n == "hset" ? k : 0));
      try {
        if (n == "hlock") { if (x.u) x.u->lock(); else x.cu->lock(); x.on = true; ++holds[t][x.c[0]]; }
        else if (n == "htry") { bool b = x.u ? x.u->try_lock() : x.cu->try_lock(); if (b) { x.on = true; ++holds[t][x.c[0]]; } r = b ? "true" : "false"; }
        else if (n == "hunlock") { bool w = x.on; if (w) { x.on = false; --holds[t][x.c[0]]; } try { if (x.u) x.u->unlock(); else x.cu->unlock(); } catch (...) { if (w) { x.on = true; ++holds[t][x.c[0]]; } throw; } }
        else if (n == "hclose") { if (x.on) for (int i = 0; i < x.n; ++i) --holds[t][x.c[i]]; for (int i = 0; i < 3; ++i) { delete x.s[i]; delete x.cs[i]; } delete x.u; delete x.cu; x = H(); }
        else if (n == "hget") { int i = k - 1; val = x.u ? (f % 2 ? (*x.u)->get() : (**x.u).get()) : x.cu ? (f % 2 ? (*x.cu)->get() : (**x.cu).get()) : x.s[i] ? (f % 2 ? (*x.s[i])->get() : (**x.s[i]).get()) : (f % 2 ? (*x.cs[i])->get() : (**x.cs[i]).get()); }
        else if (n == "hset") { int i = k - 1; Pay& p = x.u ? (f % 2 ? *x.u->operator->() : **x.u) : (f % 2 ? *x.s[i]->operator->() : **x.s[i]); p.set(o.b); }
        else if (n == "hmove") { for (int i = 0; i < 3; ++i) { if (x.s[i]) { SP* p = new SP(boost::move(*x.s[i])); delete x.s[i]; x.s[i] = p; } if (x.cs[i]) { CSP* p = new CSP(boost::move(*x.cs[i])); delete x.cs[i]; x.cs[i] = p; } }
          if (x.u) { UP* p = new UP(boost::move(*x.u)); delete x.u; x.u = p; } if (x.cu) { CUP* p = new CUP(boost::move(*x.cu)); delete x.cu; x.cu = p; } }
        else { SV& a = *v[x.c[0]]; const SV& ka = a;      // hadopt
          if (x.u) { x.u->release(); delete x.u; x.u = new UP(a.adopt_synchronize()); } else { x.cu->release(); delete x.cu; x.cu = new CUP(ka.adopt_synchronize()); }
          if (!(x.u ? x.u->owns_lock() : x.cu->owns_lock())) r = "lost"; }
      } catch (boost::lock_error&) { r = "error"; }
      ret(t, n.c_str(), r, val); return;
    }
    const char* r = "ok"; int val = 0; int rl = (n == "cmp" || n == "cmt") ? k % 6 : 0;
    call(t, n.c_str(), o.a, o.b, 10 * rl + (thr ? 1000 : 0));
    g_arm[t] = thr;
    try {
      if (n == "get") val = get(q[0], f % 10);
      else if (n == "set") set(q[0], o.b, f % 6);
      else if (n == "add") val = add(q[0], o.b, f % 4);
      else if (n == "swt") { Pay p(o.b); if (f % 3 == 0) v[q[0]]->swap(p); else if (f % 3 == 1) swap(*v[q[0]], p); else swap(p, *v[q[0]]); val = p.get(); }
      else if (n == "asg") *v[q[0]] = *v[q[1]];
      else if (n == "swp") { if (f % 2) swap(*v[q[0]], *v[q[1]]); else v[q[0]]->swap(*v[q[1]]); }
      else if (n == "cmp") { const SV &x = *v[q[0]], &y = *v[q[1]]; r = rel(rl, x, y) ? "true" : "false"; }
      else if (n == "cmt") { const SV& x = *v[q[0]]; Pay p(o.b); if (f % 2) { static const int inv[] = {0, 1, 4, 5, 2, 3}; r = rel(inv[rl], p, x) ? "true" : "false"; } else r = rel(rl, x, p) ? "true" : "false"; }
      else r = "unknown";
    } catch (Thrown&) { r = "thrown"; }
    if (g_arm[t]) { g_arm[t] = 0; r = "armed"; }
    ret(t, n.c_str(), r, val, o.a);
  }
};
template <class M> static void go(const Program& p, bool rec) {
  Run<M>* r = new Run<M>(rec);
  run_standard(p, [=](int t, const Op& o) { r->op(t, o); });
}
void vs::driver_run(const Program& p) {
  memset(g_arm, 0, sizeof g_arm);
  switch (p.get("m")) { case 1: go<boost::recursive_mutex>(p, true); break; case 2: go<boost::timed_mutex>(p, false); break; default: go<boost::mutex>(p, false); }
}
