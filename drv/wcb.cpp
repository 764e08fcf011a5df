// Driver: wait callbacks of promises and packaged tasks.
// cfg: k0, k1 = kind of the two sources: 0 promise<int>, 1 packaged_task<int()>, 2 promise<void>
// ops: scb s kind | set s | w s form us | any form | all form | rdy s
//   kind of callback: 1 does nothing, 2 satisfies its source, 3 throws, 4 replaces the callback by one that does nothing, 5 satisfies its source after a while
// Contexts: driver thread t, or 10 + t inside of a callback.
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
using namespace vs;
enum { NT = 3 };
struct Boom {};
static int g_live; static void live(int d) { NoPreempt np; g_live += d; }
typedef boost::promise<int> PI; typedef boost::promise<void> PV;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> PT;
#else
typedef boost::packaged_task<int> PT;
#endif
static int f0() { point(); return 7; }
struct Src { int k; PI* i; PT* t; PV* v; boost::shared_future<int> fi; boost::shared_future<void> fv; };
static Src* g_s; static bool g_started[3];
static int which(void* p) { for (int i = 1; i < 3; ++i) if (p == g_s[i].i || p == g_s[i].t || p == g_s[i].v) return i; return 0; }
static void scb(int c, int s, int kind);
static void satisfy(int c, int s) {
  Src& x = g_s[s]; call(c, "set", s); const char* r = "ok";
  try { if (x.k == 0) x.i->set_value(7); else if (x.k == 1) (*x.t)(); else x.v->set_value(); }
  catch (boost::promise_already_satisfied&) { r = "already"; } catch (boost::task_already_started&) { r = "already"; }
  ret(c, "set", r, 0, s);
}
struct Cb { typedef void result_type;
  int kind, s;
  Cb(int k, int s_) : kind(k), s(s_) { live(1); } Cb(const Cb& o) : kind(o.kind), s(o.s) { live(1); } ~Cb() { kind = -1; s = -1; live(-1); }
  template <class P> void operator()(P& p) const {
    int t = tid(), kd = kind, me = s;
    ev("ev", t, "cb", me, kd, which(&p) == me ? "" : "wrong", 0);
    bool thr = false;
    try { switch (kd) { case 2: satisfy(10 + t, me); break; case 3: throw Boom(); case 4: scb(10 + t, me, 1); break; case 5: boost::this_thread::sleep_for(usec(300)); satisfy(10 + t, me); break; default: point(); } }
    catch (Boom&) { thr = true; }
    if (kind != kd) fault("dead", 0);
    ev("ev", t, "cbx", me, thr, "", 0);
    if (thr) throw Boom();
  }
};
static void scb(int c, int s, int kind) {
  call(c, "scb", s, kind); Src& x = g_s[s]; Cb f(kind, s);
  if (x.k == 0) x.i->set_wait_callback(f); else if (x.k == 1) x.t->set_wait_callback(f); else x.v->set_wait_callback(f);
  ret(c, "scb", "ok");
}
static const char* st(boost::future_status s) { return s == boost::future_status::ready ? "ok" : s == boost::future_status::timeout ? "timeout" : "deferred"; }
static int val(boost::shared_future<int>& f) { return f.get(); } static int val(boost::shared_future<void>& f) { f.get(); return 7; }
template <class F> static const char* wait(F& f, int form, int us, Timeout& x, int& v) {
  switch (form) {
    case 0: f.wait(); return "ok"; case 1: v = val(f); return v == 7 ? "ok" : "value"; case 2: return st(f.wait_for(usec(us))); case 3: return st(f.wait_until(x.st)); case 4: return st(f.wait_until(x.sy));
    case 5: return f.timed_wait(pusec(us)) ? "ok" : "timeout"; case 6: return f.timed_wait_until(x.pt) ? "ok" : "timeout"; default: return f.get_exception_ptr() ? "exception" : "ok"; }
}
template <class F, class G> static const char* multi(bool any, int form, F& f, G& g) {
  int i = -1;
  if (any) i = form % 2 ? boost::wait_for_any(g, f) : boost::wait_for_any(f, g); else if (form % 2) boost::wait_for_all(g, f); else boost::wait_for_all(f, g);
  if (!any) return "ok";
  if (form % 2) i = 1 - i;
  return i == 0 ? "1" : i == 1 ? "2" : "none";
}
void vs::driver_run(const Program& p) {
  g_live = 0; memset(g_started, 0, sizeof g_started);
  g_s = new Src[3]();     // (left behind if somebody still waits)
  for (int s = 1; s < 3; ++s) { Src& x = g_s[s]; x.i = 0; x.t = 0; x.v = 0; x.k = p.get(s == 1 ? "k0" : "k1");
    if (x.k == 0) { x.i = new PI(); x.fi = x.i->get_future().share(); } else if (x.k == 1) { x.t = new PT(f0); x.fi = x.t->get_future().share(); } else { x.v = new PV(); x.fv = x.v->get_future().share(); } }
  bool isv[3] = {false, g_s[1].k == 2, g_s[2].k == 2}; bool v1 = isv[1], v2 = isv[2];
  run_standard(p, [=](int t, const Op& o) {
    const std::string& n = o.name; int s = o.a; bool two = n == "any" || n == "all"; if (!two && (s < 1 || s > 2)) return;
    if (n == "scb") { scb(t, s, o.b); return; }
    if (n == "set") { satisfy(t, s); return; }
    boost::shared_future<int> a = g_s[1].fi, b = g_s[2].fi; boost::shared_future<void> va = g_s[1].fv, vb = g_s[2].fv;   // futures of our own
    if (n == "rdy") { call(t, "rdy", s); bool r = s == 1 ? v1 ? va.is_ready() : a.is_ready() : v2 ? vb.is_ready() : b.is_ready(); ret(t, "rdy", r ? "true" : "false"); return; }
    const char* r = "?"; int v = 0;
    if (two) {
      call(t, n.c_str(), o.a % 2);
      try { bool y = n == "any"; r = v1 ? v2 ? multi(y, o.a, va, vb) : multi(y, o.a, va, b) : v2 ? multi(y, o.a, a, vb) : multi(y, o.a, a, b); } catch (Boom&) { r = "thrown"; }
      ret(t, n.c_str(), r); return;
    }
    Timeout x(o.c); int f = o.b & 7;
    call(t, "w", s, f >= 2 && f <= 6, x.dl);
    try { r = s == 1 ? v1 ? wait(va, f, o.c, x, v) : wait(a, f, o.c, x, v) : v2 ? wait(vb, f, o.c, x, v) : wait(b, f, o.c, x, v); } catch (Boom&) { r = "thrown"; }
    ret(t, "w", r);
  });
  // nobody waits any more once both are satisfied
  { NoPreempt np; for (int s = 1; s < 3; ++s) if (!(g_s[s].k == 2 ? g_s[s].fv.is_ready() : g_s[s].fi.is_ready())) return; }
  for (int s = 1; s < 3; ++s) { delete g_s[s].i; delete g_s[s].t; delete g_s[s].v; }
  delete[] g_s; g_s = 0;
  wait_idle();
  ev("ev", 0, "leak", g_live, 0, "", 0);
}
