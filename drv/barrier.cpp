// Driver: barrier.  cfg: n = count, n2 = alternative count (functions returning the next count), k = kind, hb = payload checks
// kinds: 0 none, 1 void functor, 2 counting functor, 3 void fn ptr, 4 counting fn ptr, 5 null void fn ptr, 6/7 = 1/2 from an lvalue, 8 null counting fn ptr
// ops: w alias | sleep us | zero k
#include "vs.h"
#include "util.h"
#include <boost/thread/barrier.hpp>
#include <boost/thread/thread.hpp>
using namespace vs;
static int g_k, g_n, g_n2, g_hb, g_nt, g_gen, g_slow;
static void fct() {
  ev("ev", tid(), "fct", 0, 0, "", 0);
  int g = g_gen++;
  if (g_hb) { if (g % 2 == 0) for (int i = 1; i <= g_nt; ++i) pread(i); pwrite(9); }
  if (g_slow) boost::this_thread::sleep_for(usec(300));
  ev("ev", tid(), "fend", 0, 0, "", 0);
}
static unsigned nextc() { fct(); return g_gen % 2 ? g_n2 : g_n; }
static void vfct() { fct(); }
// the functors refuse to be used after a move
struct VF { int ok; VF() : ok(7) {} VF(VF const& o) : ok(o.ok) {} VF(VF&& o) : ok(o.ok) { o.ok = 0; } ~VF() { ok = 0; } void operator()() { if (ok != 7) fault("functor", ok); fct(); } };
struct CF { int ok; CF() : ok(7) {} CF(CF const& o) : ok(o.ok) {} CF(CF&& o) : ok(o.ok) { o.ok = 0; } ~CF() { ok = 0; } unsigned operator()() { if (ok != 7) fault("functor", ok); return nextc(); } };
static boost::barrier* mk(int k, unsigned n) {
  switch (k) {
    case 0: return new boost::barrier(n);
    case 1: return new boost::barrier(n, VF());
    case 2: return new boost::barrier(n, CF());
    case 3: return new boost::barrier(n, &vfct);
    case 4: return new boost::barrier(n, &nextc);
    case 5: return new boost::barrier(n, (void (*)())0);
    case 6: { VF f; return new boost::barrier(n, f); }
    case 7: { CF f; return new boost::barrier(n, f); }
    default: return new boost::barrier(n, (unsigned (*)())0);
  }
}
void vs::driver_run(const Program& p) {
  g_k = p.get("k"); g_n = p.get("n", 2); g_n2 = p.get("n2", g_n); g_hb = p.get("hb"); g_slow = p.get("slow"); g_nt = p.th.size(); g_gen = 0;
  boost::barrier* b = mk(g_k, g_n);
  static int cnt[16]; memset(cnt, 0, sizeof cnt);
  run_standard(p, [=](int t, const Op& o) {
    if (o.name == "sleep") { boost::this_thread::sleep_for(usec(o.a)); return; }
    if (o.name == "zero") {
      call(t, "zero", o.a);
      const char* r = "ok";
      try { mk(o.a, 0); } catch (boost::thread_exception& e) { r = e.code().value() == boost::system::errc::invalid_argument ? "thrown" : "other"; } catch (...) { r = "any"; }
      ret(t, "zero", r); return;
    }
    int i = cnt[t]++;
    if (g_hb && i % 2 == 0) pwrite(t);
    call(t, "w", o.a);
    const char* r = "none";
    if (o.a) b->count_down_and_wait(); else r = b->wait() ? "true" : "false";
    if (g_hb) { if (i % 2 == 0) for (int j = 1; j <= g_nt; ++j) pread(j); if (g_k != 0 && g_k != 5 && g_k != 8) pread(9); }
    ret(t, "w", r, 0, o.a);
  });
}
