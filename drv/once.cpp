// Driver: call_once.  ops: once f mode args   mode: 0 ok, 1 throws, 2 throws the first time, 3 calls the next flag, 4 sleeps, 5 old argument order
#include "vs.h"
#include "util.h"
#include <boost/thread/once.hpp>
#include <boost/thread/thread.hpp>
using namespace vs;
enum { NF = 4 };
struct Boom {};
#ifdef BOOST_THREAD_PROVIDES_ONCE_CXX11
static boost::once_flag* g_f[NF];
#else
static boost::once_flag* g_f[NF];
#endif
static int g_runs[NF];
static void do_once(int t, int f, int mode, int args);
static int g_args;
struct Fn {
  int t, f, mode;
  void body(int sum, int want) const {
    int n = ++g_runs[f];
    ev("ev", t, "begin", f, n, "", 0);
    if (sum != want) fault("args", sum);
    pread(f); pwrite(f);
    if (mode == 4) boost::this_thread::sleep_for(usec(500));
    if (mode == 3 && f + 1 < NF) do_once(t, f + 1, 0, 0);
    pwrite(f);
    if (mode == 1 || (mode == 2 && n == 1)) { ev("ev", t, "fail", f, 0, "", 0); throw Boom(); }
    ev("ev", t, "end", f, 0, "", 0);
  }
  void operator()() const { body(0, 0); }
  void operator()(int a) const { body(a, 1); }
  void operator()(int a, int b) const { body(a + 10 * b, 21); }
  void operator()(int a, int b, int c) const { body(a + 10 * b + 100 * c, 321); }
};
static Fn* g_cur;
static void do_once(int t, int f, int mode, int args) {
  Fn fn = {t, f, mode};
  call(t, "once", f);
  const char* r = "ok";
  try {
    if (mode == 5) boost::call_once(fn, *g_f[f]);
    else switch (args) {
      case 0: boost::call_once(*g_f[f], fn); break;
      case 1: boost::call_once(*g_f[f], fn, 1); break;
      case 2: boost::call_once(*g_f[f], fn, 1, 2); break;
      default: boost::call_once(*g_f[f], fn, 1, 2, 3); break;
    }
    pread(f);
  } catch (Boom&) { r = "thrown"; }
  ret(t, "once", r, 0, f);
}
void vs::driver_run(const Program& p) {
  memset(g_runs, 0, sizeof g_runs);
#ifdef BOOST_THREAD_PROVIDES_ONCE_CXX11
  for (int i = 0; i < NF; ++i) g_f[i] = new boost::once_flag();
#else
  static const boost::once_flag init = BOOST_ONCE_INIT;
  for (int i = 0; i < NF; ++i) { g_f[i] = new boost::once_flag; memcpy((void*)g_f[i], (const void*)&init, sizeof init); }
#endif
  run_standard(p, [=](int t, const Op& o) { do_once(t, o.a, o.b, o.c); });
}
