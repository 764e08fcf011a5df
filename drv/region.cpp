// Driver: task regions.
// cfg: k = kind of executor: 0 basic_thread_pool (n threads), 1 inline_executor, 2 thread_executor, 3 the default one (NOEX: async without executors)
// ops: reg form (the following ops up to "end" are its body) | run kind keep form | wait keep | thr | end | close
//   kind of task: 0 returns, 1 throws, 2 throws a list of two, 3 throws task_canceled_exception, 4 a region with one task (+16*kind) of its own, 5 waits for a while
//   keep: 0 an exception thrown by the operation leaves the body, 1 the body goes on
// Contexts: driver thread t, or 10 + k inside of task k.
#ifndef NOEX
#define BOOST_THREAD_PROVIDES_EXECUTORS
#endif
#define BOOST_THREAD_USES_MOVE
#define BOOST_RESULT_OF_USE_DECLTYPE
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#ifndef NOEX
#include <boost/thread/executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#endif
#include <boost/thread/experimental/parallel/v2/task_region.hpp>
using namespace vs;
namespace tr2 = boost::experimental::parallel::v2; typedef boost::experimental::parallel::v1::exception_list EL;
enum { MAXT = 8, NT = 3 };
struct Boom { int v; };
static int nid, g_live, nestn, g_x[24];
// the exceptions in a list, counted; a list in a list counts as exception 10 unless flat
static int exc_sum(EL const& l, bool flat = false) {
  int v = 0;
  for (EL::const_iterator i = l.begin(); i != l.end(); ++i) {
    int k = 9;
    try { boost::rethrow_exception(*i); } catch (Boom& b) { k = b.v; } catch (EL& m) { if (flat) { v += exc_sum(m, true); continue; } k = 10; } catch (...) { k = 9; }
    v += 1 << 2 * (k - 1);
  }
  return v;
}
static Boom make(int k) { Boom b = {k}; return b; }
static void body_of(int ctx, int id, int kind, void* ex);
struct Task {
  int id, kind; void* ex;
  static void n(int d) { NoPreempt np; g_live += d; }
  Task(int i, int k, void* e) : id(i), kind(k), ex(e) { n(1); }
  Task(const Task& o) : id(o.id), kind(o.kind), ex(o.ex) { n(1); }
  Task(Task&& o) noexcept : id(o.id), kind(o.kind), ex(o.ex) { n(1); o.id = -1; }
  ~Task() { id = -2; n(-1); }
  void operator()() {
    int me = id; if (me < 1 || me > MAXT) { fault("dead", 0); return; }
    pread(me); ev("ev", 10 + me, "start", me, 0, "", 0);
    try { body_of(10 + me, me, kind, ex); }
    catch (tr2::task_canceled_exception&) { pwrite(20 + me); ev("ev", 10 + me, "end", me, 1, "", 0); throw; }
    catch (EL& l) { pwrite(20 + me); ev("ev", 10 + me, "end", me, 1, "", exc_sum(l, true)); throw; }
    catch (Boom& b) { pwrite(20 + me); ev("ev", 10 + me, "end", me, 1, "", 1 << 2 * (b.v - 1)); throw; }
    pwrite(20 + me); ev("ev", 10 + me, "end", me, 0, "", 0);
  }
};
struct Want { bool run; int a, b, c; const char* n; };
static int new_id() { NoPreempt np; return nid < MAXT ? ++nid : 0; }
template <class H> static void run(H& h, int ctx, int kind, int keep, void* ex, unsigned& mine) {
  int id = new_id(); if (!id) return;
  pwrite(id);
  call(ctx, "run", id);
  { NoPreempt np; mine |= 1u << id; }
  const char* r = "ok";
  try { h.run(Task(id, kind, ex)); } catch (tr2::task_canceled_exception&) { r = "canceled"; if (!keep) { ret(ctx, "run", r); throw; } }
  ret(ctx, "run", r);
}
template <class H> static void wait(H& h, int ctx, int keep) {
  call(ctx, "wait"); const char* r = "ok"; int v = 0;
  try { h.wait(); }
  catch (tr2::task_canceled_exception&) { r = "canceled"; if (!keep) { ret(ctx, "wait", r); throw; } }
  catch (EL& l) { r = "list"; v = exc_sum(l); if (!keep) { ret(ctx, "wait", r, v); throw; } }
  ret(ctx, "wait", r, v);
}
// runs one region in ctx; body: what its function does
template <class B> static void region(int ctx, int form, void* ex, B const& b, bool rethrow) {
  call(ctx, "reg"); const char* r = "ok"; int v = 0; unsigned mine = 0;
  try {
#ifndef NOEX
    switch (ex ? g_x[0] : 3) {
      case 0: { boost::basic_thread_pool& e = *(boost::basic_thread_pool*)ex; auto f = [&](tr2::task_region_handle_gen<boost::basic_thread_pool>& h) { b(h, mine); }; if (form) tr2::task_region_final(e, f); else tr2::task_region(e, f); break; }
      case 1: { boost::inline_executor& e = *(boost::inline_executor*)ex; auto f = [&](tr2::task_region_handle_gen<boost::inline_executor>& h) { b(h, mine); }; if (form) tr2::task_region_final(e, f); else tr2::task_region(e, f); break; }
      case 2: { boost::thread_executor& e = *(boost::thread_executor*)ex; auto f = [&](tr2::task_region_handle_gen<boost::thread_executor>& h) { b(h, mine); }; if (form) tr2::task_region_final(e, f); else tr2::task_region(e, f); break; }
      default:
#endif
      { auto f = [&](tr2::task_region_handle& h) { b(h, mine); }; if (form) tr2::task_region_final(f); else tr2::task_region(f); }
#ifndef NOEX
    }
#endif
  } catch (EL& l) { r = "list"; v = exc_sum(l); if (l.size() == 0) r = "nolist"; for (int i = 1; i <= MAXT; ++i) if (mine >> i & 1) pread(20 + i); ret(ctx, "reg", r, v); if (rethrow) throw; return; }
  catch (...) { r = "other"; }
  for (int i = 1; i <= MAXT; ++i) if (mine >> i & 1) pread(20 + i);
  ret(ctx, "reg", r, v);
}
static void leave(int ctx, int a, int v = 0) { call(ctx, "end", a, 0, v); }
struct Nested { int ctx, kind; void* ex;
  template <class H> void operator()(H& h, unsigned& mine) const { run(h, ctx, kind, 1, ex, mine); if (kind == 5) wait(h, ctx, 1); leave(ctx, 0); } };
static void body_of(int ctx, int id, int kind, void* ex) {
  switch (kind & 15) {
    case 1: throw make(id);
    case 2: { EL l; l.add(boost::copy_exception(make(id))); EL m; m.add(boost::copy_exception(make(id))); l.add(boost::copy_exception(m)); throw l; }
    case 3: throw tr2::task_canceled_exception();
    case 4: { Nested b = {ctx, kind >> 4, ex}; region(ctx, id & 1, ex, b, true); break; }
    case 5: boost::this_thread::sleep_for(usec(300)); break;
    default: point();
  }
}
static const Program* g_p; static size_t g_pos[NT + 1]; static bool g_script;
struct Body { int t; void* ex;
  template <class H> void operator()(H& h, unsigned& mine) const {
    std::vector<Op> const& ops = g_p->th[t - 1]; size_t& p = g_pos[t];
    try {
      for (; p < ops.size(); ) {
        if (g_script) gate_wait(t); else point();
        Op const& o = ops[p++]; std::string const& n = o.name;
        if (n == "end") break;
        else if (n == "run") run(h, t, o.a, o.b, ex, mine);
        else if (n == "wait") wait(h, t, o.a);
        else if (n == "idle") { wait_idle(); ev("quiet", 0, "step", 0, 0, "", 0); }
        else if (n == "thr") throw make(9);
      }
    } catch (tr2::task_canceled_exception&) { skip(); leave(t, 1); throw; }
    catch (EL& l) { skip(); leave(t, 1, exc_sum(l)); throw; }
    catch (Boom&) { skip(); leave(t, 1, 1 << 16); throw; }
    leave(t, 0);
  }
  void skip() const { std::vector<Op> const& ops = g_p->th[t - 1]; size_t& p = g_pos[t]; while (p > 0 && p < ops.size() && ops[p - 1].name != "end") ++p; }
};
void vs::driver_run(const Program& p) {
  nid = 0; g_live = 0; g_x[0] = p.get("k"); g_p = &p; memset(g_pos, 0, sizeof g_pos); g_script = !p.order.empty();
  void* ex = 0;
#ifndef NOEX
  switch (g_x[0]) { case 0: ex = new boost::basic_thread_pool(p.get("n", 1)); break; case 1: ex = new boost::inline_executor(); break; case 2: ex = new boost::thread_executor(); break; }
#endif
  // a region takes the operations of its body itself
  static size_t seen[NT + 1]; memset(seen, 0, sizeof seen);
  run_standard(p, [=](int t, const Op& o) {
    if (seen[t]++ < g_pos[t]) return;
    g_pos[t]++;
    if (o.name == "reg") { Body b = {t, ex}; region(t, o.a, ex, b, false); }
  });
#ifndef NOEX
  switch (g_x[0]) { case 0: delete (boost::basic_thread_pool*)ex; break; case 1: delete (boost::inline_executor*)ex; break; case 2: delete (boost::thread_executor*)ex; break; }
#endif
  wait_idle();
  ev("ev", 0, "leak", g_live, 0, "", 0);
}
