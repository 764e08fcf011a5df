// Driver: completion_latch.  cfg: n = count, k = 0 no function, 1 functor, 2 fn ptr, 3 then(fn ptr); rs = the function resets the count to rs;
// raw = 1: no restriction on when operations are issued
// ops: wait | cd | sig | cdw | sync | try | for _ us | until _ us
// The countdown that reaches zero is only issued when every other thread waits or has finished, and at least one waits.
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/thread.hpp>
using namespace vs;
static int g_left, g_waiting, g_rs, g_hb, g_cyc;
static boost::completion_latch* g_l;
static const char* st(boost::cv_status s) { return s == boost::cv_status::timeout ? "timeout" : "ok"; }
static void done(int k) {
  ev("ev", tid(), "fct", k, 0, "", 0);
  if (!g_rs) for (int i = 1; i < 5; ++i) pread(i);
  ++g_cyc;
  if (g_rs && g_cyc < 3) { { NoPreempt np; g_left = g_rs; g_l->reset(g_rs); } ev("ev", tid(), "reset", g_rs, 0, "", 0); }
}
static void f1() { done(1); }
static void f2() { done(2); }
struct F { void operator()() { done(1); } };
void vs::driver_run(const Program& p) {
  int n0 = p.get("n", 1), k = p.get("k"), raw = p.get("raw");
  g_left = n0; g_waiting = 0; g_rs = p.get("rs"); g_cyc = 0;
  boost::completion_latch* l;
  if (k == 1) l = new boost::completion_latch(n0, F()); else if (k == 2) l = new boost::completion_latch(n0, &f1); else l = new boost::completion_latch(n0);
  g_l = l;
  if (k == 3) { l->then(&f2); boost::completion_latch::completion_function old = l->then(&f1); old = l->then(&f2); if (!old) fault("then", 0); }
  run_standard(p, [=](int t, const Op& o) {
    const std::string& n = o.name;
    bool down = n == "cd" || n == "sig" || n == "cdw" || n == "sync";
    if (!raw) {
      { NoPreempt np; if (g_left <= 0) return; if (!down) { ++g_waiting; } else if (g_left > 1) { --g_left; if (n == "cdw" || n == "sync") ++g_waiting; down = false; } }
      if (down) {
        wait_idle();
        NoPreempt np; if (g_left != 1 || !g_waiting) return; g_left = 0; g_waiting = 0;
      }
    }
    if (n != "wait" && n != "try" && n != "for" && n != "until") pwrite(t);
    const char* r = "ok";
    if (n == "wait") { call(t, "wait"); l->wait(); }
    else if (n == "try") { call(t, "try"); r = l->try_wait() ? "true" : "false"; }
    else if (n == "cd") { call(t, "cd"); l->count_down(); }
    else if (n == "sig") { call(t, "cd"); l->signal(); }
    else if (n == "cdw") { call(t, "cdw"); l->count_down_and_wait(); }
    else if (n == "sync") { call(t, "cdw"); l->sync(); }
    else { Timeout x(o.b); call(t, "wait", 1, n == "for" ? 2 : 0, x.dl); r = n == "for" ? st(l->wait_for(usec(o.b))) : st(l->wait_until(x.st)); }
    ret(t, n == "sig" ? "cd" : n == "sync" ? "cdw" : n == "for" || n == "until" ? "wait" : n.c_str(), r);
  });
}
