// Driver: latch.  cfg: n = count, hb = payload checks
// ops: wait | try | cd | sig | tcd | cdw | sync | reset n | timed waits: for forms until suntil cuntil _ us
// A countdown that could go below zero is skipped, and so is a reset while a countdown is under way.
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/thread.hpp>
using namespace vs;
static int g_left, g_busy, g_hb, g_nt;
static const char* st(boost::cv_status s) { return s == boost::cv_status::timeout ? "timeout" : "ok"; }
void vs::driver_run(const Program& p) {
  g_left = p.get("n", 1); g_hb = p.get("hb"); g_nt = p.th.size(); g_busy = 0;
  boost::latch* l = new boost::latch(g_left);
  run_standard(p, [=](int t, const Op& o) {
    const std::string& n = o.name;
    bool down = n == "cd" || n == "sig" || n == "cdw" || n == "sync";
    { NoPreempt np;
      if (g_busy < 0) return;
      if (down) { if (g_left <= 0) return; --g_left; ++g_busy; }
      else if (n == "tcd") { if (g_left > 0) --g_left; else if (g_busy) return; ++g_busy; }
      else if (n == "reset") { if (g_busy) return; g_busy = -1; g_left = o.a; }
    }
    if (g_hb && down) pwrite(t);
    const char* r = "ok";
    if (n == "reset") { call(t, n.c_str(), o.a); l->reset(o.a); }
    else if (n == "wait") { call(t, "wait"); l->wait(); }
    else if (n == "try") { call(t, "try"); r = l->try_wait() ? "true" : "false"; }
    else if (n == "cd") { call(t, "cd"); l->count_down(); }
    else if (n == "sig") { call(t, "cd"); l->signal(); }
    else if (n == "tcd") { call(t, "tcd"); r = l->try_count_down() ? "true" : "false"; }
    else if (n == "cdw") { call(t, "cdw"); l->count_down_and_wait(); }
    else if (n == "sync") { call(t, "cdw"); l->sync(); }
    else {
      Timeout x(o.b);
      int b = n == "for" || n == "forms" ? 2 : n == "until" ? 0 : 1;
      call(t, "wait", 1, b, x.dl);
      if (n == "for") r = st(l->wait_for(usec(o.b)));
      else if (n == "forms") r = st(l->wait_for(boost::chrono::nanoseconds(o.b * 1000ll)));
      else if (n == "until") r = st(l->wait_until(x.st));
      else if (n == "suntil") r = st(l->wait_until(x.sy));
      else if (n == "cuntil") r = st(l->wait_until(x.us));
      else abort();
    }
    bool through = r[0] == 'o' && (n != "cd" && n != "sig" && n != "reset");
    if (g_hb && (through || r[0] == 't' && r[1] == 'r')) for (int j = 1; j <= g_nt; ++j) pread(j);
    { NoPreempt np; if (n == "reset") g_busy = 0; else if (down || n == "tcd") --g_busy; }
    ret(t, n == "sig" ? "cd" : n == "sync" ? "cdw" : down || n == "tcd" || n == "try" || n == "reset" ? n.c_str() : "wait", r);
  });
}
