// Driver: condition_variable and condition_variable_any as monitors.
// cfg: k = kind (0 condition_variable, 1 any+unique_lock<mutex>, 2 any+unique_lock<recursive_mutex>,
//      3 any+unique_lock<timed_mutex>, 4 any+mutex itself), bt = program threads are boost::threads (2: detached), 0: threads not created by the library
//      (1 joinable handles kept, 2 detached)
// ops: lock x | unlock x | n1 x | nall x | set x v | jump _ ms | exit x mask
//      wait forms: wait for forms until suntil cuntil tabs trel xt inf   x us pred
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/xtime.hpp>
using namespace vs;
enum { NX = 2 };
struct Pred { int* f; bool operator()() const { return *f > 0; } };

static const char* st(boost::cv_status s) { return s == boost::cv_status::timeout ? "timeout" : "ok"; }
static const char* tm(bool b) { return b ? "ok" : "timeout"; }
static const char* tf(bool b) { return b ? "true" : "false"; }

template <class CV, class L> const char* do_wait(CV& cv, L& l, const Op& o, Timeout& x, int* flag) {
  const std::string& s = o.name; bool p = o.c & 1; Pred q = {flag};
  if (s == "wait") { if (p) { cv.wait(l, q); return "true"; } cv.wait(l); return "ok"; }
  if (s == "inf") { boost::posix_time::time_duration d(boost::posix_time::pos_infin); return p ? tf(cv.timed_wait(l, d, q)) : tm(cv.timed_wait(l, d)); }
  if (s == "ninf") { boost::posix_time::time_duration d(boost::posix_time::neg_infin); return p ? tf(cv.timed_wait(l, d, q)) : tm(cv.timed_wait(l, d)); }
  if (s == "for") return p ? tf(cv.wait_for(l, usec(o.b), q)) : st(cv.wait_for(l, usec(o.b)));
  if (s == "forms") { boost::chrono::nanoseconds d(o.b * 1000ll); return p ? tf(cv.wait_for(l, d, q)) : st(cv.wait_for(l, d)); }
  if (s == "until") return p ? tf(cv.wait_until(l, x.st, q)) : st(cv.wait_until(l, x.st));
  if (s == "suntil") return p ? tf(cv.wait_until(l, x.sy, q)) : st(cv.wait_until(l, x.sy));
  if (s == "cuntil") return p ? tf(cv.wait_until(l, x.us, q)) : st(cv.wait_until(l, x.us));
  if (s == "tabs") return p ? tf(cv.timed_wait(l, x.pt, q)) : tm(cv.timed_wait(l, x.pt));
  if (s == "trel") return p ? tf(cv.timed_wait(l, pusec(o.b), q)) : tm(cv.timed_wait(l, pusec(o.b)));
  if (s == "xt") {
    boost::xtime w = boost::xtime(); boost::posix_time::time_duration dd = x.pt - boost::posix_time::from_time_t(0);
    w.sec = dd.total_seconds(); w.nsec = (int)(dd.total_microseconds() % 1000000) * 1000;
    return p ? tf(cv.timed_wait(l, w, q)) : tm(cv.timed_wait(l, w));
  }
  abort();
}
static int bits(const Op& o) {
  const std::string& s = o.name; int b = (o.c & 1) ? 2 : 0;
  if (s == "wait" || s == "inf") return b;
  b |= 1;
  if (s == "suntil" || s == "tabs" || s == "xt") b |= 4 | 8;
  if (s == "cuntil") b |= 4;
  if (s == "for" || s == "forms" || s == "trel" || s == "ninf") b |= 16;
  return b;
}
static int g_off;
static void at_exit_cv(boost::condition_variable& c, boost::unique_lock<boost::mutex>& l) { boost::notify_all_at_thread_exit(c, boost::move(l)); }
template <class A, class B> void at_exit_cv(A&, B&) { abort(); }
struct TlsDone { int t; void operator()() const { ev("ev", t, "tlsdone", 0, 0, "", 0); } };

template <class M> struct UL { typedef boost::unique_lock<M> T; static T* mk(M& m) { return new T(m, boost::defer_lock); } };
template <class M> struct SELF { typedef M T; static T* mk(M& m) { return &m; } };

template <class CV, class M> const char* bad_wait(CV& cv, boost::unique_lock<M>& l, int how) {
  Timeout x(2000); const char* r = "done";
  try {
    if (how == 0) cv.wait(l); else if (how == 1) cv.wait_for(l, usec(2000)); else if (how == 2) cv.wait_until(l, x.sy); else cv.timed_wait(l, pusec(2000));
  } catch (boost::system::system_error&) { r = "err"; }
  return l.owns_lock() ? "owns" : r;
}
template <class CV, class L> const char* bad_wait(CV&, L&, int) { return "err"; }

template <class CV, class M, class LT> void go(const Program& p) {
  typedef typename LT::T L;
  struct S { M m[NX]; CV cv[NX]; int flag[NX]; };
  S* s = new S; memset(s->flag, 0, sizeof s->flag);
  static L* lk[16][NX]; static bool held[16][NX]; static bool exiting[16];
  memset(held, 0, sizeof held); memset(exiting, 0, sizeof exiting); g_off = 0;
  for (int i = 0; i < 16; ++i) for (int j = 0; j < NX; ++j) lk[i][j] = i <= (int)p.th.size() ? LT::mk(s->m[j]) : 0;
  int bt = p.get("bt");
  std::function<void(int, std::function<void()>)> launch;
  if (bt) launch = [bt](int, std::function<void()> f) { boost::thread* th = new boost::thread(f); if (bt == 2) th->detach(); };
  int kk = p.get("k");
  run_standard(p, [=](int t, const Op& o) {
    int x = o.a; const std::string& n = o.name;
    if (exiting[t]) return;
    if (n == "lock") { if (held[t][x]) return; call(t, "lock", x); lk[t][x]->lock(); held[t][x] = true; pread(x); pwrite(x); ret(t, "lock", "ok", 0, x); return; }
    if (n == "unlock") { if (!held[t][x]) return; pwrite(x); call(t, "unlock", x); held[t][x] = false; lk[t][x]->unlock(); ret(t, "unlock", "ok", 0, x); return; }
    if (n == "n1") { call(t, "n1", x); s->cv[x].notify_one(); ret(t, "n1", "ok", 0, x); return; }
    if (n == "nall") { call(t, "nall", x); s->cv[x].notify_all(); ret(t, "nall", "ok", 0, x); return; }
    if (n == "set") { if (!held[t][x]) return; NoPreempt np; s->flag[x] = o.b; ev("ev", t, "set", x, o.b, "", 0); return; }
    if (n == "jump") { NoPreempt np; jump_realtime(o.b * 1000ll); g_off += o.b * 1000; ev("ev", t, "jump", 0, 0, "", o.b * 1000); return; }
    if (n == "exit") {
      if (o.name != "exit" || kk) return;
      if (o.b & 1) { if (!held[t][x]) return; }
      exiting[t] = true;
      boost::this_thread::at_thread_exit(TlsDone{t});
      for (int y = 0; y < NX; ++y) if (held[t][y]) { call(t, "exit", y); at_exit_cv(s->cv[y], *lk[t][y]); ret(t, "exit", "ok", 0, y); }
      return;
    }
    if (n == "wbad") {                 // a wait without the mutex is refused
      if (held[t][x]) return;
      call(t, "wbad", x);
      const char* r = bad_wait(s->cv[x], *lk[t][x], o.b % 4);
      ret(t, "wbad", r, 0, x); return;
    }
    if (!held[t][x]) return;
    int b = bits(o); NoPreempt* np = new NoPreempt; Timeout to(n == "ninf" ? 0 : o.b); if (b & 8) to.dl += g_off; delete np;
    if (n == "ninf" && !(o.c & 1)) return;
    pwrite(x);
    call(t, "wait", x, b, (b & 1) ? to.dl : 0);
    const char* r = do_wait(s->cv[x], *lk[t][x], o, to, &s->flag[x]);
    pread(x); pwrite(x);
    ret(t, "wait", r, 0, x);
  }, launch);
}
void vs::driver_run(const Program& p) {
  switch (p.get("k")) {
    case 0: go<boost::condition_variable, boost::mutex, UL<boost::mutex> >(p); break;
    case 1: go<boost::condition_variable_any, boost::mutex, UL<boost::mutex> >(p); break;
    case 2: go<boost::condition_variable_any, boost::recursive_mutex, UL<boost::recursive_mutex> >(p); break;
    case 3: go<boost::condition_variable_any, boost::timed_mutex, UL<boost::timed_mutex> >(p); break;
    default: go<boost::condition_variable_any, boost::mutex, SELF<boost::mutex> >(p); break;
  }
}
