// Driver: mutex, timed_mutex, recursive_mutex, recursive_timed_mutex through their own interfaces.
// cfg: k = kind (0 mutex, 1 timed, 2 recursive, 3 recursive timed)
// ad = adapter over the timed kinds (1 testable_mutex, 2 timed_lockable_adapter, 3 externally_locked)
// ops: lock m | try m | unlock m | and timed attempts: for forms until suntil cuntil tabs trel xt inf m us
#include "vs.h"
#include "util.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/xtime.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/externally_locked.hpp>
#if BOOST_THREAD_VERSION >= 4
#include <boost/thread/testable_mutex.hpp>
#endif
using namespace vs;
enum { NM = 2 };

inline bool xt(boost::timed_mutex& m, boost::xtime const& q) { return m.timed_lock(q); }
inline bool xt(boost::recursive_timed_mutex& m, boost::xtime const& q) { return m.timed_lock(boost::system_time(q)); }
template <class Mx, bool TIMED> struct Timed { static int go(int, Mx&, const Op&) { return -1; } };
template <class Mx> struct Timed<Mx, true> {
  static int go(int t, Mx& m, const Op& o) {
    const std::string& s = o.name; Timeout x(s == "ninf" ? 0 : o.b);
    bool rel = s == "for" || s == "forms" || s == "trel";
    if (s == "inf") { call(t, "lock", o.a); bool g = m.timed_lock(boost::posix_time::time_duration(boost::posix_time::pos_infin)); ret(t, "lock", g ? "true" : "false", 0, o.a); return g; }
    call(t, "timed", o.a, rel, x.dl);
    bool r = false;
    if (s == "ninf") r = m.timed_lock(boost::posix_time::time_duration(boost::posix_time::neg_infin));
    else if (s == "for") r = m.try_lock_for(usec(o.b));
    else if (s == "forms") r = m.try_lock_for(boost::chrono::nanoseconds(o.b * 1000ll));
    else if (s == "until") r = m.try_lock_until(x.st);
    else if (s == "suntil") r = m.try_lock_until(x.sy);
    else if (s == "cuntil") r = m.try_lock_until(x.us);
    else if (s == "tabs") r = m.timed_lock(x.pt);
    else if (s == "trel") r = m.timed_lock(pusec(o.b));
    else if (s == "xt") { boost::xtime q = boost::xtime(); 
      boost::posix_time::time_duration dd = x.pt - boost::posix_time::from_time_t(0); q.sec = dd.total_seconds(); q.nsec = (int)(dd.total_microseconds() % 1000000) * 1000; r = xt(m, q); }
    else abort();
    ret(t, "timed", r ? "true" : "false", 0, o.a);
    return r;
  }
};

// the adapters know only four of the forms
template <class Mx> struct TimedA {
  static int go(int t, Mx& m, const Op& o) {
    const std::string& s = o.name; Timeout x(o.b);
    bool rel = s != "until" && s != "suntil";
    call(t, "timed", o.a, rel, x.dl);
    bool r = s == "until" ? m.try_lock_until(x.st) : s == "suntil" ? m.try_lock_until(x.sy) : m.try_lock_for(boost::chrono::nanoseconds(o.b * 1000ll));
    ret(t, "timed", r ? "true" : "false", 0, o.a);
    return r;
  }
};
template <class B> struct Ext {      // externally_locked is a lockable of its own
  B m; boost::externally_locked<int, B> e;
  Ext() : e(m, 7) {}
  void lock() { e.lock(); } void unlock() { e.unlock(); } bool try_lock() { return e.try_lock(); }
  template <class T> bool try_lock_until(T const& t) { return m.try_lock_until(t); } template <class T> bool try_lock_for(T const& t) { return m.try_lock_for(t); }
};
template <class Mx> void mine(Mx&, int, int, int) {}
#if BOOST_THREAD_VERSION >= 4
template <class B> void mine(boost::testable_mutex<B>& m, int t, int x, int h) {
  if (m.is_locked_by_this_thread() != (h > 0)) fault(h ? "not_locked_by_owner" : "locked_by_other", x);
  if (h && !m.is_locked()) fault("not_locked", x);
  if (h && m.get_id() != boost::this_thread::get_id()) fault("owner_id", x);
}
#endif

template <class Mx, bool REC, class TM> void go2(const Program& p) {
  Mx* m = new Mx[NM];
  static int held[16][NM]; memset(held, 0, sizeof held);
  run_standard(p, [=](int t, const Op& o) {
    int x = o.a;
    mine(m[x], t, x, held[t][x]);
    if (o.name == "unlock") {
      if (!held[t][x]) return;
      if (held[t][x] == 1) { pread(x); pwrite(x); }
      call(t, "unlock", x); --held[t][x]; m[x].unlock(); ret(t, "unlock", "ok", 0, x);
      mine(m[x], t, x, held[t][x]);
      return;
    }
    if (held[t][x] && !REC) return;      // relocking a non-recursive mutex is not allowed
    if (held[t][x] >= 7) return;
    bool got = false;
    if (o.name == "lock") { call(t, "lock", x); m[x].lock(); got = true; ret(t, "lock", "true", 0, x); }
    else if (o.name == "try") { call(t, "try", x); got = m[x].try_lock(); ret(t, "try", got ? "true" : "false", 0, x); }
    else { int r = TM::go(t, m[x], o); if (r < 0) return; got = r; }
    if (got) { if (held[t][x]++ == 0) { pread(x); pwrite(x); } }
    mine(m[x], t, x, held[t][x]);
  });
}
template <class Mx, bool REC, bool TIMED> void go(const Program& p) { go2<Mx, REC, Timed<Mx, TIMED> >(p); }
void vs::driver_run(const Program& p) {
  const bool rec = p.get("k") == 3;
#define GO(M, R) go2<M, R, TimedA<M > >(p)
  switch (p.get("ad")) {
#if BOOST_THREAD_VERSION >= 4
    case 1: return GO(boost::testable_mutex<boost::timed_mutex>, false);
#endif
    case 2: return rec ? GO(boost::timed_lockable_adapter<boost::recursive_timed_mutex>, true) : GO(boost::timed_lockable_adapter<boost::timed_mutex>, false);
    case 3: return rec ? GO(Ext<boost::recursive_timed_mutex>, true) : GO(Ext<boost::timed_mutex>, false);
  }
  switch (p.get("k")) {
    case 0: go<boost::mutex, false, false>(p); break;
    case 1: go<boost::timed_mutex, false, true>(p); break;
    case 2: go<boost::recursive_mutex, true, false>(p); break;
    default: go<boost::recursive_timed_mutex, true, true>(p); break;
  }
}
