// Driver: shared_mutex / upgrade_mutex (default implementation or, with BOOST_THREAD_V2_SHARED_MUTEX, the other one).
// ops (a = way to express the timeout, b = us):
//   lock try timed unlock | slock stry stimed sunlock | ulock utry utimed uunlock
//   x2s x2u u2s u2x u2xtry u2xtimed s2xtry s2xtimed s2utry s2utimed
// cfg: k = 1 uses the plain v2 shared_mutex (no upgrade operations)
#include "vs.h"
#include "util.h"
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/xtime.hpp>
using namespace vs;

#define CHRONO_WAYS(NAME) \
  switch (way) { \
    case 0: return m.NAME##_for(usec(o.b)); \
    case 1: return m.NAME##_until(x.st); \
    case 2: return m.NAME##_until(x.sy); \
    case 3: return m.NAME##_until(x.us); }
template <class M> bool tl_x(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_lock) if (way == 4) return m.timed_lock(x.pt); return m.timed_lock(pusec(o.b)); }
template <class M> bool tl_s(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_lock_shared) if (way == 4) return m.timed_lock_shared(x.pt); return m.timed_lock_shared(pusec(o.b)); }
template <class M> bool tl_u(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_lock_upgrade) if (way == 4) return m.timed_lock_upgrade(x.pt); return m.timed_lock_upgrade(pusec(o.b)); }
template <class M> bool tl_ux(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_unlock_upgrade_and_lock) return false; }
template <class M> bool tl_sx(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_unlock_shared_and_lock) return false; }
template <class M> bool tl_su(M& m, int way, const Op& o, const Timeout& x) { CHRONO_WAYS(try_unlock_shared_and_lock_upgrade) return false; }

template <class M, bool UP> struct Ex {
  static bool go(M& m, int t, const Op& o, char& h) {
    const std::string& s = o.name; int way = o.a; bool r = true;
    if (s == "ulock") { if (h) return false; call(t, "ulock"); m.lock_upgrade(); ret(t, "ulock", "true"); h = 'u'; return true; }
    if (s == "utry") { if (h) return false; call(t, "utry"); r = m.try_lock_upgrade(); ret(t, "utry", r ? "true" : "false"); if (r) h = 'u'; return true; }
    if (s == "utimed") { if (h) return false; Timeout x(o.b); call(t, "utimed", 0, way == 0 || way == 5, x.dl); r = tl_u(m, way, o, x); ret(t, "utimed", r ? "true" : "false"); if (r) h = 'u'; return true; }
    if (s == "x2s") { if (h != 'x') return false; pwrite(0); call(t, "x2s"); h = 's'; m.unlock_and_lock_shared(); ret(t, "x2s", "true"); return true; }
    if (s == "x2u") { if (h != 'x') return false; pwrite(0); call(t, "x2u"); h = 'u'; m.unlock_and_lock_upgrade(); ret(t, "x2u", "true"); return true; }
    if (s == "u2s") { if (h != 'u') return false; pread(0); call(t, "u2s"); h = 's'; m.unlock_upgrade_and_lock_shared(); ret(t, "u2s", "true"); return true; }
    if (s == "u2x") { if (h != 'u') return false; pread(0); call(t, "u2x"); h = 'x'; m.unlock_upgrade_and_lock(); ret(t, "u2x", "true"); return true; }
    if (s == "uunlock") { if (h != 'u') return false; pread(0); call(t, "uunlock"); h = 0; m.unlock_upgrade(); ret(t, "uunlock", "ok"); return true; }
    if (s == "u2xtry") { if (h != 'u') return false; call(t, "u2xtry"); r = m.try_unlock_upgrade_and_lock(); ret(t, "u2xtry", r ? "true" : "false"); if (r) h = 'x'; return true; }
    if (s == "u2xtimed") { if (h != 'u' || way > 3) return false; Timeout x(o.b); call(t, "u2xtimed", 0, way == 0, x.dl); r = tl_ux(m, way, o, x); ret(t, "u2xtimed", r ? "true" : "false"); if (r) h = 'x'; return true; }
    if (s == "s2xtry") { if (h != 's') return false; call(t, "s2xtry"); r = m.try_unlock_shared_and_lock(); ret(t, "s2xtry", r ? "true" : "false"); if (r) h = 'x'; return true; }
    if (s == "s2xtimed") { if (h != 's' || way > 3) return false; Timeout x(o.b); call(t, "s2xtimed", 0, way == 0, x.dl); r = tl_sx(m, way, o, x); ret(t, "s2xtimed", r ? "true" : "false"); if (r) h = 'x'; return true; }
    if (s == "s2utry") { if (h != 's') return false; call(t, "s2utry"); r = m.try_unlock_shared_and_lock_upgrade(); ret(t, "s2utry", r ? "true" : "false"); if (r) h = 'u'; return true; }
    if (s == "s2utimed") { if (h != 's' || way > 3) return false; Timeout x(o.b); call(t, "s2utimed", 0, way == 0, x.dl); r = tl_su(m, way, o, x); ret(t, "s2utimed", r ? "true" : "false"); if (r) h = 'u'; return true; }
    return false;
  }
};
template <class M> struct Ex<M, false> { static bool go(M&, int, const Op&, char&) { return false; } };

template <class M, bool UP> void go(const Program& p) {
  M* m = new M;
  static char held[16]; memset(held, 0, sizeof held);
  run_standard(p, [=](int t, const Op& o) {
    char& h = held[t]; const std::string& s = o.name; int way = o.a; bool r = true;
    if (s == "unlock") {      // release whatever is held
      if (h == 'x') { pread(0); pwrite(0); call(t, "unlock"); h = 0; m->unlock(); ret(t, "unlock", "ok"); }
      else if (h == 's') { pread(0); call(t, "sunlock"); h = 0; m->unlock_shared(); ret(t, "sunlock", "ok"); }
      else if (h == 'u') { Op q = o; q.name = "uunlock"; Ex<M, UP>::go(*m, t, q, h); }
      return;
    }
    if (s == "lock" || s == "try" || s == "timed" || s == "slock" || s == "stry" || s == "stimed") {
      if (h) return;
      bool S = s[0] == 's'; Timeout x(o.b);
      if (s == "lock") { call(t, "lock"); m->lock(); }
      else if (s == "slock") { call(t, "slock"); m->lock_shared(); }
      else if (s == "try") { call(t, "try"); r = m->try_lock(); }
      else if (s == "stry") { call(t, "stry"); r = m->try_lock_shared(); }
      else { call(t, s.c_str(), 0, way == 0 || way == 5, x.dl); r = S ? tl_s(*m, way, o, x) : tl_x(*m, way, o, x); }
      ret(t, s.c_str(), r ? "true" : "false");
      if (r) h = S ? 's' : 'x';
    } else if (!Ex<M, UP>::go(*m, t, o, h)) return;
    if (h == 'x') { pread(0); pwrite(0); } else if (h) pread(0);
  });
}
void vs::driver_run(const Program& p) {
#ifdef BOOST_THREAD_V2_SHARED_MUTEX
  if (p.get("k") == 1) { go<boost::thread_v2::shared_mutex, false>(p); return; }
#endif
  go<boost::upgrade_mutex, true>(p);
}
