// Driver: synchronized queues.  -DMO: move-only elements.
// cfg: k = kind, cap = capacity of bounded queues, bt = program threads are boost::threads
//  0 sync_queue, 1 queue_adaptor<sync_queue>, 2 views of that, 3 sync_deque, 4 deque_adaptor<sync_deque>,
//  6 sync_bounded_queue, 7 its old interface, 8 deque_adaptor<sync_bounded_queue>,
//  10 sync_priority_queue, 11 sync_timed_queue<steady_clock>, 12 sync_timed_queue<system_clock>
// ops: push/tpush/nbpush prio-or-us throws form | pull/tpull/nbpull _ _ form | wpull us _ form | close | size | cap | empty | full | closed | drain | int u | jump _ ms | sleep us
#define BOOST_THREAD_USES_MOVE
#include "vs.h"
#include "util.h"
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
#define INT 1
#define INTERRUPT(h) h->interrupt()
#define CATCHINT catch (boost::thread_interrupted&) { r = res("intr"); }
#else
#define INT 0
#define INTERRUPT(h) (void)0
#define CATCHINT
#endif
using namespace vs;
typedef boost::queue_op_status QS;
enum { MAXID = 62 };
struct Boom {};
static int g_live;
struct El {
  int id, prio; bool bad;
  static void n(int d) { NoPreempt np; g_live += d; }
  El() : id(0), prio(0), bad(false) { n(1); }
  El(int i, int p, bool b) : id(i), prio(p), bad(b) { n(1); }
  El(El&& o) noexcept : id(o.id), prio(o.prio), bad(o.bad) { o.id = -1; n(1); }
  El& operator=(El&& o) noexcept { id = o.id; prio = o.prio; bad = o.bad; o.id = -1; return *this; }
#ifdef MO
  El(const El&) = delete; El& operator=(const El&) = delete;
#else
  El(const El& o) : id(o.id), prio(o.prio), bad(o.bad) { if (bad) throw Boom(); n(1); }
  El& operator=(const El& o) { if (o.bad) throw Boom(); id = o.id; prio = o.prio; bad = o.bad; return *this; }
#endif
  ~El() { id = -2; n(-1); }
  bool operator<(const El& o) const { return prio < o.prio; }
};
struct R { const char* r; int v; };
static const char* st(QS s) {
  switch (s) { case QS::success: return "ok"; case QS::empty: return "empty"; case QS::full: return "full"; case QS::closed: return "closed"; case QS::busy: return "busy"; case QS::timeout: return "timeout"; case QS::not_ready: return "notready"; }
  return "?";
}
static const char* tf(bool b) { return b ? "true" : "false"; }
struct NA {};     // operation not offered by this interface
static R got(El& e) { if (e.id <= 0 || e.id > MAXID) fault("value", e.id); R r = {"ok", e.id}; return r; }
static R got(QS s, El& e) { if (s == QS::success) return got(e); R r = {st(s), 0}; return r; }
static R res(const char* s) { R r = {s, 0}; return r; }
static R res(QS s) { return res(st(s)); }
static El& ref(std::shared_ptr<El>& p) { return *p; }

// copies are offered for copyable elements only
#ifdef MO
#define CP(x, f) x(boost::move(e)); (void)f
#define CPR(x, f) return res(x(boost::move(e)))
#else
#define CP(x, f) if (f & 1) x(boost::move(e)); else x(e)
#define CPR(x, f) return (f & 1) ? res(x(boost::move(e))) : res(x(e))
#endif

struct QI {      // one queue behind one interface
  virtual ~QI() {}
  virtual R push(int form, El& e, const Timeout& d, bool rel) = 0; virtual R tpush(int form, El& e, const Timeout& d, bool rel) = 0; virtual R nbpush(int, El&) { throw NA(); }
  virtual R pull(int form) = 0; virtual R tpull(int form) = 0; virtual R nbpull(int) { throw NA(); }
  virtual R wpull(int, const Timeout&) { throw NA(); }
  virtual bool boolean(const std::string&, int) { return false; }       // results without a reason
  virtual void close() = 0; virtual int size() = 0; virtual int cap() { throw NA(); } virtual bool empty() = 0; virtual bool full() = 0; virtual bool closed() = 0;
  virtual int drain() { throw NA(); }
};
template <class C> static int code(C& c) { int x = 0, m = 1; if (c.size() > 4) return -1; while (!c.empty()) { x += m * c.front().id; m *= 64; c.pop_front(); } return x; }
#define OBS(Q) void close() { Q.close(); } int size() { return (int)Q.size(); } bool empty() { return Q.empty(); } bool full() { return Q.full(); } bool closed() { return Q.closed(); }
// queues with push / pull; B is used to push, F to pull
template <class B, class F> struct QPush : QI {
  B& b; F& f; QPush(B& x, F& y) : b(x), f(y) {}
  R push(int m, El& e, const Timeout&, bool) { if (m & 2) CPR(b.wait_push, m); CP(b.push, m); return res("ok"); }
  R tpush(int m, El& e, const Timeout&, bool) { CPR(b.try_push, m); }
  R nbpush(int m, El& e) { CPR(b.nonblocking_push, m); }
  R pull(int m) { if (m % 3 == 2) { El e; return got(f.wait_pull(e), e); } if (m % 3 == 1) { El e; f.pull(e); return got(e); } El e(f.pull()); return got(e); }
  R tpull(int) { El e; return got(f.try_pull(e), e); }
  R nbpull(int) { El e; return got(f.nonblocking_pull(e), e); }
  OBS(f)
};
template <class B, class F> struct QBack : QI {
  B& b; F& f; QBack(B& x, F& y) : b(x), f(y) {}
  R push(int m, El& e, const Timeout&, bool) { if (m & 2) CPR(b.wait_push_back, m); CP(b.push_back, m); return res("ok"); }
  R tpush(int m, El& e, const Timeout&, bool) { CPR(b.try_push_back, m); }
  R nbpush(int m, El& e) { CPR(b.nonblocking_push_back, m); }
  R pull(int m) { if (m % 3 == 2) { El e; return got(f.wait_pull_front(e), e); } if (m % 3 == 1) { El e; f.pull_front(e); return got(e); } El e(f.pull_front()); return got(e); }
  R tpull(int) { El e; return got(f.try_pull_front(e), e); }
  R nbpull(int) { El e; return got(f.nonblocking_pull_front(e), e); }
  OBS(f)
};
struct SQ : QPush<boost::sync_queue<El>, boost::sync_queue<El> > {
  boost::sync_queue<El> q; SQ() : QPush(q, q) {}
  R push(int m, El& e, const Timeout& d, bool r) {
    if (m & 4) {
#ifndef MO
      if (!(m & 1)) { q << e; return res("ok"); }
#endif
      q << boost::move(e); return res("ok");
    }
    return QPush::push(m, e, d, r);
  }
  R pull(int m) { if (m & 4) { El e; q >> e; return got(e); } return QPush::pull(m); }
  int drain() { boost::sync_queue<El>::underlying_queue_type x(q.underlying_queue()); NoPreempt np; return code(x); }
};
template <class D> struct Ops2 : QBack<D, D> {
  D q; template <class... A> Ops2(A... a) : QBack<D, D>(q, q), q(a...) {}
  R push(int m, El& e, const Timeout& d, bool r) {
    if (m & 4) {
#ifndef MO
      if (!(m & 1)) { q << e; return res("ok"); }
#endif
      q << boost::move(e); return res("ok");
    }
    return QBack<D, D>::push(m, e, d, r);
  }
  R pull(int m) { if (m & 4) { El e; q >> e; return got(e); } return QBack<D, D>::pull(m); }
};
struct SD : Ops2<boost::sync_deque<El> > { int drain() { boost::sync_deque<El>::underlying_queue_type x(q.underlying_queue()); NoPreempt np; return code(x); } };
typedef boost::sync_bounded_queue<El> BQ;
static int g_cap;
struct BQC : BQ { BQC() : BQ(g_cap) {} };         // (the adaptors construct their queue without arguments)
struct SB : Ops2<BQ> { SB(int c) : Ops2<BQ>(c) {} int cap() { return (int)q.capacity(); } };
struct OB : QI {          // old interface
  BQ q; OB(int c) : q(c) {}
  R push(int m, El& e, const Timeout&, bool) { CP(q.push, m); return res("ok"); }
#ifdef MO
#define TP(...) bool b = q.try_push(__VA_ARGS__ boost::move(e))
#else
#define TP(...) bool b = (m & 1) ? q.try_push(__VA_ARGS__ boost::move(e)) : q.try_push(__VA_ARGS__ e)
#endif
#define COMMA ,
  R tpush(int m, El& e, const Timeout&, bool) { TP(); return res(b ? "ok" : "full"); }
  R nbpush(int m, El& e) { TP(boost::no_block COMMA); return res(b ? "ok" : "no"); }
  R pull(int m) {
    if (m % 3 == 2) { boost::shared_ptr<El> p(q.ptr_pull()); return got(*p); }
    if (m % 3 == 1) { El e; q.pull(e); return got(e); }
    El e(q.pull()); return got(e);
  }
  R tpull(int m) { if (m & 1) { boost::shared_ptr<El> p(q.try_pull()); return p ? got(*p) : res("empty"); } El e; if (q.try_pull(e)) return got(e); return res("empty"); }
  R nbpull(int) { El e; if (q.try_pull(boost::no_block, e)) return got(e); return res("no"); }
  bool boolean(const std::string& n, int) { return n == "nbpush" || n == "nbpull"; }
  OBS(q) int cap() { return (int)q.capacity(); }
};
template <class A> struct AQ : QPush<boost::queue_base<El>, boost::queue_base<El> > { A a; AQ() : QPush(a, a) {} };
template <class A> struct AD : QBack<boost::deque_base<El>, boost::deque_base<El> > { A a; template <class... X> AD(X... x) : QBack(a, a), a(x...) {} };
struct VQ : QPush<boost::queue_back<El>, boost::queue_front<El> > { boost::queue_adaptor<boost::sync_queue<El> > a; boost::queue_back<El> vb; boost::queue_front<El> vf; VQ() : QPush(vb, vf), vb(a), vf(a) {} void close() { vb.close(); } };
struct PQ : QI {
  boost::sync_priority_queue<El> q;
  R push(int m, El& e, const Timeout&, bool) { CP(q.push, m); return res("ok"); }
  R tpush(int m, El& e, const Timeout&, bool) { CPR(q.try_push, m); }
  R pull(int m) { if (m % 3 == 2) { El e; return got(q.wait_pull(e), e); } if (m % 3 == 1) { El e; q.pull(e); return got(e); } El e(q.pull()); return got(e); }
  R tpull(int) { El e; return got(q.try_pull(e), e); }
  R nbpull(int) { El e; return got(q.nonblocking_pull(e), e); }
  R wpull(int m, const Timeout& d) {
    El e;
    switch (m % 4) { case 0: return got(q.pull_for(usec(d.d), e), e); case 1: return got(q.pull_until(d.st, e), e); case 2: return got(q.pull_until(d.sy, e), e); default: return got(q.pull_until(d.us, e), e); }
  }
  OBS(q)
};
#ifndef MO       // (timed queues copy their elements)
template <class Cl> struct TQ : QI {
  boost::sync_timed_queue<El, Cl> q;
  static const boost::chrono::steady_clock::time_point& tp(const Timeout& d, boost::chrono::steady_clock*) { return d.st; }
  static const boost::chrono::system_clock::time_point& tp(const Timeout& d, boost::chrono::system_clock*) { return d.sy; }
#define PU(x) if (m & 1) { if (rel) x(boost::move(e), usec(d.d)); else x(boost::move(e), tp(d, (Cl*)0)); } else { if (rel) x(e, usec(d.d)); else x(e, tp(d, (Cl*)0)); }
#define PUR(x) return res((m & 1) ? (rel ? x(boost::move(e), usec(d.d)) : x(boost::move(e), tp(d, (Cl*)0))) : (rel ? x(e, usec(d.d)) : x(e, tp(d, (Cl*)0))))
  R push(int m, El& e, const Timeout& d, bool rel) { PU(q.push); return res("ok"); }
  R tpush(int m, El& e, const Timeout& d, bool rel) { PUR(q.try_push); }
  R pull(int m) { if (m % 3 == 2) { El e; return got(q.wait_pull(e), e); } if (m % 3 == 1) { El e; q.pull(e); return got(e); } El e(q.pull()); return got(e); }
  R tpull(int) { El e; return got(q.try_pull(e), e); }
  R nbpull(int) { El e; return got(q.nonblocking_pull(e), e); }
  R wpull(int m, const Timeout& d) { El e; if (m % 2 == 0) return got(q.pull_for(usec(d.d), e), e); return got(q.pull_until(tp(d, (Cl*)0), e), e); }
  OBS(q)
};

#endif

void vs::driver_run(const Program& p) {
  int k = p.get("k"), cap = p.get("cap", 2), bt = p.get("bt");
  static QI* Q; static int nid, off; static boost::thread* handle[16]; nid = 0; off = 0; memset(handle, 0, sizeof handle); g_live = 0; g_cap = cap;
  switch (k) {
    case 0: Q = new SQ; break;
    case 1: Q = new AQ<boost::queue_adaptor<boost::sync_queue<El> > >; break;
    case 2: Q = new VQ; break;
    case 3: Q = new SD; break;
    case 4: Q = new AD<boost::deque_adaptor<boost::sync_deque<El> > >; break;
    case 6: Q = new SB(cap); break;
    case 7: Q = new OB(cap); break;
    case 8: Q = new AD<boost::deque_adaptor<BQC> >; break;
    case 10: Q = new PQ; break;
#ifdef MO
    default: Q = new PQ; k = 10; break;
#else
    case 11: Q = new TQ<boost::chrono::steady_clock>; break;
    default: Q = new TQ<boost::chrono::system_clock>; break;
#endif
  }
  std::function<void(int, std::function<void()>)> launch;
  if (bt) launch = [](int t, std::function<void()> f) { handle[t] = new boost::thread(f); };
  run_standard(p, [=](int t, const Op& o) {
    const std::string& n = o.name;
    if (n == "jump") { NoPreempt np; jump_realtime(o.b * 1000ll); off += o.b * 1000; ev("ev", t, "jump", 0, 0, "", o.b * 1000); return; }
    #if INT
    if (n == "sleep") { boost::this_thread::disable_interruption di; boost::this_thread::sleep_for(usec(o.a)); return; }
#else
    if (n == "sleep") { boost::this_thread::sleep_for(usec(o.a)); return; }
    if (n == "int") return;
#endif
    if (n == "int") { if (!bt || o.a < 1 || o.a > (int)p.th.size() || !handle[o.a]) return; call(t, "int", o.a); INTERRUPT(handle[o.a]); ret(t, "int", "ok"); return; }
    if (n == "close") { call(t, "close"); Q->close(); ret(t, "close", "ok"); return; }
    if (n == "size") { call(t, "size"); int v = Q->size(); ret(t, "size", "ok", v); return; }
    if (n == "empty") { call(t, "empty"); bool v = Q->empty(); ret(t, "empty", tf(v)); return; }
    if (n == "full") { call(t, "full"); bool v = Q->full(); ret(t, "full", tf(v)); return; }
    if (n == "closed") { call(t, "closed"); bool v = Q->closed(); ret(t, "closed", tf(v)); return; }
    if (n == "cap") { if (k != 6 && k != 7) return; call(t, "cap"); int v = Q->cap(); ret(t, "cap", "ok", v); return; }
    if (n == "drain") { if (k != 0 && k != 3) return; call(t, "drain"); int v = Q->drain(); ret(t, "drain", "ok", v); return; }
    bool tq = k >= 11; R r;
    if (n == "push" || n == "tpush" || n == "nbpush") {
      if (n == "nbpush" && k >= 10) return;
      NoPreempt* np = new NoPreempt;
      if (nid >= MAXID) { delete np; return; }
      int id = ++nid; int m = o.c;
      bool bad = o.b & 1;
#ifdef MO
      bad = false;
#endif
      if (bad) m &= ~1;                       // it is the copy that throws
      Timeout to(tq ? o.a : 0); bool rel = tq && (o.c & 8);
      int due = to.dl; if (k == 12) due += off;
      int b = (rel ? 16 : 0) | (bad ? 64 : 0) | (Q->boolean(n, m) ? 128 : 0);
      El* e = new El(id, tq ? 0 : o.a, bad);
      delete np;
      if (!bad) pwrite(id);
      call(t, n.c_str(), id, b, tq ? due : o.a);
      // (operations that report a status do not throw for a closed queue)
      bool status = k != 7 && (n != "push" || (k < 10 && (m & 2) && !((m & 4) && (k == 0 || k == 3 || k == 6))));
      try { r = n == "push" ? Q->push(m, *e, to, rel) : n == "tpush" ? Q->tpush(m, *e, to, rel) : Q->nbpush(m, *e); }
      catch (boost::sync_queue_is_closed&) { r = res(status ? "thrown" : "closed"); }
      CATCHINT
      catch (Boom&) { r = res("exc"); }
      // an element that was not taken is still there
      bool moved = e->id == -1; if (!tq && std::string(r.r) != "ok" && moved) fault("swallowed", id);
      ret(t, n.c_str(), r.r);
      { NoPreempt np2; delete e; }
      return;
    }
    int b = 0, v = 0; NoPreempt* np = new NoPreempt; Timeout to(n == "wpull" ? o.a : 0); delete np;
    if (n == "wpull") {
      if (k < 10) return;
      v = to.dl; b = 1;
      bool sys;
      if (k == 10) { int m = o.c % 4; sys = m == 2; b |= m == 0 ? 16 : m == 2 ? 12 : m == 3 ? 4 : 0; }
      else { sys = k == 12 && o.c % 2 == 1; b |= o.c % 2 == 0 ? 16 : sys ? 12 : 0; if (k == 12) b |= 4; }
      if (sys) v += off;
    }
    if (Q->boolean(n, o.c)) b |= 128;
    call(t, n.c_str(), 0, b, v);
    bool status = k != 7 && (n != "pull" || (o.c % 3 == 2 && !((o.c & 4) && (k == 0 || k == 3 || k == 6))));
    try { r = n == "pull" ? Q->pull(o.c) : n == "tpull" ? Q->tpull(o.c) : n == "nbpull" ? Q->nbpull(o.c) : Q->wpull(o.c, to); }
    catch (boost::sync_queue_is_closed&) { r = res(status ? "thrown" : "closed"); }
    CATCHINT
    if (r.v > 0 && r.v <= MAXID) pread(r.v);
    ret(t, n.c_str(), r.r, r.v);
  }, launch);
  if (live_fibers() == 0) { NoPreempt np; delete Q; ev("ev", 0, "leak", g_live, 0, "", 0); }
}
