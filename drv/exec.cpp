// Driver: executors.
// cfg: k = kind, n = workers, w = 0 direct, 1 behind executor_adaptor/executor, 2 behind generic_executor_ref,
//      e = 1 a function is called at thread entry, 2 the same as function object, fc = the fc-th thread of the constructor cannot be created
//  0 basic_thread_pool, 1 loop_executor, 2 thread_executor, 3 inline_executor,
//  4 serial_executor, 5 serial_executor_cont (u: 0 over a pool, 1 over a thread_executor, 2 over an inline_executor),
//  6 scheduled_thread_pool, 7 scheduler, 8 scheduler on a pool, 9 scheduling_adaptor, 10 scheduler of the system clock
// ops: submit body|us*16 bad form | resch _ n | try1 | loop | runq | close | closed | open | pint | pjoin | failc n | sleep us | jump _ ms | fin (ends the executor when all threads got there)
#define BOOST_THREAD_PROVIDES_EXECUTORS
#define BOOST_THREAD_USES_MOVE
#include "vs.h"
#include "util.h"
#include <pthread.h>
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
using namespace vs;
typedef boost::chrono::steady_clock SC;
typedef boost::chrono::system_clock YC;
enum { MAXT = 10, SERIAL = 60 };
struct Boom {};
static int g_live, g_kind, g_body[MAXT + 1], nid, off, fins;
static pthread_mutex_t gm; static pthread_cond_t gc; static int gate_, ready_;
static void pass(int& flag) { pthread_mutex_lock(&gm); while (!flag) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); }
static void set(int& flag) { pthread_mutex_lock(&gm); flag = 1; pthread_cond_broadcast(&gc); pthread_mutex_unlock(&gm); }
static const char* tf(bool b) { return b ? "true" : "false"; }

static void run_task(int id);
struct Task {
  int id; bool bad;
  static void n(int d) { NoPreempt np; g_live += d; }
  Task(int i, bool b) : id(i), bad(b) { n(1); }
  Task(const Task& o) : id(o.id), bad(o.bad) { if (bad) throw Boom(); n(1); }
  Task(Task&& o) noexcept : id(o.id), bad(o.bad) { o.id = -1; n(1); }
  ~Task() { id = -2; n(-1); }
  void operator()() { run_task(id); }
};
struct MTask : Task { MTask(int i) : Task(i, false) {} MTask(MTask&& o) noexcept : Task(boost::move(o)) {} MTask(const MTask&) = delete; };
template <int N> void fn() { run_task(N); }
typedef void (*FP)();
template <int N> struct Fill { static void f(FP* t) { t[N] = fn<N>; Fill<N - 1>::f(t); } };
template <> struct Fill<0> { static void f(FP*) {} };
static FP fps[MAXT + 1];

struct EI {
  virtual ~EI() {}
  virtual bool submit(int form, Task&, const Timeout&) = 0;     // whether the form is offered
  virtual void close() = 0; virtual bool closed() = 0;
  virtual bool try1() { return false; } virtual bool resch(int&, int) { return false; }
  virtual void loop() {} virtual void runq() {} virtual void pint() {} virtual void pjoin(bool) {} virtual void yield() {}
};
template <class X, class P> auto until(X& x, const P& p, int) -> decltype(x.reschedule_until(p)) { return x.reschedule_until(p); }
template <class X, class P> bool until(X&, const P&, long) { return false; }
struct Count { int* n; int v; bool operator()() const { return ++*n >= v; } };
template <class X, class W> struct Plain : EI {
  X* x; Plain() : x(0) {} Plain(X& y) : x(&y) {}
  bool submit(int m, Task& t, const Timeout&) {
    switch (m % 5) {
      case 0: x->submit(boost::move(t)); break;
      case 1: x->submit(t); break;
      case 2: x->submit(fps[t.id]); break;
      case 3: { W w(boost::move(t)); x->submit(boost::move(w)); break; }
      default: x->submit(MTask(t.id)); break;
    }
    return true;
  }
  void close() { x->close(); } bool closed() { return x->closed(); }
  bool try1() { return x->try_executing_one(); }
  bool resch(int& n, int v) { Count c = {&n, v}; return until(*x, c, 0); }
};
typedef boost::executors::work Wk;
// X itself, behind a polymorphic interface or behind a type erased reference
struct Full : EI {      // an executor, what is in front of it and what is below
  EI* i; std::function<void()> del, lp, rq, pi, yl; std::function<void(bool)> pj; boost::generic_executor_ref* g;
  Full() : i(0), g(0) {}
  ~Full() { del(); }
  void front() { NoPreempt np; delete i; delete g; }
  bool submit(int m, Task& t, const Timeout& d) { return i->submit(m, t, d); }
  void close() { i->close(); } bool closed() { return i->closed(); } bool try1() { return i->try1(); } bool resch(int& n, int v) { return i->resch(n, v); }
  void loop() { lp(); } void runq() { rq(); } void pint() { pi(); } void pjoin(bool b) { pj(b); } void yield() { yl(); }
};
template <class X> static void face(Full* f, X& x, int w) {
  NoPreempt np;
  if (w == 2) { f->g = new boost::generic_executor_ref(x); f->i = new Plain<boost::generic_executor_ref, Wk>(*f->g); }
  else f->i = new Plain<X, Wk>(x);
}
static void special(Full* f, boost::basic_thread_pool& x) {
  f->pi = [&x] { x.interrupt(); }; f->yl = [&x] { x.schedule_one_or_yield(); };
  f->pj = [&x](bool b) { if (b) x.interrupt_and_join(); else x.join(); };
}
static void special(Full* f, boost::loop_executor& x) { f->lp = [&x] { x.loop(); }; f->rq = [&x] { x.run_queued_closures(); }; }
template <class X> static void special(Full*, X&) {}
template <class X, class... A> static EI* make(int w, A... a) {
  if (w == 1) {
    boost::executor_adaptor<X>* p = new boost::executor_adaptor<X>(boost::move(a)...);
    NoPreempt np;
    Full* f = new Full; f->i = new Plain<boost::executor, Wk>(*p); f->del = [f, p] { delete p; f->front(); }; special(f, p->underlying_executor()); return f;
  }
  X* p = new X(boost::move(a)...);
  NoPreempt np;
  Full* f = new Full; face(f, *p, w); f->del = [f, p] { delete p; f->front(); }; special(f, *p); return f;
}
template <class S, class U> static EI* over(int w, U* u) {
  S* p = new S(*u);
  NoPreempt np;
  Full* f = new Full; face(f, *p, w); f->del = [f, p, u] { delete p; f->front(); delete u; }; return f;
}
template <class C> static const typename C::time_point& tp(const Timeout& d, C*);
template <> const SC::time_point& tp<SC>(const Timeout& d, SC*) { return d.st; }
template <> const YC::time_point& tp<YC>(const Timeout& d, YC*) { return d.sy; }
// scheduled executors; after = relative
template <class X> struct Sched : EI {
  X* x; boost::basic_thread_pool* u;
  Sched(X* y, boost::basic_thread_pool* p = 0) : x(y), u(p) {}
  ~Sched() { delete x; delete u; }
  typedef typename X::work W;
  bool submit(int m, Task& t, const Timeout& d) {
    if (m & 8) {
      if (m % 3 == 0) x->submit_after(W(t), usec(d.d)); else if (m % 3 == 1) x->submit_after(t, usec(d.d)); else x->submit_after(W(fps[t.id]), usec(d.d));
    } else {
      if (m % 3 == 0) x->submit_at(W(t), tp(d, (typename X::clock*)0)); else if (m % 3 == 1) x->submit_at(t, tp(d, (typename X::clock*)0)); else x->submit_at(W(fps[t.id]), tp(d, (typename X::clock*)0));
    }
    return true;
  }
  void close() { x->close(); } bool closed() { return x->closed(); }
};
template <class C> struct SchedF : Sched<boost::scheduler<C> > {
  bool onp;
  typedef Sched<boost::scheduler<C> > B;
  SchedF(boost::scheduler<C>* y, boost::basic_thread_pool* p) : B(y, p), onp(p) {}
  bool submit(int m, Task& t, const Timeout& d) {
    boost::scheduler<C>& s = *this->x;
    if (onp) {
      boost::basic_thread_pool& p = *this->u;
      if (m & 8) { if (m & 1) s.after(usec(d.d)).on(p).submit(t); else s.on(p).after(usec(d.d)).submit(t); }
      else { if (m & 1) s.at(tp(d, (C*)0)).on(p).submit(t); else s.on(p).at(tp(d, (C*)0)).submit(t); }
      return true;
    }
    if (m & 4) return B::submit(m, t, d);
    if (m & 8) s.after(usec(d.d)).submit(t); else s.at(tp(d, (C*)0)).submit(t);
    return true;
  }
};
static EI* X;

static bool fin_cut;
static void do_op(int t, const char* n, int a, int b, int form, int us);
static void body(int id) {
  int t = 10 + id, b = g_body[id];
  switch (b) {
    case 1: { boost::this_thread::disable_interruption di; boost::this_thread::sleep_for(usec(700)); break; }
    case 2: boost::this_thread::sleep_for(usec(1500)); break;
    case 3: pass(gate_); break;
    case 4: do_op(t, "submit", 0, 0, id % 2 ? 0 : 3, 0); break;
    case 5: do_op(t, "resch", 0, 0, 0, 0); break;
    case 6: do_op(t, "resch", 0, 2, 0, 0); break;
    case 7: do_op(t, "close", 0, 0, 0, 0); break;
    case 8: do_op(t, "closed", 0, 0, 0, 0); break;
    case 9: boost::this_thread::yield(); break;
  }
}
static int ctx_[256];
static int& ctx() { int f = fiber_id(); static int bad; return f >= 0 && f < 256 ? ctx_[f] : bad; }
static void run_task(int id) {
  if (id < 1 || id > MAXT) { fault("task", id); return; }
  int h = ctx();
  pread(id);
  if (g_kind == 4 || g_kind == 5) pwrite(SERIAL);
  ev("ev", h, "start", id, 0, "", 0);
  ctx() = 10 + id;
  // interruption of a task that runs inside of something else would leave through that
  if (g_body[id] == 2 && h) g_body[id] = 1;
  try { body(id); }
  catch (boost::thread_interrupted&) { pwrite(id); ctx() = h; ev("ev", h, "end", id, 1, "", 0); throw; }
  ctx() = h;
  if (g_kind == 4 || g_kind == 5) pwrite(SERIAL);
  pwrite(id);
  ev("ev", h, "end", id, 0, "", 0);
}
static void do_op(int t, const char* n0, int a, int b, int form, int us) {
  std::string n(n0); int k = g_kind; bool timed = k >= 6;
  if (n == "submit") {
    NoPreempt* np = new NoPreempt;
    if (nid >= MAXT) { delete np; return; }
    int id = ++nid; g_body[id] = a;
    bool bad = b & 1; if (k == 3) bad = false;
    if (bad) form = timed ? (form & 8) | 1 : 1;
    Timeout to(timed ? us : 0); bool rel = timed && (form & 8);
    int due = to.dl; if (k == 10) due += off;
    Task* x = new Task(id, bad);
    delete np;
    if (!bad) pwrite(id);
    call(t, "submit", id, (bad ? 1 : 0) | (rel ? 16 : 0) | (a == 3 ? 32 : 0), timed ? due : 0);
    const char* r = "ok";
    try { X->submit(form, *x, to); }
    catch (boost::sync_queue_is_closed&) { r = "closed"; }
    catch (boost::thread_resource_error&) { r = "noth"; }
    catch (Boom&) { r = "exc"; }
    // (what was given by reference is only copied)
    if (x->id != id && (timed || form % 5 == 1)) fault("moved", id);
    ret(t, "submit", r);
    { NoPreempt np2; delete x; }
    return;
  }
  if (n == "close") { call(t, "close"); X->close(); ret(t, "close", "ok"); return; }
  if (n == "closed") { call(t, "closed"); bool v = X->closed(); ret(t, "closed", tf(v)); return; }
  if (timed) return;
  if (n == "resch" || n == "try1") {
    if ((k == 4 || k == 5) && !b) return;
    if (k == 4 || k == 5) b = 0;
    int v = b > 0 ? b : 1, c = 0; bool r;
    call(t, "resch", v);
    if (b > 0) r = X->resch(c, v); else r = X->try1();
    ret(t, "resch", tf(r));
    return;
  }
  if (n == "yield" && k == 0) { call(t, "yield"); X->yield(); ret(t, "yield", "ok"); return; }
  if (n == "loop" && k == 1) { call(t, "loop"); X->loop(); ret(t, "loop", "ok"); return; }
  if (n == "runq" && k == 1) { call(t, "runq"); X->runq(); ret(t, "runq", "ok"); return; }
  if (n == "pint" && k == 0) { call(t, "pint"); X->pint(); ret(t, "pint", "ok"); return; }
  if (n == "pjoin" && k == 0) { call(t, "pjoin", a); X->pjoin(a); ret(t, "pjoin", "ok"); return; }
}
static void entry(boost::basic_thread_pool&) { ev("ev", 0, "entry", 0, 0, "", 0); }
struct Entry { void operator()(boost::basic_thread_pool&) const { entry(*(boost::basic_thread_pool*)0); } };

static EI* build(const Program& p) {
  int k = p.get("k"), n = p.get("n", 1), w = p.get("w"), e = p.get("e"), u = p.get("u");
  switch (k) {
    case 0:
      if (e == 1) return make<boost::basic_thread_pool>(w == 1 ? 0 : w, (unsigned)n, &entry);
      if (e == 2) return make<boost::basic_thread_pool>(w == 1 ? 0 : w, (unsigned)n, Entry());
      return make<boost::basic_thread_pool>(w, (unsigned)n);
    case 1: return make<boost::loop_executor>(w);
    case 2: return make<boost::thread_executor>(w);
    case 3: return make<boost::inline_executor>(w);
    case 4:
      if (u == 1) return over<boost::serial_executor>(w, new boost::thread_executor);
      if (u == 2) return over<boost::serial_executor>(w, new boost::inline_executor);
      return over<boost::serial_executor>(w, new boost::basic_thread_pool(n));
    case 5:
      if (u == 1) return over<boost::serial_executor_cont>(w, new boost::thread_executor);
      return over<boost::serial_executor_cont>(w, new boost::basic_thread_pool(n));
    case 6: return new Sched<boost::scheduled_thread_pool>(new boost::scheduled_thread_pool(n));
    case 7: return new SchedF<SC>(new boost::scheduler<SC>, 0);
    case 8: { boost::basic_thread_pool* q = new boost::basic_thread_pool(n); return new SchedF<SC>(new boost::scheduler<SC>, q); }
    case 9: { boost::basic_thread_pool* q = new boost::basic_thread_pool(n); return new Sched<boost::executors::scheduling_adaptor<boost::basic_thread_pool> >(new boost::executors::scheduling_adaptor<boost::basic_thread_pool>(*q), q); }
    default: return new SchedF<YC>(new boost::scheduler<YC>, 0);
  }
}

void vs::driver_run(const Program& p) {
  g_kind = p.get("k"); g_live = 0; nid = 0; off = 0; fins = 0; gate_ = ready_ = 0; X = 0;
  memset(g_body, 0, sizeof g_body); memset(ctx_, 0, sizeof ctx_); Fill<MAXT>::f(fps);
  pthread_mutex_init(&gm, 0); pthread_cond_init(&gc, 0);
  static int nth; nth = (int)p.th.size();
  Program pc = p;
  static bool failed; failed = false;
  spawn([pc] {
    if (pc.get("fc")) fail_create_after(pc.get("fc"));
    try { X = build(pc); }
    catch (boost::thread_resource_error&) { failed = true; fail_create_after(0); ev("ev", 0, "nothreads", 0, 0, "", 0); }
    fail_create_after(0);
    set(ready_);
  });
  if (!p.order.empty() || p.get("fc")) wait_idle();
  if (p.get("fc")) {
    if (failed) { if (live_fibers()) fault("left", live_fibers()); if (zombies()) fault("zombie", zombies()); }
    if (failed) return;
  }
  run_standard(p, [=](int t, const Op& o) {
    const std::string& n = o.name;
    ctx() = t;
    pass(ready_);
    if (n == "jump") { NoPreempt np; jump_realtime(o.b * 1000ll); off += o.b * 1000; ev("ev", t, "jump", 0, 0, "", o.b * 1000); return; }
    if (n == "sleep") { boost::this_thread::sleep_for(usec(o.a)); return; }
    if (n == "open") { ev("ev", t, "open", 0, 0, "", 0); set(gate_); return; }
    if (n == "failc") { if (g_kind == 2) { NoPreempt np; fail_create_after(o.a); } return; }
    if (n == "fin") {
      { NoPreempt np; if (++fins < nth) return; }
      ev("ev", t, "open", 0, 0, "", 0); set(gate_);
      fail_create_after(0);
      call(t, "destroy"); delete X; X = 0; ret(t, "destroy", "ok");
      NoPreempt np;
      for (int i = 1; i <= nid; ++i) pread(i);
      ev("ev", t, "leak", g_live, 0, "", 0);
      return;
    }
    if (n == "submit") do_op(t, "submit", o.a & 15, o.b, o.c, o.a >> 4);
    else do_op(t, n.c_str(), o.a, o.b, o.c, 0);
  });
  if (!X && live_fibers() == 0 && zombies()) fault("zombie", zombies());
}
