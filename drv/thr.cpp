// Driver: threads, handles, groups, interruption, thread exit, thread-specific pointers, sleeping.
// Program threads 1..roots exist from the start; thread k > roots runs when some thread creates it.
// cfg: roots, term (destroying a joinable handle ends the program)
// ops:  create h k style+100*fault+1000*n | join h | tj h us form | detach h | joinable h | native h | getid h | self | swap h g | move h g | dtor h
//       interrupt h | ireq h | ip | iq | ie | dis | res | pop | throwint | scope h kind | smove h g
//       wait x us form | note x | clear x | sleep form us | nsleep form us | jump _ ms
//       gcreate _ k style.. | gadd h | grem h k | gjoin | gint | gsize | gin | gtin _ k
//       atexit id kind | tset p v | tsame p | tget p | trel p
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/xtime.hpp>
#include <sstream>
using namespace vs;
enum { NH = 4, NT = 12, NXX = 2, NPT = 4 };
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
#define INT 1
#else
#define INT 0
#endif

struct G {
  boost::thread* h[NH]; bool busy[NH]; int shared[NH], co; std::function<void()> body[NT]; bool used[NT]; int live[NT]; bool exiting[NT], started[NT];
  boost::thread::id own[NT], made[NT]; bool hasmade[NT];
  boost::mutex mx[NXX]; boost::condition_variable cv[NXX]; boost::condition_variable_any cva[NXX]; int flag[NXX];
  boost::thread_group* grp; boost::thread* gp[NT]; int gjoining; int gexcl; bool galone, arming; int goff; int roots;
  std::vector<void*> guards[NT]; std::vector<int> gk[NT];
};
static G* g;
static void count_live(int k, int d) { NoPreempt np; g->live[k] += d; }

static void child_main(int k) {
  set_tid(k); g->started[k] = true; ev("ev", k, "start", 0, 0, "", 0);
  pread(k); pwrite(k); { NoPreempt np; g->own[k] = boost::this_thread::get_id(); }
  std::function<void()>* f = &g->body[k]; if (*f) (*f)(); else { g->exiting[k] = true; pwrite(k); ev("ev", k, "end", 0, 0, "", 0); }
}
struct Fn { int k;
  explicit Fn(int kk) : k(kk) { count_live(k, 1); } Fn(const Fn& o) : k(o.k) { count_live(k, 1); } ~Fn() { count_live(k, -1); k = -1; }
  void chk(bool ok) const { if (k < 0) fault("dead_functor"); if (!ok) fault("args"); }
  void operator()() { chk(true); child_main(k); }
  void operator()(int a) { chk(a == 1); child_main(k); }
  void operator()(int a, const std::string& s) { chk(a == 1 && s == "two"); child_main(k); }
  void operator()(int a, const std::string& s, int& c) { chk(a == 1 && s == "two" && c == 3); ++c; child_main(k); }
  void operator()(int a, int b, int c, int d) { chk(a == 1 && b == 2 && c == 3 && d == 4); child_main(k); }
  void operator()(int a, int b, int c, int d, int e) { chk(a == 1 && b == 2 && c == 3 && d == 4 && e == 5); child_main(k); }
  void operator()(int a, int b, int c, int d, int e, int f) { chk(a == 1 && b == 2 && c == 3 && d == 4 && e == 5 && f == 6); child_main(k); }
  void operator()(int a, int b, int c, int d, int e, int f, int h) { chk(a == 1 && b == 2 && c == 3 && d == 4 && e == 5 && f == 6 && h == 7); child_main(k); }
  void operator()(int a, int b, int c, int d, int e, int f, int h, int i) { chk(a == 1 && b == 2 && c == 3 && d == 4 && e == 5 && f == 6 && h == 7 && i == 8); child_main(k); }
  void operator()(int a, int b, int c, int d, int e, int f, int h, int i, int j) { chk(a == 1 && b == 2 && c == 3 && d == 4 && e == 5 && f == 6 && h == 7 && i == 8 && j == 9); child_main(k); }
};
struct Mem { int k; explicit Mem(int kk) : k(kk) {} void run() { child_main(k); } void run1(int a) { if (a != 1) fault("args"); child_main(k); } };
static void plain0() { fault("plain"); }
static void plain(int k) { child_main(k); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
struct MoveOnly { int k; explicit MoveOnly(int kk) : k(kk) { count_live(k, 1); } MoveOnly(MoveOnly&& o) : k(o.k) { count_live(k, 1); }
  ~MoveOnly() { count_live(k, -1); } MoveOnly(const MoveOnly&) = delete; void operator()() { child_main(k); } };
struct TakesMove { void operator()(MoveOnly m) { child_main(m.k); } };
#endif
static int g_three[NT]; static Mem* g_mem[NT];

static boost::thread make(int k, int style) {
  boost::thread::attributes at; if (style == 1) at.set_stack_size(65536);
  if (style == 2) pthread_attr_setdetachstate(at.native_handle(), PTHREAD_CREATE_DETACHED);
  const boost::thread::attributes& cat = at; (void)cat;
  switch (style) {
    case 0: { Fn f(k); return boost::thread(f); }
    case 1: return boost::thread(cat, Fn(k));
    case 2: return boost::thread(cat, Fn(k));
    case 3: return boost::thread(Fn(k), 1);
    case 4: return boost::thread(Fn(k), 1, std::string("two"));
    case 5: g_three[k] = 3; return boost::thread(Fn(k), 1, "two", boost::ref(g_three[k]));
    case 6: return boost::thread(Fn(k), 1, 2, 3, 4);
    case 7: return boost::thread(Fn(k), 1, 2, 3, 4, 5);
    case 8: return boost::thread(Fn(k), 1, 2, 3, 4, 5, 6);
    case 9: return boost::thread(Fn(k), 1, 2, 3, 4, 5, 6, 7);
    case 10: return boost::thread(Fn(k), 1, 2, 3, 4, 5, 6, 7, 8);
    case 11: return boost::thread(Fn(k), 1, 2, 3, 4, 5, 6, 7, 8, 9);
    case 12: return boost::thread(&plain, k);
    case 13: return boost::thread(&Mem::run, g_mem[k]);
    case 14: return boost::thread(&Mem::run1, g_mem[k], 1);
    case 15: { Fn f(k); boost::thread t(f); boost::thread u(boost::move(t)); if (t.joinable()) fault("moved"); return boost::move(u); }
    case 16: { std::function<void()> f = Fn(k); return boost::thread(f); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 17: return boost::thread(MoveOnly(k));
    case 18: return boost::thread(TakesMove(), MoveOnly(k));
    case 19: return boost::thread(cat, Fn(k), 1);
    case 20: return boost::thread(cat, Fn(k), 1, std::string("two"));
#endif
    default: { const Fn f(k); return boost::thread(f); }
  }
}
static const char* arm(int f, int n, int k) { (void)k; if (f == 1) fail_create_after(1); if (f == 2) fail_new_after(n); if (f == 3) fail_init_after(n); return ""; }
static void disarm() { fail_create_after(0); fail_new_after(0); fail_init_after(0); }

static int bits(const std::string& s) {
  int b = 1;
  if (s == "suntil" || s == "tabs" || s == "xt") b |= 4 | 8;
  if (s == "cuntil") b |= 4;
  if (s == "for" || s == "forms" || s == "trel") b |= 16;
  return b;
}
static const char* FORMS[] = {"for", "forms", "until", "suntil", "cuntil", "tabs", "trel", "xt", "none"};
static const char* tf(bool b) { return b ? "true" : "false"; }
static boost::xtime mkxt(Timeout& x) { boost::xtime w = boost::xtime(); boost::posix_time::time_duration dd = x.pt - boost::posix_time::from_time_t(0); w.sec = dd.total_seconds(); w.nsec = (int)(dd.total_microseconds() % 1000000) * 1000; return w; }
struct FlagUp { int* f; bool operator()() const { return *f > 0; } };
template <class CV> static const char* do_wait(CV& cv, boost::unique_lock<boost::mutex>& l, const std::string& s, int us, Timeout& x, int* flag) {
  FlagUp q = {flag};
  if (s == "none") { cv.wait(l, q); return "true"; }
  if (s == "for") return tf(cv.wait_for(l, usec(us), q));
  if (s == "forms") return tf(cv.wait_for(l, boost::chrono::nanoseconds(us * 1000ll), q));
  if (s == "until") return tf(cv.wait_until(l, x.st, q));
  if (s == "suntil") return tf(cv.wait_until(l, x.sy, q));
  if (s == "cuntil") return tf(cv.wait_until(l, x.us, q));
  if (s == "tabs") return tf(cv.timed_wait(l, x.pt, q));
  if (s == "trel") return tf(cv.timed_wait(l, pusec(us), q));
  return tf(cv.timed_wait(l, mkxt(x), q));
}
static bool do_tj(boost::thread& t, const std::string& s, int us, Timeout& x) {
  if (s == "for") return t.try_join_for(usec(us));
  if (s == "forms") return t.try_join_for(boost::chrono::nanoseconds(us * 1000ll));
  if (s == "until") return t.try_join_until(x.st);
  if (s == "suntil") return t.try_join_until(x.sy);
  if (s == "cuntil") return t.try_join_until(x.us);
  if (s == "tabs") return t.timed_join(x.pt);
  if (s == "trel") return t.timed_join(pusec(us));
  return t.timed_join(boost::system_time(mkxt(x)));
}
static void do_sleep(const std::string& s, int us, Timeout& x) {
  namespace T = boost::this_thread;
  if (s == "for") T::sleep_for(usec(us)); else if (s == "forms") T::sleep_for(boost::chrono::nanoseconds(us * 1000ll));
  else if (s == "until") T::sleep_until(x.st); else if (s == "suntil") T::sleep_until(x.sy); else if (s == "cuntil") T::sleep_until(x.us);
  else if (s == "tabs") T::sleep(x.pt); else if (s == "trel") T::sleep(pusec(us)); else if (us % 2) boost::thread::sleep(x.pt); else T::sleep(mkxt(x));
}
static void do_nsleep(const std::string& s, int us, Timeout& x) {
  namespace T = boost::this_thread::no_interruption_point;
  if (s == "for") T::sleep_for(usec(us)); else if (s == "forms") T::sleep_for(boost::chrono::nanoseconds(us * 1000ll));
  else if (s == "until") T::sleep_until(x.st); else if (s == "suntil") T::sleep_until(x.sy); else if (s == "cuntil") T::sleep_until(x.us);
  else if (s == "tabs" || s == "xt") T::sleep(x.pt); else T::sleep(pusec(us));
}
static void check_ids() {   // ids are totally ordered, equal only to themselves, and hash and print accordingly
  boost::thread::id a[NT]; int n = 0;
  for (int k = 1; k < NT; ++k) if (g->started[k]) a[n++] = g->own[k];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    bool eq = i == j; std::ostringstream x, y; x << a[i]; y << a[j];
    if ((a[i] == a[j]) != eq || (a[i] != a[j]) == eq || ((a[i] < a[j]) + (a[j] < a[i])) != !eq || (a[i] <= a[j]) != !(a[j] < a[i]) || (a[i] >= a[j]) != !(a[i] < a[j]) || (a[i] > a[j]) != (a[j] < a[i])) fault("id_order");
    if ((x.str() == y.str()) != eq) fault("id_print");
    if (eq && hash_value(a[i]) != hash_value(a[j])) fault("id_hash");
  }
  for (int i = 0; i < n; ++i) if (a[i] == boost::thread::id()) fault("id_none");
  for (int k = 1; k < NT; ++k) if (g->started[k] && g->hasmade[k] && g->own[k] != g->made[k]) fault("id_differs");
}

// ---- thread-specific pointers -----------------------------------------------------------------
static void do_op(int t, const Op& o);
struct Val { int p, v; Val(int pp, int vv) : p(pp), v(vv) {} ~Val(); };
static void cleaned(int p, int v) {
  int t = tid(); ev("ev", t, "clean", p, v, "", 0);
  if (g->exiting[t] && p == 3 && v < 30) { Op o = {"tset", 1, v + 30, 0}; do_op(t, o); }
  if (g->exiting[t] && p == 3 && v % 4 == 1 && v < 30) { Op o = {"atexit", 60 + v, 0, 0}; do_op(t, o); }
}
Val::~Val() { if (p == 0) cleaned(p, v); v = -7; }
static void cust(Val* x) { int p = x->p, v = x->v; delete x; cleaned(p, v); }
static boost::thread_specific_ptr<Val>* tp[NPT];
struct Cb { int t, id, kind; void operator()() const {
    ev("ev", t, "cb", id, 0, "", 0);
    if (tid() != t) fault("cb_thread");
    if (kind == 1 && id < 50) { Op o = {"atexit", id + 50, 2, 0}; do_op(t, o); }
    if (kind == 2) { Op o = {"tset", 1, 70 + id % 7, 0}; do_op(t, o); }
    if (kind == 3) { Op o = {"tget", 0, 0, 0}; do_op(t, o); }
  } };

struct Bz_ { int i; ~Bz_() { g->busy[i] = false; } };
static bool take(int h) { NoPreempt np; if (g->busy[h] || g->shared[h]) return false; return g->busy[h] = true; }
// several threads join through one handle
struct Sh_ { int h; Sh_(int i) : h(i) { NoPreempt np; if (g->busy[h] || (!g->co && g->shared[h])) { h = -1; return; } ++g->shared[h]; } ~Sh_() { if (h >= 0) --g->shared[h]; } };
// the group is not changed while somebody joins it; removing is done by one thread at a time
struct Ex_ { bool al; ~Ex_() { --g->gexcl; if (al) g->galone = false; } };
static bool excl(bool alone = false) { NoPreempt np; if (g->gjoining || g->galone || (alone && g->gexcl)) return false; if (alone) g->galone = true; ++g->gexcl; return true; }
static void do_op(int t, const Op& o) {
  const std::string& n = o.name; int a = o.a, b = o.b, c = o.c;
  namespace T = boost::this_thread;
#define BUSY(h) if (!take(h)) return; Bz_ bz_##h = {h};
#define EXCL if (!excl()) return; Ex_ ex_ = {false};
#define ALONE if (!excl(true)) return; Ex_ ex_ = {true};
  if (n == "create" || n == "gcreate") {
    int k = b, f = c / 100 % 10, fn = c / 1000, style = c % 100; if (k <= g->roots || k >= NT || g->used[k]) return;
    bool grp = n == "gcreate"; if (grp) a = 0;
    struct Bz { int i; bool h, e; ~Bz() { if (h) g->busy[i] = false; if (e) --g->gexcl; } } bz = {a, false, false};
    { NoPreempt np; if (g->used[k]) return; if (grp) { if (!excl()) return; bz.e = true; } else { if (!take(a)) return; bz.h = true; } g->used[k] = true; }
    { NoPreempt np; if (f && g->arming) f = 0; if (f) g->arming = true; }      // one fault at a time
    pwrite(k);
    call(t, n.c_str(), a, k, (style == 2 && !grp ? 1 : 0) + 2 * f);
    const char* r = "ok";
    try {
      if (grp) { if (f) { Fn fun(k); arm(f, fn, k); boost::thread* p = g->grp->create_thread(fun); disarm(); g->gp[k] = p; } else { boost::thread* p = g->grp->create_thread(Fn(k)); g->gp[k] = p; } g->hasmade[k] = false; }
      else { if (f) arm(f, fn, k); boost::thread x(make(k, style)); if (f) disarm(); if (style != 2) { NoPreempt q; g->made[k] = x.get_id(); g->hasmade[k] = true; } *g->h[a] = boost::move(x); }
    } catch (boost::thread_resource_error&) { r = "fail"; } catch (std::bad_alloc&) { r = "nomem"; }
    if (f) { disarm(); NoPreempt np; g->arming = false; }
    if (r[0] != 'o') { if (g->live[k]) fault("functor_leak", g->live[k]); if (g->started[k]) fault("started"); g->used[k] = false; }
    ret(t, n.c_str(), r, 0, a, k); return;
  }
  if (n == "join" || n == "tj") {
    Sh_ sh_(a); if (sh_.h < 0) return; int k = -1; for (int i = 0; i < NT; ++i) if (g->hasmade[i] && g->h[a]->joinable() && g->made[i] == g->h[a]->get_id()) k = i;
    const char* f = FORMS[c % 8]; int bb = 0; NoPreempt* np = new NoPreempt; Timeout x(b); if (n == "tj") { bb = bits(f); if (bb & 8) x.dl += g->goff; } delete np;
    call(t, n.c_str(), a, bb, n == "tj" ? x.dl : 0); const char* r;
    try { if (n == "join") { g->h[a]->join(); r = "ok"; } else r = tf(do_tj(*g->h[a], f, b, x)); }
    catch (boost::thread_resource_error& e) { r = e.native_error() == boost::system::errc::resource_deadlock_would_occur ? "deadlk" : e.native_error() == boost::system::errc::invalid_argument ? "inval" : "other"; }
#if INT
    catch (boost::thread_interrupted&) { r = "int"; }
#endif
    if ((r[0] == 'o' || r[0] == 't') && k > 0) pread(k);
    ret(t, n.c_str(), r, 0, a); return;
  }
  if (n == "detach") { BUSY(a); call(t, "detach", a); g->h[a]->detach(); ret(t, "detach", "ok", 0, a); return; }
  if (n == "joinable") { BUSY(a); call(t, "joinable", a); bool x = g->h[a]->joinable(); ret(t, "joinable", tf(x), 0, a); return; }
  if (n == "native") { BUSY(a); call(t, "native", a); bool x = g->h[a]->native_handle() != pthread_t(); ret(t, "native", tf(x), 0, a); return; }
  if (n == "getid" || n == "self") {
    int hh = n == "self" ? 0 : a; if (n == "getid" && !take(hh)) return;
    call(t, n.c_str(), a); boost::thread::id d = n == "self" ? T::get_id() : g->h[hh]->get_id();
    int v = d == boost::thread::id() ? 0 : -1; if (n == "self") { if (d == g->own[t]) v = t; } else for (int k = 1; k < NT; ++k) if (g->hasmade[k] && g->made[k] == d) v = k;
    ret(t, n.c_str(), "ok", v, a); if (n == "getid") g->busy[hh] = false; return; }
  if (n == "swap" || n == "move" || n == "smove") {
    if (a == b) return; BUSY(a); BUSY(b);
    if (n == "smove") { return; }
    call(t, n.c_str(), a, b);
    if (n == "swap") { if (c & 1) boost::swap(*g->h[a], *g->h[b]); else g->h[a]->swap(*g->h[b]); } else *g->h[b] = boost::move(*g->h[a]);
    ret(t, n.c_str(), "ok", 0, a, b); return;
  }
  if (n == "dtor") { BUSY(a); call(t, "dtor", a); boost::thread* p = g->h[a]; p->~thread(); new (p) boost::thread; ret(t, "dtor", "ok", 0, a); return; }
  if (n == "scope") {
    BUSY(a); int how = b % 3;      // 0 join, 1 interrupt and join, 2 detach
    if (!INT && (how == 1 || b == 12)) return;
    int k = -1; for (int i = 0; i < NT; ++i) if (g->hasmade[i] && g->h[a]->joinable() && g->made[i] == g->h[a]->get_id()) k = i;
    if (k == t) return;
    if (how == 2 && (b / 3) == 3 && !g->h[a]->joinable()) return;
    call(t, "scope", a, how); const char* r = "ok";
#if INT
    try
#endif
    {
      boost::thread& x = *g->h[a];
      switch (b) {
        case 0: { boost::scoped_thread<> s((boost::move(x))); break; }
        case 2: { boost::scoped_thread<boost::detach_if_joinable> s((boost::move(x))); break; }
        case 3: { boost::strict_scoped_thread<> s((boost::move(x))); break; }
        case 5: { boost::thread_guard<boost::detach_if_joinable> s(x); break; }
        case 6: { boost::thread_guard<> s(x); break; }
        case 8: { boost::strict_scoped_thread<boost::detach_if_joinable> s((boost::move(x))); break; }
        case 9: { boost::scoped_thread<> s((boost::move(x))); boost::scoped_thread<> u(boost::move(s)); if (s.joinable()) fault("moved"); boost::scoped_thread<> w; w.swap(u); break; }
        case 11: { boost::scoped_thread<boost::detach> s((boost::move(x))); break; }
#if INT
        case 1: { boost::scoped_thread<boost::interrupt_and_join_if_joinable> s((boost::move(x))); break; }
        case 4: { boost::strict_scoped_thread<boost::interrupt_and_join_if_joinable> s((boost::move(x))); break; }
        case 7: { boost::thread_guard<boost::interrupt_and_join_if_joinable> s(x); break; }
        case 10: { boost::scoped_thread<> s((boost::move(x))); if (s.joinable()) s.interrupt(); break; }
        case 12: { T::disable_interruption di; boost::scoped_thread<> s((boost::move(x))), u; s = boost::move(u); if (s.joinable()) fault("assigned"); break; }
#endif
      }
    }
#if INT
    catch (boost::thread_interrupted&) { r = "int"; }
#endif
    if (how != 2 && k > 0) pread(k);
    ret(t, "scope", r, 0, a); return;
  }
#if INT
  if (n == "interrupt") { BUSY(a); call(t, "interrupt", a); g->h[a]->interrupt(); ret(t, "interrupt", "ok", 0, a); return; }
  if (n == "ireq") { BUSY(a); call(t, "ireq", a); bool x = g->h[a]->interruption_requested(); ret(t, "ireq", tf(x), 0, a); return; }
  if (n == "ip") { call(t, "ip"); const char* r = "ok"; try { T::interruption_point(); } catch (boost::thread_interrupted&) { r = "int"; } ret(t, "ip", r); return; }
  if (n == "iq") { call(t, "iq"); bool x = T::interruption_requested(); ret(t, "iq", tf(x)); return; }
  if (n == "ie") { call(t, "ie"); bool x = T::interruption_enabled(); ret(t, "ie", tf(x)); return; }
  if (n == "dis") { if (g->guards[t].size() > 3) return; call(t, "dis"); { NoPreempt np; g->guards[t].push_back(new T::disable_interruption); g->gk[t].push_back(0); } ret(t, "dis", "ok"); return; }
  if (n == "res") { int i = (int)g->gk[t].size(); while (--i >= 0 && g->gk[t][i] != 0) {} if (i < 0) return;
    call(t, "res"); { NoPreempt np; g->guards[t].push_back(new T::restore_interruption(*(T::disable_interruption*)g->guards[t][i])); g->gk[t].push_back(1); } ret(t, "res", "ok"); return; }
  if (n == "pop") { if (g->gk[t].empty()) return; call(t, "pop"); { NoPreempt np; void* p = g->guards[t].back(); if (g->gk[t].back()) delete (T::restore_interruption*)p; else delete (T::disable_interruption*)p; g->guards[t].pop_back(); g->gk[t].pop_back(); } ret(t, "pop", "ok"); return; }
  if (n == "throwint") { if (t <= g->roots) return; g->exiting[t] = true; pwrite(t); ev("ev", t, "end", 0, 0, "", 0); throw boost::thread_interrupted(); }
#endif
  if (n == "note") { call(t, "note", a); { g->mx[a].lock(); g->flag[a] = 1; g->cv[a].notify_all(); g->cva[a].notify_all(); g->mx[a].unlock(); } ret(t, "note", "ok", 0, a); return; }
  if (n == "clear") { call(t, "clear", a); { g->mx[a].lock(); g->flag[a] = 0; g->mx[a].unlock(); } ret(t, "clear", "ok", 0, a); return; }
  if (n == "jump") { NoPreempt np; jump_realtime(b * 1000ll); g->goff += b * 1000; ev("ev", t, "jump", 0, 0, "", b * 1000); return; }
  if (n == "wait" || n == "sleep" || n == "nsleep") {
    const char* f = n == "wait" ? FORMS[c % 9] : FORMS[a % 8]; int bb = std::string(f) == "none" ? 0 : bits(f);
    if (n == "nsleep" && (a % 8 == 2)) bb |= 16;        // until on the steady clock is made relative
    NoPreempt* np = new NoPreempt; Timeout x(b); if (bb & 8) x.dl += g->goff; delete np;
    boost::unique_lock<boost::mutex> lk(g->mx[n == "wait" ? a : 0], boost::defer_lock);
    if (n == "wait") lk.lock();
    call(t, n.c_str(), n == "wait" ? a : 0, bb, (bb & 1) ? x.dl : 0); const char* r = "ok";
#if INT
    try {
#endif
      if (n == "sleep") do_sleep(f, b, x); else if (n == "nsleep") do_nsleep(f, b, x);
      else r = (c / 10) ? do_wait(g->cva[a], lk, f, b, x, &g->flag[a]) : do_wait(g->cv[a], lk, f, b, x, &g->flag[a]);
#if INT
    } catch (boost::thread_interrupted&) { r = "int"; }
#endif
    if (n == "wait" && !lk.owns_lock()) fault("wait_not_locked");
    ret(t, n.c_str(), r, 0, n == "wait" ? a : 0); return;
  }
  // ---- groups
  if (n == "gadd") { BUSY(a); if (!g->h[a]->joinable()) return;
    int k = -1; for (int i = 0; i < NT; ++i) if (g->hasmade[i] && g->made[i] == g->h[a]->get_id()) k = i; if (k < 0) return;
    EXCL call(t, "gadd", a); boost::thread* p = new boost::thread(boost::move(*g->h[a])); g->grp->add_thread(p); g->gp[k] = p; ret(t, "gadd", "ok", 0, a); return; }
  if (n == "grem") { int k = b; if (k < 0 || k >= NT) return; BUSY(a); ALONE if (!g->gp[k] || g->h[a]->joinable()) return;
    boost::thread* p = g->gp[k]; g->gp[k] = 0; call(t, "grem", a, k); g->grp->remove_thread(p); *g->h[a] = boost::move(*p); if (!g->hasmade[k]) { NoPreempt q; if (g->h[a]->joinable()) { g->made[k] = g->h[a]->get_id(); g->hasmade[k] = true; } } delete p; ret(t, "grem", "ok", 0, a, k); return; }
  if (n == "gjoin") { { NoPreempt np; if ((g->gjoining && !g->co) || g->gexcl) return; ++g->gjoining; } call(t, "gjoin"); const char* r = "ok";
    try { g->grp->join_all(); for (int k = 1; k < NT; ++k) if (g->gp[k]) pread(k); }
    catch (boost::thread_resource_error&) { r = "deadlk"; }
#if INT
    catch (boost::thread_interrupted&) { r = "int"; }
#endif
    --g->gjoining; ret(t, "gjoin", r); return; }
#if INT
  if (n == "gint") { EXCL call(t, "gint"); g->grp->interrupt_all(); ret(t, "gint", "ok"); return; }
#endif
  if (n == "gsize") { call(t, "gsize"); int v = (int)g->grp->size(); ret(t, "gsize", "ok", v); return; }
  if (n == "gin") { EXCL call(t, "gin"); bool v = g->grp->is_this_thread_in(); ret(t, "gin", tf(v)); return; }
  if (n == "gtin") { if (b < 0 || b >= NT) return; ALONE if (!g->gp[b]) return; call(t, "gtin", 0, b); bool v = g->grp->is_thread_in(g->gp[b]); ret(t, "gtin", tf(v), 0, 0, b); return; }
  // ---- exit, tss
  if (n == "atexit") { Cb f = {t, a, b}; call(t, "atexit", a); T::at_thread_exit(f); ret(t, "atexit", "ok", 0, a); return; }
  if (n == "tset") { if (a >= NPT) return; Val* old = tp[a]->get(); Val* x = !b ? 0 : old && old->v == b ? old : new Val(a, b);
    call(t, "tset", a, b); if (x || c == 0) tp[a]->reset(x); else tp[a]->reset(); ret(t, "tset", "ok", 0, a); return; }
  if (n == "tget" || n == "trel") { call(t, n.c_str(), a); Val* x = tp[a]->get();
    if (x && (tp[a]->operator->() != x || &**tp[a] != x)) fault("tss_deref");
    if (n == "trel" && tp[a]->release() != x) fault("tss_release");
    int v = x ? x->v : 0; if (x && x->p != a) fault("tss_mixed"); ret(t, n.c_str(), "ok", v, a); return; }
  if (n == "throwint") return;
}

void vs::driver_run(const Program& p) {
  g = new G(); memset(g->busy, 0, sizeof g->busy); memset(g->shared, 0, sizeof g->shared); g->co = p.get("co"); memset(g->used, 0, sizeof g->used); memset(g->live, 0, sizeof g->live); memset(g->exiting, 0, sizeof g->exiting);
  memset(g->started, 0, sizeof g->started); memset(g->hasmade, 0, sizeof g->hasmade); memset(g->flag, 0, sizeof g->flag); memset(g->gp, 0, sizeof g->gp); g->gjoining = 0; g->gexcl = 0; g->galone = false; g->goff = 0;
  g->grp = new boost::thread_group; g->roots = p.get("roots", 1);
  signal_sleeps(p.get("sig"));
  for (int i = 0; i < NH; ++i) g->h[i] = new boost::thread;
  for (int k = 0; k < NT; ++k) g_mem[k] = new Mem(k);
  tp[0] = new boost::thread_specific_ptr<Val>(); tp[1] = new boost::thread_specific_ptr<Val>(&cust); tp[2] = new boost::thread_specific_ptr<Val>((void (*)(Val*))0); tp[3] = new boost::thread_specific_ptr<Val>(&cust);
  for (int t = 1; t <= g->roots; ++t) g->used[t] = true;
  int last = (int)p.th.size(); std::vector<std::function<void()> > rootf;
  run_standard(p, do_op, [last, &rootf](int t, std::function<void()> f) {
    std::function<void()> b = [t, f]() { f(); g->exiting[t] = true; while (!g->gk[t].empty()) { Op o = {"pop", 0, 0, 0}; do_op(t, o); } pwrite(t); ev("ev", t, "end", 0, 0, "", 0); };
    // nobody runs before every body is in place
    if (t <= g->roots) rootf.push_back([t, b]() { set_tid(t); g->started[t] = true; { NoPreempt np; g->own[t] = boost::this_thread::get_id(); } b(); });
    else { NoPreempt np; g->body[t] = b; }
    if (t == last) for (size_t i = 0; i < rootf.size(); ++i) spawn(rootf[i]);
  });
  if (live_fibers()) return;      // threads are blocked for ever: the specification decides whether they may be
  NoPreempt np;
  check_ids();
  for (int i = 0; i < NH; ++i) { if (g->h[i]->joinable()) g->h[i]->detach(); delete g->h[i]; }
  for (int k = 0; k < NT; ++k) if (g->gp[k] && g->gp[k]->joinable()) g->gp[k]->detach();
  delete g->grp;
  int live = 0; for (int k = 0; k < NT; ++k) live += g->live[k];
  ev("ev", 0, "leak", live, zombies(), "", 0);
}
