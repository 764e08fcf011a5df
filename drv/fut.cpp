// Driver: promises, packaged tasks, asynchronous and deferred functions, futures, continuations, when_all / when_any.
// -DTY: 0 int, 1 void, 2 int&, 3 move-only.   cfg: inv, lazy, void (described by the build), bt: program threads are boost threads
// ops (slots): pnew p form | pget p f | pset p form | pexc p form | psetx p | pexcx p form | psetd p form | pexcd p | pnot p | pmove p q form | pswap p q form | pdtor p
//   tnew k style | tvalid k | tget k f | trun k sleep | trunx k sleep | tmove k j form | tswap k j form | tdtor k
//   anew f pol style+10*sleep | mkr f kind | then f g pol+10*sleep | fallb f g form | unw f w | wset f w kind
//   fget f | fgor f form | fwait f | fexp f | ftw f us form | fvalid/fready/fhasv/fhase/fst f | fmove f g form | fswap f g form | fshare f g form | scopy f g form | fdtor f form
//   wany mask form | wall mask form | whall mask form | whany mask form | vwait | vready | vtw _ us form | vget | jump _ ms
#include "vs.h"
#include "util.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/tss.hpp>
#include <boost/throw_exception.hpp>
#include <boost/exception_ptr.hpp>
#include <memory>
#include <atomic>
#ifndef TY
#define TY 0
#endif
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#define EXE 1
#else
#define EXE 0
#endif
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION && TY != 2   // (a continuation that returns a reference cannot be instantiated)
#define CONT 1
#else
#define CONT 0
#endif
#if defined BOOST_THREAD_PROVIDES_FUTURE_WHEN_ALL_WHEN_ANY
#define WHEN 1
#else
#define WHEN 0
#endif
#if defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
#define VARI 1
#else
#define VARI 0
#endif
using namespace vs;
using boost::BOOST_THREAD_FUTURE;
enum { NP = 3, NF = 6, NTH = 7, MAXID = 62 };
struct Boom : std::exception { int v; explicit Boom(int x) : v(x) {} };

static int g_live;
static void live(int d) { NoPreempt np; g_live += d; }
#if TY == 1
typedef void T;
#elif TY == 2
typedef int& T; static int refs[64];
#elif TY == 3
struct MO { int v; explicit MO(int x = -1) : v(x) { live(1); } MO(MO&& o) : v(o.v) { o.v = -1; live(1); } MO& operator=(MO&& o) { v = o.v; o.v = -1; return *this; } ~MO() { v = -2; live(-1); } MO(const MO&) = delete; MO& operator=(const MO&) = delete; };
typedef MO T;
#else
typedef int T;
#endif
typedef BOOST_THREAD_FUTURE<T> U; typedef boost::shared_future<T> S; typedef boost::promise<T> P;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
#if VARI
typedef boost::packaged_task<T(int)> PT;
#define TASKARGS 1
#else
typedef boost::packaged_task<T()> PT;
#define TASKARGS 0
#endif
#else
typedef boost::packaged_task<T> PT;
#define TASKARGS 0
#endif
static T mk(int v) {
#if TY == 1
  (void)v;
#elif TY == 2
  return refs[v];
#elif TY == 3
  return MO(v);
#else
  return v;
#endif
}
static int getv(U& f) {
#if TY == 1
  f.get(); return 0;
#elif TY == 2
  int& r = f.get(); return (int)(&r - refs);
#elif TY == 3
  MO m(f.get()); return m.v;
#else
  return f.get();
#endif
}
static int getv(const S& f) {
#if TY == 1
  f.get(); return 0;
#elif TY == 2
  int& r = f.get(); return (int)(&r - refs);
#elif TY == 3
  const MO& m = f.get(); return m.v;
#else
  return f.get();
#endif
}
struct Out { const char* r; int v; };
template <class F> static Out outcome(F f) {
  Out o = {"ok", 0};
  try { o.v = f(); if (TY != 1) { if (o.v < 0 || o.v > 63) fault("value", o.v); else pread(o.v); } }
  catch (Boom& b) { o.r = "exc"; o.v = b.v; pread(b.v); }
  catch (boost::broken_promise&) { o.r = "broken"; }
  catch (boost::future_uninitialized&) { o.r = "uninit"; }
  catch (boost::exception& e) { o.r = "other"; }
  catch (std::exception& e) { o.r = "std"; }
  return o;
}
template <class F> static Out outcome_of(F& f) { return outcome([&]() { return getv(f); }); }

// ---- functions that are run: a functor is owned by exactly one state
struct Cnt { Cnt() { live(1); } Cnt(const Cnt&) { live(1); } ~Cnt() { live(-1); } };
static bool g_over;                // what follows is not of interest
static int g_fid[NTH + 1];        // threads of the program; all others are the library's
static int mytid() { int t = tid(); return t >= 0 && t <= NTH && g_fid[t] == fiber_id() ? t : 0; }
static T run_body(int k, int sleep, Out seen) {
  int t = mytid(); if (!g_over) ev("ev", t, "fstart", k, 0, seen.r, seen.v);
  pwrite(k); if (sleep) boost::this_thread::sleep_for(usec(sleep * 300)); else point(); pwrite(k);
  bool thr = k % 3 == 0; if (!g_over) ev("ev", t, "fend", k, 0, thr ? "exc" : "ok", k);
  if (thr) { if (k % 2) boost::throw_exception(Boom(k)); throw Boom(k); }
  return mk(k);
}
static const Out NOTHING = {"", 0};
struct Body { int k, sl; Cnt c; typedef T result_type; Body(int kk, int s) : k(kk), sl(s) {}
  T operator()() { return run_body(k, sl, NOTHING); }
  T operator()(int x) { if (x != 7) fault("args"); return run_body(k, sl, NOTHING); }
  T operator()(int x, const std::string& s) { if (x != 7 || s != "two") fault("args"); return run_body(k, sl, NOTHING); } };
struct MBody { int k, sl; std::unique_ptr<Cnt> c; typedef T result_type; MBody(int kk, int s) : k(kk), sl(s), c(new Cnt) {} MBody(MBody&& o) : k(o.k), sl(o.sl), c(std::move(o.c)) {} MBody& operator=(MBody&& o) { k = o.k; sl = o.sl; c = std::move(o.c); return *this; }
  T operator()() { if (!c) fault("dead_functor"); return run_body(k, sl, NOTHING); } T operator()(int x) { if (x != 7) fault("args"); return (*this)(); } };
static int g_psl[64];
static T plain(int k) { return run_body(k, g_psl[k], NOTHING); }
#if TASKARGS
template <int N> static T pfn(int x) { if (x != 7) fault("args"); return run_body(N, g_psl[N], NOTHING); }
typedef T (*PF)(int);
#else
template <int N> static T pfn() { return run_body(N, g_psl[N], NOTHING); }
typedef T (*PF)();
#endif
static PF g_pf[64];
template <int N> struct Fill { static void go() { g_pf[N] = &pfn<N>; Fill<N - 1>::go(); } };
template <> struct Fill<0> { static void go() { g_pf[0] = &pfn<0>; } };
struct CBody { int k, sl; Cnt c; typedef T result_type; CBody(int kk, int s) : k(kk), sl(s) {}
  template <class F> T go(F& f) { if (!f.is_ready()) fault("not_ready"); Out o = outcome_of(f); return run_body(k, sl, o); }
  T operator()(U f) { return go(f); } T operator()(S f) { return go(f); } };

template <class X> struct Alloc { typedef X value_type; typedef X* pointer; typedef const X* const_pointer; typedef X& reference; typedef const X& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
  template <class Y> struct rebind { typedef Alloc<Y> other; }; Alloc() {} template <class Y> Alloc(const Alloc<Y>&) {}
  X* allocate(size_t n) { live(1); return (X*)::operator new(n * sizeof(X)); } void deallocate(X* p, size_t) { live(-1); ::operator delete(p); }
  template <class Y> void destroy(Y* p) { p->~Y(); } void construct(X* p, const X& v) { new ((void*)p) X(v); } size_t max_size() const { return 1000; }
  bool operator==(const Alloc&) const { return true; } bool operator!=(const Alloc&) const { return false; } };

// ---- slots
struct Info { bool has, sh, used, defer, priv; int dep; };   // dep: promises of futures it comes from
struct VBase { virtual ~VBase() {} virtual void wait() = 0; virtual bool ready() = 0; virtual std::string timed(const std::string&, int, Timeout&) = 0; virtual void get() = 0; };
struct G {
  P* p[NP]; Info pi[NP]; int pu[NP]; PT* k[NP]; int ku[NP]; bool kx[NP];
  U u[NF]; S s[NF]; Info i[NF]; int fu[NF]; U su[NF];
  VBase* v; int vu, vmask; Info vi[NF];
  BOOST_THREAD_FUTURE<U>* dummy; boost::promise<U>* w[2]; int wu[2];
  int next; int off; bool exited[NTH + 1], native[NTH + 1];
#if EXE
  boost::basic_thread_pool* ex;
#endif
};
static G* g;
// slots pass from thread to thread with the synchronisation that a user would have to supply (the two ends of a shared state are different slots)
static std::atomic<int> g_sync[64];
static void sync_slot(int& c) { g_sync[((char*)&c - (char*)g) / sizeof(int) % 61].fetch_add(1, std::memory_order_acq_rel); }
struct Lk { int* u; bool ok, x; Lk(int& c, bool excl) : u(&c), ok(false), x(excl) { NoPreempt np; if (excl ? c == 0 : c >= 0) { ok = true; c = excl ? -1 : c + 1; sync_slot(c); } }
  ~Lk() { NoPreempt np; if (ok) { sync_slot(*u); if (x) *u = 0; else --*u; } } };
struct LkM { std::vector<int> v; bool ok, x; LkM(int mask, bool excl) : ok(true), x(excl) { NoPreempt np; for (int f = 0; f < NF; ++f) if (mask >> f & 1) { int& c = g->fu[f]; if (excl ? c == 0 : c >= 0) { c = excl ? -1 : c + 1; sync_slot(c); v.push_back(f); } else { ok = false; break; } } }
  ~LkM() { NoPreempt np; for (size_t i = 0; i < v.size(); ++i) { sync_slot(g->fu[v[i]]); if (x) g->fu[v[i]] = 0; else --g->fu[v[i]]; } } };
static int fresh() { NoPreempt np; return g->next < MAXID ? ++g->next : 0; }
static const Info NOINFO = {false, false, false, false, false, 0};
static const char* tf(bool b) { return b ? "true" : "false"; }
static void put(int f, U&& x, Info in) { g->u[f] = boost::move(x); g->s[f] = S(); in.has = true; in.sh = false; NoPreempt np; g->i[f] = in; }
static Info mkinfo(bool defer) { Info i = {true, false, false, defer, false, 0}; return i; }

static boost::thread_specific_ptr<int>* g_tss;
static void tssdone(int* p) { int t = *p; NoPreempt np; ev("ev", t, "tlsdone", 0, 0, "", 0); delete p; }

static const char* FORMS[] = {"for", "forms", "until", "suntil", "cuntil", "trel", "tabs"};
static int bits(const std::string& s) { int b = 1; if (s == "suntil") b |= 4 | 8; if (s == "tabs") b |= 4 | 8 | 32; if (s == "cuntil") b |= 4; if (s == "for" || s == "forms") b |= 16; if (s == "trel") b |= 16 | 32; return b; }
static const char* st(boost::future_status x) { return x == boost::future_status::ready ? "ready" : x == boost::future_status::timeout ? "timeout" : "deferred"; }
template <class F> static std::string do_tw(F& f, const std::string& s, int us, Timeout& x) {
  try {
    if (s == "for") return st(f.wait_for(usec(us)));
    if (s == "forms") return st(f.wait_for(boost::chrono::nanoseconds(us * 1000ll)));
    if (s == "until") return st(f.wait_until(x.st));
    if (s == "suntil") return st(f.wait_until(x.sy));
    if (s == "cuntil") return st(f.wait_until(x.us));
    if (s == "trel") return tf(f.timed_wait(pusec(us)));
    return tf(f.timed_wait_until(x.pt));
  } catch (boost::future_uninitialized&) { return "uninit"; }
}
static std::vector<int> members(int m) { std::vector<int> v; for (int f = 0; f < NF; ++f) if (m >> f & 1) v.push_back(f); return v; }

#if WHEN
static void back(int f, U& x) { g->u[f] = boost::move(x); g->i[f] = g->vi[f]; }
static void back(int f, S& x) { g->s[f] = boost::move(x); g->i[f] = g->vi[f]; }
template <class C> struct Holder : VBase { BOOST_THREAD_FUTURE<C> f; explicit Holder(BOOST_THREAD_FUTURE<C> x) : f(boost::move(x)) {}
  void wait() { f.wait(); } bool ready() { return f.is_ready(); } std::string timed(const std::string& s, int us, Timeout& x) { return do_tw(f, s, us, x); } };
template <class F> struct VecH : Holder<boost::csbl::vector<F> > { std::vector<int> m; VecH(BOOST_THREAD_FUTURE<boost::csbl::vector<F> > x, const std::vector<int>& mm) : Holder<boost::csbl::vector<F> >(boost::move(x)), m(mm) {}
  void get() { boost::csbl::vector<F> r = this->f.get(); if (r.size() != m.size()) { fault("size"); return; } for (size_t i = 0; i < m.size(); ++i) back(m[i], r[i]); } };
template <class A> struct Tup1 : Holder<boost::csbl::tuple<A> > { std::vector<int> m; Tup1(BOOST_THREAD_FUTURE<boost::csbl::tuple<A> > x, const std::vector<int>& mm) : Holder<boost::csbl::tuple<A> >(boost::move(x)), m(mm) {}
  void get() { boost::csbl::tuple<A> r = this->f.get(); back(m[0], boost::csbl::get<0>(r)); } };
template <class A, class B> struct Tup2 : Holder<boost::csbl::tuple<A, B> > { std::vector<int> m; Tup2(BOOST_THREAD_FUTURE<boost::csbl::tuple<A, B> > x, const std::vector<int>& mm) : Holder<boost::csbl::tuple<A, B> >(boost::move(x)), m(mm) {}
  void get() { boost::csbl::tuple<A, B> r = this->f.get(); back(m[0], boost::csbl::get<0>(r)); back(m[1], boost::csbl::get<1>(r)); } };
struct Tup3 : Holder<boost::csbl::tuple<U, U, U> > { std::vector<int> m; Tup3(BOOST_THREAD_FUTURE<boost::csbl::tuple<U, U, U> > x, const std::vector<int>& mm) : Holder<boost::csbl::tuple<U, U, U> >(boost::move(x)), m(mm) {}
  void get() { boost::csbl::tuple<U, U, U> r = this->f.get(); back(m[0], boost::csbl::get<0>(r)); back(m[1], boost::csbl::get<1>(r)); back(m[2], boost::csbl::get<2>(r)); } };
template <class A, class B> static VBase* tup2(bool all, A& a, B& b, const std::vector<int>& m) {
  if (all) return new Tup2<A, B>(boost::when_all(boost::move(a), boost::move(b)), m); return new Tup2<A, B>(boost::when_any(boost::move(a), boost::move(b)), m); }
template <class F> static VBase* vec(bool all, F* base, const std::vector<int>& m) {
  boost::csbl::vector<F> v; for (size_t i = 0; i < m.size(); ++i) v.push_back(boost::move(base[m[i]]));
  if (all) return new VecH<F>(boost::when_all(v.begin(), v.end()), m); return new VecH<F>(boost::when_any(v.begin(), v.end()), m); }
static VBase* combine(bool all, const std::vector<int>& m, int form) {
  bool s0 = m.size() && g->i[m[0]].sh, same = true; for (size_t i = 0; i < m.size(); ++i) if (g->i[m[i]].sh != s0) same = false;
  if (same && (form == 0 || m.size() > 3 || m.empty() || (m.size() == 3 && s0))) return s0 ? vec(all, g->s, m) : vec(all, g->u, m);
  if (m.size() == 1) { if (s0) return all ? (VBase*)new Tup1<S>(boost::when_all(boost::move(g->s[m[0]])), m) : new Tup1<S>(boost::when_any(boost::move(g->s[m[0]])), m);
    return all ? (VBase*)new Tup1<U>(boost::when_all(boost::move(g->u[m[0]])), m) : new Tup1<U>(boost::when_any(boost::move(g->u[m[0]])), m); }
  if (m.size() == 2) { bool s1 = g->i[m[1]].sh; if (s0) return s1 ? tup2(all, g->s[m[0]], g->s[m[1]], m) : tup2(all, g->s[m[0]], g->u[m[1]], m); return s1 ? tup2(all, g->u[m[0]], g->s[m[1]], m) : tup2(all, g->u[m[0]], g->u[m[1]], m); }
  if (all) return new Tup3(boost::when_all(boost::move(g->u[m[0]]), boost::move(g->u[m[1]]), boost::move(g->u[m[2]])), m);
  return new Tup3(boost::when_any(boost::move(g->u[m[0]]), boost::move(g->u[m[1]]), boost::move(g->u[m[2]])), m);
}
#endif
template <class A, class B> static int any2(A& a, B& b) { return (int)boost::wait_for_any(a, b); }
static int do_any(const std::vector<int>& m, int form) {
  bool s0 = g->i[m[0]].sh, contig = true; for (size_t i = 0; i < m.size(); ++i) if (g->i[m[i]].sh != s0 || m[i] != m[0] + (int)i) contig = false;
  if (contig && (form == 0 || m.size() == 1 || m.size() > 3)) { if (s0) return (int)(boost::wait_for_any(g->s + m[0], g->s + m[0] + m.size()) - (g->s + m[0])); return (int)(boost::wait_for_any(g->u + m[0], g->u + m[0] + m.size()) - (g->u + m[0])); }
  U* u = g->u; S* s = g->s; Info* n = g->i;
  if (m.size() == 2) { if (n[m[0]].sh) return n[m[1]].sh ? any2(s[m[0]], s[m[1]]) : any2(s[m[0]], u[m[1]]); return n[m[1]].sh ? any2(u[m[0]], s[m[1]]) : any2(u[m[0]], u[m[1]]); }
  if (m.size() == 3) { if (n[m[0]].sh) return n[m[1]].sh ? (n[m[2]].sh ? (int)boost::wait_for_any(s[m[0]], s[m[1]], s[m[2]]) : (int)boost::wait_for_any(s[m[0]], s[m[1]], u[m[2]])) : (n[m[2]].sh ? (int)boost::wait_for_any(s[m[0]], u[m[1]], s[m[2]]) : (int)boost::wait_for_any(s[m[0]], u[m[1]], u[m[2]]));
    return n[m[1]].sh ? (n[m[2]].sh ? (int)boost::wait_for_any(u[m[0]], s[m[1]], s[m[2]]) : (int)boost::wait_for_any(u[m[0]], s[m[1]], u[m[2]])) : (n[m[2]].sh ? (int)boost::wait_for_any(u[m[0]], u[m[1]], s[m[2]]) : (int)boost::wait_for_any(u[m[0]], u[m[1]], u[m[2]])); }
  return -1;
}
static bool do_all(const std::vector<int>& m, int form) {
  if (m.empty()) { boost::wait_for_all(g->u, g->u); return true; }
  bool s0 = g->i[m[0]].sh, contig = true; for (size_t i = 0; i < m.size(); ++i) if (g->i[m[i]].sh != s0 || m[i] != m[0] + (int)i) contig = false;
  U* u = g->u; S* s = g->s; Info* n = g->i;
  if (contig && (form == 0 || m.size() == 1 || m.size() > 3)) { if (s0) boost::wait_for_all(s + m[0], s + m[0] + m.size()); else boost::wait_for_all(u + m[0], u + m[0] + m.size()); return true; }
  if (m.size() == 2) { if (n[m[0]].sh) { if (n[m[1]].sh) boost::wait_for_all(s[m[0]], s[m[1]]); else boost::wait_for_all(s[m[0]], u[m[1]]); } else { if (n[m[1]].sh) boost::wait_for_all(u[m[0]], s[m[1]]); else boost::wait_for_all(u[m[0]], u[m[1]]); } return true; }
  if (m.size() == 3) { if (n[m[0]].sh) { if (n[m[2]].sh) { if (n[m[1]].sh) boost::wait_for_all(s[m[0]], s[m[1]], s[m[2]]); else boost::wait_for_all(s[m[0]], u[m[1]], s[m[2]]); } else { if (n[m[1]].sh) boost::wait_for_all(s[m[0]], s[m[1]], u[m[2]]); else boost::wait_for_all(s[m[0]], u[m[1]], u[m[2]]); } }
    else { if (n[m[2]].sh) { if (n[m[1]].sh) boost::wait_for_all(u[m[0]], s[m[1]], s[m[2]]); else boost::wait_for_all(u[m[0]], u[m[1]], s[m[2]]); } else { if (n[m[1]].sh) boost::wait_for_all(u[m[0]], s[m[1]], u[m[2]]); else boost::wait_for_all(u[m[0]], u[m[1]], u[m[2]]); } } return true; }
  return false;
}

static void do_set(P& p, int form, int v) {
#if TY == 1
  (void)form; (void)v; p.set_value();
#elif TY == 2
  (void)form; p.set_value(refs[v]);
#elif TY == 3
  if (form == 1) p.emplace(v); else p.set_value(MO(v));
#else
  if (form == 1) p.emplace(v); else if (form == 2) { const int x = v; p.set_value(x); } else p.set_value(boost::move(v));
#endif
}
static void do_setd(P& p, int v) {
#if TY == 1
  (void)v; p.set_value_deferred();
#elif TY == 2
  p.set_value_deferred(refs[v]);
#elif TY == 3
  p.set_value_deferred(MO(v));
#else
  if (v & 1) { const int x = v; p.set_value_deferred(x); } else p.set_value_deferred(boost::move(v));
#endif
}
static void do_setx(P& p, int v) {
#if TY == 1
  (void)v; p.set_value_at_thread_exit();
#elif TY == 2
  p.set_value_at_thread_exit(refs[v]);
#elif TY == 3
  p.set_value_at_thread_exit(MO(v));
#else
  if (v & 1) { const int x = v; p.set_value_at_thread_exit(x); } else p.set_value_at_thread_exit(boost::move(v));
#endif
}
static P* mkp(int form) {
#if defined BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS && !defined BOOST_THREAD_PROVIDES_PROMISE_LAZY
  if (form == 1) return new P(boost::allocator_arg, Alloc<int>());
#endif
  (void)form; return new P();
}
static PT* mkt(int style, int k, int sl) {
  if (style == 0) return new PT(Body(k, sl));
  if (style == 1) { Body b(k, sl); return new PT(b); }
#if TY != 2 || !TASKARGS
  if (style == 2) { g_psl[k] = sl; return new PT(g_pf[k]); }
#endif
  if (style == 3) return new PT(MBody(k, sl));
#if defined BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
  if (style == 4) return new PT(boost::allocator_arg, Alloc<int>(), Body(k, sl));
#endif
  const Body b(k, sl); return new PT(b);
}
static void run_task(PT& k, bool x) {
#if TASKARGS
#if defined BOOST_THREAD_PROVIDES_MAKE_READY_AT_THREAD_EXIT || 1
  if (x) k.make_ready_at_thread_exit(7); else k(7);
#endif
#else
  if (x) k.make_ready_at_thread_exit(); else k();
#endif
}
static U mka(int pol, int style, int k, int sl) {
  boost::launch l = pol == 1 ? boost::launch::deferred : boost::launch::async;
#if EXE
  if (pol == 3) { if (style == 1) return boost::async(*g->ex, Body(k, sl), 7); return boost::async(*g->ex, Body(k, sl)); }
#endif
#if VARI
  if (pol == 2) { if (style == 1) return boost::async(Body(k, sl), 7); if (style == 2) { g_psl[k] = sl; return boost::async(&plain, k); } return boost::async(Body(k, sl)); }
  if (style == 1) return boost::async(l, Body(k, sl), 7, std::string("two"));
  if (style == 2) { g_psl[k] = sl; return boost::async(l, &plain, k); }
  if (style == 3) return boost::async(l, MBody(k, sl));
#else
  if (pol == 2) return boost::async(Body(k, sl));
#endif
  Body b(k, sl); return boost::async(l, b);
}
#define RESULT(expr) do { try { expr; } catch (boost::promise_already_satisfied&) { r = "sat"; } catch (boost::future_already_retrieved&) { r = "retr"; } catch (boost::promise_moved&) { r = "moved"; } catch (boost::task_moved&) { r = "moved"; } catch (boost::task_already_started&) { r = "started"; } catch (boost::future_uninitialized&) { r = "uninit"; } } while (0)

static void do_op(int t, const Op& o) {
  const std::string& n = o.name; int a = o.a, b = o.b, c = o.c; const char* r = "ok"; const char* cn = n.c_str();
  if (n == "sleep") { boost::this_thread::sleep_for(usec(b)); return; }
  if (n == "jump") { NoPreempt np; jump_realtime(b * 1000ll); g->off += b * 1000; ev("ev", t, "jump", 0, 0, "", b * 1000); return; }
  if (n[0] == 'p') {
    if (a >= NP) return; Lk l(g->pu[a], true); if (!l.ok) return;
    if ((n == "pnew") == (g->p[a] != 0)) return;
    int id = fresh(), v = fresh(); if (!v) return;
    if (n == "pnew") { call(t, cn, a, 0, id); g->p[a] = mkp(b); g->pi[a] = NOINFO; ret(t, cn, r, 0, a); return; }
    if (n == "pget") { if (b >= NF) return; Lk m(g->fu[b], true); if (!m.ok) return; call(t, cn, a, b, id); bool ok = false; RESULT({ U x = g->p[a]->get_future(); put(b, boost::move(x), mkinfo(false)); ok = true; }); if (!ok && !strcmp(r, "ok")) r = "none"; ret(t, cn, r, 0, a, b); return; }
    if (n == "pset" || n == "pexc" || n == "psetx" || n == "pexcx" || n == "psetd" || n == "pexcd") {
      pwrite(v); boost::exception_ptr e = n[1] == 'e' && b % 2 == 0 ? boost::copy_exception(Boom(v)) : boost::exception_ptr();
      call(t, cn, a, v, id); P& p = *g->p[a];
      if (n == "pset") RESULT(do_set(p, b, v));
      else if (n == "pexc") { if (b % 2) RESULT(p.set_exception(Boom(v))); else RESULT(p.set_exception(e)); }
      else if (n == "psetx") RESULT(do_setx(p, v));
      else if (n == "pexcx") { if (b % 2) RESULT(p.set_exception_at_thread_exit(Boom(v))); else RESULT(p.set_exception_at_thread_exit(e)); }
      else if (n == "psetd") { RESULT(do_setd(p, v)); if (!strcmp(r, "ok")) g->pi[a].priv = true; }
      else { if (b % 2) RESULT(p.set_exception_deferred(Boom(v))); else RESULT(p.set_exception_deferred(e)); if (!strcmp(r, "ok")) g->pi[a].priv = true; }
      ret(t, cn, r, 0, a); return; }
    if (n == "pnot") { if (!g->pi[a].priv) return; g->pi[a].priv = false; call(t, cn, a); RESULT(g->p[a]->notify_deferred()); ret(t, cn, r, 0, a); return; }
    if (n == "pmove" || n == "pswap") { if (b >= NP || b == a) return; Lk m(g->pu[b], true); if (!m.ok) return; if (n == "pswap" && !g->p[b]) return; if (n == "pmove" && g->p[b] && g->pi[b].priv) return;
      call(t, cn, a, b);
      if (n == "pmove") { if (!g->p[b]) g->p[b] = new P(boost::move(*g->p[a])); else *g->p[b] = boost::move(*g->p[a]); g->pi[b] = g->pi[a]; g->pi[a] = NOINFO; }
      else { if (c) g->p[a]->swap(*g->p[b]); else { using boost::swap; g->p[b]->swap(*g->p[a]); } std::swap(g->pi[a], g->pi[b]); }
      ret(t, cn, r, 0, a, b); return; }
    if (n == "pdtor") { if (g->pi[a].priv) return; call(t, cn, a); P* p = g->p[a]; delete p; g->p[a] = 0; ret(t, cn, r, 0, a); return; }
    return;
  }
  if (n[0] == 't' && n != "then") {
    if (a >= NP) return; Lk l(g->ku[a], true); if (!l.ok) return;
    if ((n == "tnew") == (g->k[a] != 0)) return;
    if (n == "tnew") { int id = fresh(); if (!id) return; call(t, cn, a, 0, id); g->k[a] = mkt(b % 10, id, b / 10); ret(t, cn, r, 0, a); return; }
    if (n == "tvalid") { call(t, cn, a); bool v = g->k[a]->valid(); ret(t, cn, tf(v), 0, a); return; }
    if (n == "tget") { if (b >= NF) return; Lk m(g->fu[b], true); if (!m.ok) return; call(t, cn, a, b); RESULT({ U x = g->k[a]->get_future(); put(b, boost::move(x), mkinfo(false)); }); ret(t, cn, r, 0, a, b); return; }
    if (n == "trun" || n == "trunx") { call(t, cn, a); RESULT(run_task(*g->k[a], n == "trunx")); ret(t, cn, r, 0, a); return; }
    if (n == "tmove" || n == "tswap") { if (b >= NP || b == a) return; Lk m(g->ku[b], true); if (!m.ok) return; if (n == "tswap" && !g->k[b]) return;
      call(t, cn, a, b);
      if (n == "tmove") { if (!g->k[b]) { if (c) { g->k[b] = new PT(); *g->k[b] = boost::move(*g->k[a]); } else g->k[b] = new PT(boost::move(*g->k[a])); } else *g->k[b] = boost::move(*g->k[a]); }
      else if (c) g->k[a]->swap(*g->k[b]); else swap(*g->k[a], *g->k[b]);
      ret(t, cn, r, 0, a, b); return; }
    if (n == "tdtor") { call(t, cn, a); delete g->k[a]; g->k[a] = 0; ret(t, cn, r, 0, a); return; }
    return;
  }
  if (n[0] == 'v' || n == "whall" || n == "whany") {
#if WHEN
    if (n[0] == 'w') { Lk l(g->vu, true); if (!l.ok || g->v) return; LkM m(a, true); if (!m.ok) return; std::vector<int> ms = members(a);
      for (size_t i = 0; i < ms.size(); ++i) if (!g->i[ms[i]].has || (g->i[ms[i]].used && !g->i[ms[i]].sh)) return;
      { bool s0 = ms.size() && g->i[ms[0]].sh, same = true; for (size_t i = 0; i < ms.size(); ++i) if (g->i[ms[i]].sh != s0) same = false; if (!same && ms.size() > 2) return; if (s0 && same && ms.size() == 3) b = 0; }
      int id = fresh(); if (!id) return; for (size_t i = 0; i < ms.size(); ++i) g->vi[ms[i]] = g->i[ms[i]];
      call(t, cn, a, 0, id); g->v = combine(n == "whall", ms, b); g->vmask = a; for (size_t i = 0; i < ms.size(); ++i) { g->u[ms[i]] = U(); g->s[ms[i]] = S(); g->i[ms[i]] = NOINFO; } ret(t, cn, r, 0, a); return; }
    if (n == "vget") { Lk l(g->vu, true); if (!l.ok || !g->v) return; LkM m(g->vmask, true); if (!m.ok) return; std::vector<int> ms = members(g->vmask); for (size_t i = 0; i < ms.size(); ++i) if (g->i[ms[i]].has) return;
      call(t, cn); g->v->get(); delete g->v; g->v = 0; ret(t, cn, r); return; }
    Lk l(g->vu, false); if (!l.ok || !g->v) return;
    if (n == "vwait") { call(t, cn); g->v->wait(); ret(t, cn, r); return; }
    if (n == "vready") { call(t, cn); bool x = g->v->ready(); ret(t, cn, tf(x)); return; }
    if (n == "vtw") { std::string s = FORMS[c % 7]; int bb = bits(s); NoPreempt* np = new NoPreempt; Timeout x(b); if (bb & 8) x.dl += g->off; delete np; call(t, cn, 0, bb, x.dl); std::string q = g->v->timed(s, b, x); ret(t, cn, q.c_str()); return; }
#endif
    return;
  }
  if (n == "wany" || n == "wall") {
    LkM m(a, false); if (!m.ok) return; std::vector<int> ms = members(a); if (n == "wany" && ms.empty()) return; if (ms.size() > 3) return;
    for (size_t i = 0; i < ms.size(); ++i) if (!g->i[ms[i]].has || (n == "wany" && (g->i[ms[i]].defer || g->i[ms[i]].used))) return;
    bool s0 = ms.size() && g->i[ms[0]].sh; bool contig = true; for (size_t i = 0; i < ms.size(); ++i) if (g->i[ms[i]].sh != s0 || ms[i] != ms[0] + (int)i) contig = false;
    if (!contig && ms.size() < 2) return;
    call(t, cn, a); int i = 0; if (n == "wany") { i = do_any(ms, b); if (i < 0 || i >= (int)ms.size()) { fault("index", i); i = 0; } i = ms[i]; } else do_all(ms, b); ret(t, cn, r, i, a); return;
  }
  if (a >= NF) return;
  if (n == "anew" || n == "mkr") {
    Lk l(g->fu[a], true); if (!l.ok) return; 
#if !VARI
    if (n == "anew" && b == 1) return;
    if (n == "anew" && b == 2) b = 0;
#endif
    if (b == 3 && n == "anew") {
#if EXE
      if (!g->ex) return;
#else
      b = 0;
#endif
    }
#if TY == 2
    if (n == "mkr" && b == 2) b = 0;
#endif
    int id = fresh(); if (!id) return;
    if (n == "anew") { call(t, cn, a, b, id); U x = mka(b, c % 10, id, c / 10); put(a, boost::move(x), mkinfo(b == 1)); ret(t, cn, r, 0, a); return; }
    pwrite(id); call(t, cn, a, b, id); Info in = mkinfo(false);
    if (b == 0) {
#if TY == 1
      put(a, boost::make_ready_future(), in);
#elif TY == 2
      if (c == 1) put(a, boost::make_ready_future<int&>(refs[id]), in); else put(a, boost::make_ready_future(boost::ref(refs[id])), in);
#elif TY == 3
      if (c == 1) put(a, boost::make_ready_future<MO>(id), in); else if (c == 2) put(a, boost::make_ready_future<MO>(MO(id)), in); else put(a, boost::make_ready_future(MO(id)), in);
#else
      if (c == 1) put(a, boost::make_future(int(id)), in); else if (c == 2) put(a, boost::make_ready_future<int>(id), in); else if (c == 3) put(a, boost::make_ready_no_decay_future<int>(id), in); else put(a, boost::make_ready_future(int(id)), in);
#endif
    } else if (b == 1) {
      if (c == 1) put(a, boost::make_exceptional_future<T>(Boom(id)), in);
      else if (c == 2) { try { boost::throw_exception(Boom(id)); } catch (...) { put(a, boost::make_exceptional_future<T>(), in); } }
      else if (c == 3) put(a, U(boost::exceptional_ptr(boost::copy_exception(Boom(id)))), in);
      else put(a, boost::make_exceptional_future<T>(boost::copy_exception(Boom(id))), in);
    } else {
#if TY == 1
      g->s[a] = boost::make_shared_future();
#elif TY != 2
      g->s[a] = boost::make_shared_future(mk(id));
#endif
      g->u[a] = U(); in.sh = true; g->i[a] = in;
    }
    ret(t, cn, r, 0, a); return;
  }
  if (n == "then" || n == "fallb") {
#if CONT
    if (b >= NF) return; Lk l(g->fu[a], !g->i[a].sh); if (!l.ok) return; Info& i = g->i[a]; if (!i.has || i.used || (i.sh && l.x)) return;
    if (!i.sh && !l.x) return;
    if (a == b) return; Lk m(g->fu[b], true); if (!m.ok) return;
    int pol = n == "fallb" ? 5 : c % 10, sl = c / 10; if (n == "fallb" && (i.sh || TY == 1 || TY == 2)) return;
    if (i.defer && pol != 1 && pol != 5) return;    // nobody would run the parent
    if (pol == 3) {
#if EXE
      if (!g->ex) return;
#else
      pol = 0;
#endif
    }
    int id = fresh(); if (!id) return; if (n == "fallb") pwrite(id);
    call(t, cn, a + 100 * b, pol, id); U x; bool df = pol == 1 || (pol == 5 && i.defer); Info in = mkinfo(df); in.dep = i.dep;
    boost::launch lp = pol == 0 ? boost::launch::async : pol == 1 ? boost::launch::deferred : boost::launch::sync;
    if (n == "then") {
#if EXE
      if (pol == 3) { if (i.sh) x = g->s[a].then(*g->ex, CBody(id, sl)); else x = g->u[a].then(*g->ex, CBody(id, sl)); } else
#endif
      if (pol == 5) { if (i.sh) x = g->s[a].then(CBody(id, sl)); else x = g->u[a].then(CBody(id, sl)); }
      else if (i.sh) x = g->s[a].then(lp, CBody(id, sl)); else x = g->u[a].then(lp, CBody(id, sl));
    }
#if TY == 0 || TY == 3
    else { T v = mk(id);
#if TY == 0
      if (c) { const T w = v; x = g->u[a].fallback_to(w); } else
#endif
      x = g->u[a].fallback_to(boost::move(v)); }
#endif
    if (!i.sh) { if (g->u[a].valid()) fault("then_parent"); NoPreempt np; g->i[a] = NOINFO; }
    put(b, boost::move(x), in); ret(t, cn, r, 0, a, b); return;
#else
    return;
#endif
  }
  if (n == "unw" || n == "wset") {
#if defined BOOST_THREAD_PROVIDES_FUTURE_UNWRAP
    if (b > 1) return; Lk w(g->wu[b], true); if (!w.ok) return; if ((n == "unw") == (g->w[b] != 0)) return;
    Lk l(g->fu[a], true); if (!l.ok) return; if (n == "wset" && c == 0 && (g->i[a].sh || g->i[a].used || g->i[a].defer || (g->i[a].dep >> b))) return;   // no circles
    int id = fresh(); if (!id) return;
    if (n == "unw") { call(t, cn, a + 100 * b, 0, id); g->w[b] = new boost::promise<U>(); BOOST_THREAD_FUTURE<U> x = g->w[b]->get_future(); U y; if (c) y = x.unwrap(); else { U z(boost::move(x)); y = boost::move(z); } Info in = mkinfo(false); in.dep = 1 << b; put(a, boost::move(y), in); ret(t, cn, r, 0, a, b); return; }
    pwrite(id); call(t, cn, a + 100 * b, c, id); boost::promise<U>* p = g->w[b];
    if (c == 0) { p->set_value(boost::move(g->u[a])); g->i[a] = NOINFO; } else if (c == 1) p->set_exception(Boom(id));
    delete p; g->w[b] = 0; ret(t, cn, r, 0, a, b); return;
#else
    return;
#endif
  }
  if (n == "fget" || n == "fgor") {
    bool sh = g->i[a].sh; Lk l(g->fu[a], !sh); if (!l.ok) return; if (sh != g->i[a].sh) return; Info& i = g->i[a];
    if (n == "fgor" && (TY == 1 || TY == 2)) return;   // no such function, or one that cannot be instantiated
#ifndef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
    if (i.used && TY == 3) return;
#endif
    int id = 0; if (n == "fgor") { id = fresh(); if (!id) return; pwrite(id); }
#if TY == 3 || TY == 2
    if (n == "fgor" && i.sh) return;
#endif
    call(t, cn, a, 0, id); Out x;
    if (n == "fget") x = i.sh ? outcome_of(g->s[a]) : outcome_of(g->u[a]);
#if TY == 0
    else if (i.sh) x = outcome([&]() { return g->s[a].get_or(int(id)); });
    else x = outcome([&]() { if (b) { const int w = id; return g->u[a].get_or(w); } return g->u[a].get_or(int(id)); });
#elif TY == 3
    else x = outcome([&]() { MO m(g->u[a].get_or(MO(id))); return m.v; });
#endif
    if (!i.sh) i.used = true;
    ret(t, cn, x.r, x.v, a); return;
  }
  if (n == "fmove" || n == "fswap" || n == "fshare" || n == "scopy") {
    if (b >= NF || a == b) return; Lk l(g->fu[a], true), m(g->fu[b], true); if (!l.ok || !m.ok) return;
    if (n == "fshare" && (g->i[a].sh || g->i[a].used)) return; if (n == "scopy" && (!g->i[a].sh || !g->i[a].has)) return; if (n == "fswap" && (g->i[a].sh != g->i[b].sh)) return;
    call(t, cn, a, b); bool sh = g->i[a].sh;
    if (n == "fmove") { if (sh) { if (c) { S x(boost::move(g->s[a])); g->s[b] = boost::move(x); } else g->s[b] = boost::move(g->s[a]); g->u[b] = U(); } else { if (c) { U x(boost::move(g->u[a])); g->u[b] = boost::move(x); } else g->u[b] = boost::move(g->u[a]); g->s[b] = S(); } g->i[b] = g->i[a]; g->i[a] = NOINFO; }
    else if (n == "fswap") { if (sh) g->s[a].swap(g->s[b]); else g->u[a].swap(g->u[b]); std::swap(g->i[a], g->i[b]); }
    else if (n == "fshare") { if (c == 0) g->s[b] = g->u[a].share(); else if (c == 1) g->s[b] = S(boost::move(g->u[a])); else g->s[b] = boost::move(g->u[a]); g->u[b] = U(); g->i[b] = g->i[a]; g->i[b].sh = g->i[a].has; g->i[a] = NOINFO; }
    else { if (c) g->s[b] = g->s[a]; else { S x(g->s[a]); g->s[b] = x; } g->u[b] = U(); g->i[b] = g->i[a]; }
    ret(t, cn, r, 0, a, b); return;
  }
  if (n == "fdtor") { Lk l(g->fu[a], true); if (!l.ok) return; call(t, cn, a); g->u[a] = U(); g->s[a] = S(); g->i[a] = NOINFO; ret(t, cn, r, 0, a); return; }
  // shared use
  Lk l(g->fu[a], false); if (!l.ok) return; bool sh = g->i[a].sh; U& u = g->u[a]; S& s = g->s[a];
  if (n == "fvalid") { call(t, cn, a); bool x = sh ? s.valid() : u.valid(); ret(t, cn, tf(x), 0, a); return; }
  if (n == "fready") { call(t, cn, a); bool x = sh ? s.is_ready() : u.is_ready(); ret(t, cn, tf(x), 0, a); return; }
  if (n == "fhasv") { call(t, cn, a); bool x = sh ? s.has_value() : u.has_value(); ret(t, cn, tf(x), 0, a); return; }
  if (n == "fhase") { call(t, cn, a); bool x = sh ? s.has_exception() : u.has_exception(); ret(t, cn, tf(x), 0, a); return; }
  if (n == "fst") { call(t, cn, a); boost::future_state::state x = sh ? s.get_state() : u.get_state(); ret(t, cn, x == boost::future_state::uninitialized ? "uninit" : x == boost::future_state::waiting ? "waiting" : x == boost::future_state::ready ? "ready" : "other", 0, a); return; }
  if (n == "fwait") { call(t, cn, a); RESULT(if (sh) s.wait(); else u.wait()); ret(t, cn, r, 0, a); return; }
  if (n == "fexp") { call(t, cn, a); boost::exception_ptr e = sh ? s.get_exception_ptr() : u.get_exception_ptr(); Out x = {"none", 0}; if (e) x = outcome([&]() -> int { boost::rethrow_exception(e); return 0; }); ret(t, cn, x.r, x.v, a); return; }
  if (n == "ftw") { std::string f = FORMS[c % 7]; int bb = bits(f); NoPreempt* np = new NoPreempt; Timeout x(b); if (bb & 8) x.dl += g->off; delete np; call(t, cn, a, bb, x.dl); std::string q = sh ? do_tw(s, f, b, x) : do_tw(u, f, b, x); ret(t, cn, q.c_str(), 0, a); return; }
}

void vs::driver_run(const Program& p) {
  { NoPreempt np; g_live = 0; g_over = false; memset(g_fid, 0, sizeof g_fid); if (!g_pf[1]) Fill<63>::go(); }
  g = new G(); for (int i = 0; i < NP; ++i) { g->p[i] = 0; g->k[i] = 0; g->pi[i] = NOINFO; g->pu[i] = g->ku[i] = 0; }
  for (int i = 0; i < NF; ++i) { g->i[i] = NOINFO; g->fu[i] = 0; } g->v = 0; g->vu = 0; g->w[0] = g->w[1] = 0; g->wu[0] = g->wu[1] = 0; g->next = p.get("id0"); g->off = 0;
#if EXE
  g->ex = p.get("exe") ? new boost::basic_thread_pool(p.get("exe")) : 0;
#endif
  g_tss = new boost::thread_specific_ptr<int>(&tssdone);
  int bt = p.get("bt"); std::vector<std::function<void()> > fs; int last = (int)p.th.size();
  run_standard(p, do_op, [&fs, last, bt](int t, std::function<void()> f) {
    fs.push_back([t, f]() { set_tid(t); g_fid[t] = fiber_id(); { NoPreempt np; g_tss->reset(new int(t)); } f(); ev("ev", t, "end", 0, 0, "", 0); });
    if (t == last) for (size_t i = 0; i < fs.size(); ++i) if (bt) { boost::thread th(fs[i]); th.detach(); } else spawn(fs[i]);
  });
  // everything is destroyed by one more thread; what is destroyed must not live on
  bool stuck = false;
#if EXE
  stuck = live_fibers() > (g->ex ? p.get("exe") : 0);
#else
  stuck = live_fibers() > 0;
#endif
  if (stuck) return;
  g_over = true;
  spawn([]() { set_tid(0);
    for (int i = 0; i < NP; ++i) { if (g->p[i] && g->pi[i].priv) g->p[i]->notify_deferred(); delete g->p[i]; delete g->k[i]; g->p[i] = 0; g->k[i] = 0; }
    for (int i = 0; i < 2; ++i) { delete g->w[i]; g->w[i] = 0; }
    delete g->v; g->v = 0;
    for (int i = 0; i < NF; ++i) { g->u[i] = U(); g->s[i] = S(); }
#if EXE
    if (g->ex) boost::this_thread::sleep_for(usec(60000));   // the pool outlives what still uses it
    delete g->ex; g->ex = 0;
#endif
  });
  wait_dead();
  if (live_fibers()) return;
  { NoPreempt np; ev("ev", 0, "leak", g_live, zombies(), "", 0); }
}
