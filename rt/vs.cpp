// vsched runtime, see vs.h.  Compiled without instrumentation.
#include "vs.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <exception>
#include <new>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <algorithm>
#include <cxxabi.h>
#include <fcntl.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void vs_switch(void** save_sp, void* load_sp);
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vs_switch,.-vs_switch
)");

namespace vs {

enum { MAXF = 40, MAXKEY = 64, STACK = 256 * 1024 };
enum St { UNUSED, READY, BLOCKED, IDLEWAIT, DEADWAIT, DONE };
enum Wk { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_SPIN, W_GATE, W_GUARD, W_YIELD };

struct VC { uint32_t c[MAXF]; };
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Fiber {
  void* sp; St st; Wk wk; void* obj; int64_t deadline; bool timed; int wclock; bool timedout; bool signaled;
  unsigned long order;
  int id, tid, prio; bool detached, joined, ext; void* (*fn)(void*); void* arg; void* retv;
  std::function<void()>* ffn;
  void* tls[MAXKEY]; char eh[16]; int err; VC vc; char* stack; int gate; bool yielded; bool joiner; int ny;
};

static Fiber F[MAXF];
static Fiber* cur = 0;
static int nf = 0;
static void* root_sp;
static bool g_active = false;      // a run is in progress and we are on a fiber
static int g_nopreempt = 0;
static bool g_arena_on = false;

// ---- random numbers -------------------------------------------------------------------------
struct Rng { uint64_t s; uint32_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)((z ^ (z >> 31)) >> 16); }
  uint32_t below(uint32_t n) { return n ? next() % n : 0; } };
static Rng g_rng, g_rng2;
uint32_t rnd() { return g_rng2.next(); }

// ---- strategy -------------------------------------------------------------------------------
enum Mode { M_SCRIPT, M_RANDOM, M_PCT, M_DFS };
static Mode g_mode; static uint32_t g_psync, g_pmem, g_ptime, g_pspur;   // per 1024 / mem: mean gap
static int g_countdown; static long g_points, g_steps, g_maxsteps = 400000;
static int g_nchg; static long g_chg[8]; static int g_chgi; static int g_lowprio;
// DFS: choice stack
struct Choice { uint8_t n, k; };
static std::vector<Choice>* g_dfs; static size_t g_dfspos; static int g_dfsbudget;

// ---- shared result area -----------------------------------------------------------------------
enum { SEEN = 1 << 18 };
struct Shared { volatile int len, unclean, full, stop, warm; volatile int it; volatile long runs, traces, overlong, dfsdone; int mode; uint64_t sd; int dn; Choice dc[8192];
  int nseen; uint64_t seen[SEEN]; int idx[SEEN]; char buf[1 << 20]; };
static Shared* sh;
static int g_nev; static char g_faultset[512];
static bool g_faulted;

static void put(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int room = (int)sizeof(sh->buf) - sh->len - 1;
  if (room > 400) { int n = vsnprintf(sh->buf + sh->len, room, fmt, ap); if (n > 0) sh->len = sh->len + (n < room ? n : room - 1); }
  else sh->full = 1;
  va_end(ap);
}

// ---- time -------------------------------------------------------------------------------------
static const int64_t MONO0 = 1000ll * 1000000000ll, REAL0 = 1700000000ll * 1000000000ll;
static int64_t g_now;        // ns since start
static int g_early;          // time has advanced while threads were runnable
static int64_t g_realoff;    // ns
static int64_t mono_ns() { return MONO0 + g_now; }
static int64_t real_ns() { return REAL0 + g_now + g_realoff; }
static int64_t clk_ns(int c) { return c == CLOCK_REALTIME ? real_ns() : mono_ns(); }
int now_us() { int64_t u = g_now / 1000; return u > 2000000000 ? 2000000000 : (int)u; }
int64_t real_us() { return real_ns() / 1000; }
void jump_realtime(int64_t d) { g_realoff += d * 1000; }
static const int64_t HORIZON = 1000ll * 1000000000ll;   // timers beyond this never fire

enum { SPINS = 12 };
static void unspin();
static int g_rounds;
void ev(const char* e, int t, const char* o, int a, int b, const char* r, int v) {
  if (sh->full) return;
  if (cur) { cur->ny = 0; unspin(); }
  if (++g_nev > 4000) { sh->full = 1; return; }
  put("%s{\"e\":\"%s\",\"t\":%d,\"o\":\"%s\",\"a\":%d,\"b\":%d,\"r\":\"%s\",\"v\":%d,\"w\":%d}", g_nev > 1 ? "," : "", e, t, o, a, b, r, v, now_us());
}
void fault(const char* what, int v) {
  if (!g_active) return;
  g_faulted = true;
  std::string k = std::string("|") + what;
  { if (strstr(g_faultset, k.c_str())) return; if (strlen(g_faultset) + k.size() < 500) strcat(g_faultset, k.c_str()); }
  ev("fault", cur ? cur->tid : 0, what, 0, 0, "", v);
}
bool faulted() { return g_faulted; }

// ---- arena ------------------------------------------------------------------------------------
static char* const ARENA = (char*)0x600000000000ull; static const size_t ASZ = 256u << 20;
static unsigned char* g_map; static size_t g_ahigh;
static inline bool in_arena(const void* p) { return (size_t)((char*)p - ARENA) < ASZ; }
static void* a_alloc(size_t n, size_t al = 16) {
  size_t h = g_ahigh + 16; h = (h + al - 1) & ~(al - 1); size_t e = (h + n + 15) & ~(size_t)15;
  if (e + 16 > ASZ) { fault("arena_full"); return __libc_malloc(n); }
  *(size_t*)(ARENA + h - 16) = n; memset(g_map + (h >> 4), 1, (e - h) >> 4); if (e == h) g_map[h >> 4] = 1, e += 16;
  g_ahigh = e; return ARENA + h;
}
static void a_free(void* p) {
  size_t h = (char*)p - ARENA; if (g_map[h >> 4] != 1) { fault("double_free"); return; }
  size_t n = *(size_t*)(ARENA + h - 16); size_t e = (h + n + 15) & ~(size_t)15; if (e == h) e += 16;
  memset(g_map + (h >> 4), 2, (e - h) >> 4);
}
static void a_reset() { memset(g_map, 0, (g_ahigh >> 4) + 16); g_ahigh = 0; }
static int g_sig;   // so many calls of nanosleep are cut short by a signal
static int g_failnew, g_failcreate, g_failinit, g_creates; static void* g_failfib;   // faults strike only the fiber which armed them
static inline void chk(const void* p, const char* w) { if (in_arena(p) && g_map[((char*)p - ARENA) >> 4] != 1) fault(w); }

// ---- scheduler --------------------------------------------------------------------------------
static void switch_to(Fiber* n) {
  Fiber* o = cur; if (n == o) return;
  memcpy(o->eh, __cxxabiv1::__cxa_get_globals(), 16); o->err = errno;
  cur = n;
  memcpy((void*)__cxxabiv1::__cxa_get_globals(), n->eh, 16); errno = n->err;
  vs_switch(&o->sp, n->sp);
}
static void to_root() { Fiber* o = cur; g_active = false; memcpy(o->eh, __cxxabiv1::__cxa_get_globals(), 16); memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16); vs_switch(&o->sp, root_sp); }
void end_run() { to_root(); }

static bool fire(Fiber* f) {  // timer of f expired
  f->timed = false; f->timedout = true;
  f->st = READY; f->wk = W_NONE; return true;
}
static Fiber* next_timer() {
  Fiber* b = 0; int64_t bd = 0;
  for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].timed) {
    int64_t d = F[i].deadline - clk_ns(F[i].wclock);
    if (d > HORIZON) continue;
    if (!b || d < bd) { b = &F[i]; bd = d; }
  }
  return b;
}
static void fire_due() { for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].timed && F[i].deadline <= clk_ns(F[i].wclock)) fire(&F[i]); }
static bool time_step(int64_t limit, bool log = false) {     // advance to the next timer (within limit ns) and fire
  Fiber* f = next_timer(); if (!f) return false;
  int64_t d = f->deadline - clk_ns(f->wclock); if (d < 0) d = 0;
  if (d > limit) return false;
  if (log && d > 0) ev("idle", 0, "", 0, g_early, "", (int)std::min<int64_t>((g_now + d) / 1000, 2000000000));
  if (!log && d > 0) g_early = 1;
  g_now += d; fire_due(); return true;
}
static int runnable(Fiber** r) { int n = 0; for (int i = 0; i < nf; ++i) if (F[i].st == READY) r[n++] = &F[i]; return n; }

static void mem_gap() {
  if (g_mode == M_RANDOM) { g_countdown = g_pmem ? 1 + (int)g_rng.below(2 * g_pmem) : 0x3fffffff; }
  else if (g_mode == M_PCT) {
    long nx = g_chgi < g_nchg ? g_chg[g_chgi] - g_points : 0x3fffffff; if (nx < 1) nx = 1; g_countdown = (int)std::min(nx, 0x3fffffffl);
    g_points += g_countdown;   // consumed when it reaches 0
  } else g_countdown = 0x3fffffff;
}
static int choose(int n) {     // DFS choice
  if (n <= 1) return 0;
  if (g_dfspos < g_dfs->size()) { Choice& c = (*g_dfs)[g_dfspos++]; return c.k < n ? c.k : 0; }
  if (g_dfs->size() >= g_dfs->capacity()) return 0;      // never allocates: a run's memory is thrown away
  Choice c; c.n = (uint8_t)n; c.k = 0; g_dfs->push_back(c); g_dfspos++; return 0;
}
static Fiber* pick(bool can_continue) {
  for (;;) {
    Fiber* r[MAXF]; int n = runnable(r);
    if (n == 0) {
      // a thread that spins (with short sleeps) on a lock is not at rest
      bool spin = false; for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_SPIN) { if (F[i].deadline - MONO0 > g_now) g_now = F[i].deadline - MONO0; spin = true; }
      if (spin) { fire_due(); continue; }
      // threads that only yield: at rest once each has looked again, a few times, and found nothing to do
      if (g_rounds < 3) { int k = g_rounds; unspin(); g_rounds = k + 1; if (runnable(r)) continue; }
      Fiber* idle = 0; for (int i = 0; i < nf; ++i) if (F[i].st == IDLEWAIT) idle = &F[i];
      if (idle) { idle->st = READY; continue; }
      if (time_step(HORIZON, true)) continue;
      for (int i = 0; i < nf; ++i) if (F[i].st == DEADWAIT) idle = &F[i];
      if (idle) { idle->st = READY; continue; }
      to_root(); continue;
    }
    if (n == 1) return r[0];
    if (g_mode == M_RANDOM) {
      if (g_ptime && g_rng.below(1024) < g_ptime && time_step(HORIZON)) continue;
      return r[g_rng.below(n)];
    }
    if (g_mode == M_PCT) { Fiber* b = r[0]; for (int i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i]; return b; }
    if (g_mode == M_DFS) {
      // current first, then the others in round-robin order
      Fiber* o[MAXF]; int m = 0; int base = cur ? cur->id : 0;
      if (can_continue && cur->st == READY && !cur->yielded) o[m++] = cur;
      for (int k = 1; k <= nf; ++k) { Fiber* f = &F[(base + k) % nf]; if (f->st == READY && !(m && f == o[0])) o[m++] = f; }
      int k;
      if (can_continue && cur->st == READY && !cur->yielded) { if (g_dfsbudget <= 0) return cur; k = choose(m); if (k) --g_dfsbudget; }
      else k = choose(m);
      return o[k];
    }
    // script: round robin without preemption
    if (can_continue && cur->st == READY && !cur->yielded) return cur;
    int base = cur ? cur->id : 0;
    for (int k = 1; k <= nf; ++k) { Fiber* f = &F[(base + k) % nf]; if (f->st == READY) return f; }
  }
}
static void step_limit() {   // too long: only a fair schedule proves a livelock
  if (g_mode == M_RANDOM || g_mode == M_SCRIPT) fault("step_limit"); else sh->full = 1;
  to_root();
}
static void unspin() { g_rounds = 0; for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_YIELD) { F[i].st = READY; F[i].wk = W_NONE; F[i].ny = SPINS - 1; } }
static void resched(bool can_continue) {
  if (++g_steps > g_maxsteps) step_limit();
  Fiber* n = pick(can_continue); if (cur) cur->yielded = false;
  // whoever only yields is looking for a change that another thread makes
  if (n->ny < SPINS - 1) unspin();
  switch_to(n);
}
static void pct_change() {
  if (g_chgi < g_nchg) { ++g_chgi;
    if (g_ptime && g_rng.below(1024) < 300) { time_step(HORIZON); } else cur->prio = --g_lowprio; }
}
static void mem_preempt() {
  if (!g_active || g_nopreempt || !cur) { g_countdown = 1000; return; }
  if (g_mode == M_PCT) { pct_change(); mem_gap(); resched(true); return; }
  mem_gap(); if (g_mode == M_RANDOM) resched(true);
}
static void sync_point() {
  if (!g_active || g_nopreempt) return;
  if (g_mode == M_RANDOM) { if (g_rng.below(1024) < g_psync) resched(true); else if (++g_steps > g_maxsteps) step_limit(); }
  else if (g_mode == M_PCT) { if (--g_countdown <= 0) { pct_change(); mem_gap(); } resched(true); }
  else if (g_mode == M_DFS) resched(true);
  else if (++g_steps > g_maxsteps) step_limit();
}
void point() { sync_point(); }
static void block(Wk w, void* o, bool timed = false, int64_t dl = 0, int clk = CLOCK_MONOTONIC) {
  if (cur->ny < SPINS - 1) unspin();
  if (w != W_YIELD && w != W_MUTEX) cur->ny = 0;
  cur->st = BLOCKED; cur->wk = w; cur->obj = o; cur->timed = timed; cur->deadline = dl; cur->wclock = clk; cur->timedout = false; cur->signaled = false;
  static unsigned long ord; cur->order = ++ord;
  resched(false);
  cur->timed = false;
}
static void wake(Fiber* f) { f->st = READY; f->wk = W_NONE; f->timed = false; }

NoPreempt::NoPreempt() { ++g_nopreempt; }
NoPreempt::~NoPreempt() { --g_nopreempt; }

static char* g_stacks;
static void fiber_exit();
static void tramp() {
  Fiber* me = cur;
  { if (me->ffn) { std::function<void()>* f = me->ffn; (*f)(); } else me->retv = me->fn(me->arg); }
  // TLS destructors
  extern void run_key_dtors(Fiber*);
  run_key_dtors(me);
  fiber_exit();
}
static Fiber* new_fiber() {
  int id = -1;
  if (nf < MAXF) id = nf++;
  if (id < 0) { fault("too_many_threads"); to_root(); }
  Fiber* f = &F[id]; char* stk = f->stack; memset((void*)f, 0, sizeof *f); f->stack = stk ? stk : g_stacks + (size_t)id * (STACK + 4096) + 4096;
  f->id = id; f->st = READY; f->prio = 1000 + (int)g_rng.below(1000);
  void** s = (void**)(f->stack + STACK); *--s = 0; *--s = (void*)tramp; for (int i = 0; i < 6; ++i) *--s = 0;
  f->sp = s;
  if (cur) { cur->vc.c[cur->id]++; f->vc = cur->vc; f->tid = cur->tid; } f->vc.c[id] = 1;
  return f;
}
void spawn(std::function<void()> fn) {
  ++g_nopreempt; Fiber* f = new_fiber(); f->ffn = new std::function<void()>(fn); f->ext = true; f->detached = true; f->tid = 0; --g_nopreempt;
}
static void fiber_exit() {
  Fiber* me = cur; me->st = DONE; unspin(); me->vc.c[me->id]++;
  for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_JOIN && F[i].obj == me) wake(&F[i]);
  resched(false);
  abort();
}
int fiber_id() { return cur ? cur->id : 0; }
void set_tid(int t) { if (cur) cur->tid = t; }
int tid() { return cur ? cur->tid : 0; }
bool fiber_finished(int id) { return F[id].st == DONE; }
int live_fibers() { int n = 0; for (int i = 1; i < nf; ++i) if (F[i].st != DONE) ++n; return n; }
void wait_idle() { unspin(); cur->st = IDLEWAIT; resched(false); }
void wait_dead() { unspin(); cur->st = DEADWAIT; resched(false); }
bool advance_to_next_timer(int lim) { bool b = time_step((int64_t)lim * 1000, true); return b; }
void advance(int us) { int64_t end = g_now + (int64_t)us * 1000; while (time_step(end - g_now, true)) wait_idle(); if (end > g_now) ev("idle", 0, "", 0, g_early, "", (int)(end / 1000)); g_now = end; fire_due(); wait_idle(); }
static int g_gate[64];
void gate_wait(int t) { while (g_gate[t] == 0) block(W_GATE, &g_gate[t]); --g_gate[t]; }
void gate_open(int t, int n) { g_gate[t] += n; for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_GATE && F[i].obj == &g_gate[t]) wake(&F[i]); }
void signal_sleeps(int n) { g_sig = n; }
int fail_create_after(int n) { g_failfib = cur; int o = g_failcreate; g_failcreate = n; return o; }
int fail_new_after(int n) { g_failfib = cur; int o = g_failnew; g_failnew = n; return o; }
int fail_init_after(int n) { g_failfib = cur; int o = g_failinit; g_failinit = n; return o; }
int zombies() { int n = 0; for (int i = 0; i < nf; ++i) if (!F[i].ext && F[i].st == DONE && !F[i].detached && !F[i].joined) ++n; return n; }
int creates() { return g_creates; }

// ---- payload cells ------------------------------------------------------------------------------
struct Cell { VC r; int wf; uint32_t wc; };
static Cell cells[64];
void preset(int c) { memset(&cells[c], 0, sizeof(Cell)); cells[c].wf = -1; }
void pwrite(int c) {
  if (!cur) return; Cell& x = cells[c];
  if (x.wf >= 0 && x.wf != cur->id && cur->vc.c[x.wf] < x.wc) fault("race", c);
  for (int i = 0; i < nf; ++i) if (i != cur->id && x.r.c[i] > cur->vc.c[i]) fault("race", c);
  memset(&x.r, 0, sizeof x.r); x.wf = cur->id; x.wc = cur->vc.c[cur->id];
}
void pread(int c) {
  if (!cur) return; Cell& x = cells[c];
  if (x.wf >= 0 && x.wf != cur->id && cur->vc.c[x.wf] < x.wc) fault("race", c);
  x.r.c[cur->id] = cur->vc.c[cur->id];
}

// ---- sync object shadow -----------------------------------------------------------------------
// VC per object, keyed by address (cleared at init)
struct VMap { enum { N = 4096 }; void* k[N]; VC* v[N]; int used[N]; int nu;
  VC* get(void* p) { size_t h = ((size_t)p >> 3) * 0x9E3779B1u % N; for (;;) { if (k[h] == p) return v[h]; if (!k[h]) { if (nu > N - 100) { h = 0; k[h] = p; } else { k[h] = p; used[nu++] = (int)h; } if (!v[h]) v[h] = (VC*)__libc_malloc(sizeof(VC)); memset((void*)v[h], 0, sizeof(VC)); return v[h]; } h = (h + 1) % N; } }
  VC* find(void* p) { size_t h = ((size_t)p >> 3) * 0x9E3779B1u % N; for (;;) { if (k[h] == p) return v[h]; if (!k[h]) return 0; h = (h + 1) % N; } }
  void reset() { for (int i = 0; i < nu; ++i) k[used[i]] = 0; nu = 0; } };
static VMap g_vm;
static void acq(void* p) { if (cur) { VC* v = g_vm.find(p); if (v) vjoin(cur->vc, *v); } }
static void rel(void* p, bool merge) { if (cur) { VC* v = g_vm.get(p); if (merge) vjoin(*v, cur->vc); else *v = cur->vc; cur->vc.c[cur->id]++; } }

enum { MMAGIC = 0x4d555458, MDEAD = 0x4d44454c, CMAGIC = 0x434f4e44, CDEAD = 0x43444541 };
struct M { int magic; int type; Fiber* owner; int count; };        // overlays pthread_mutex_t
struct C { int magic; int clk; };                                   // overlays pthread_cond_t
static inline M* mm(pthread_mutex_t* m) { return (M*)m; }
static void m_check(M* m) {
  chk(m, "mutex_uaf");
  if (m->magic == MDEAD) fault("mutex_after_destroy");
  else if (m->magic != MMAGIC) { // static initializer
    pthread_mutex_t tmp; memcpy(&tmp, m, sizeof tmp); int kind = ((int*)&tmp)[4]; m->magic = MMAGIC; m->type = kind & 3; m->owner = 0; m->count = 0; }
}
static void c_check(C* c) { chk(c, "cond_uaf"); if (c->magic == CDEAD) fault("cond_after_destroy"); else if (c->magic != CMAGIC) { c->magic = CMAGIC; c->clk = CLOCK_REALTIME; } }

static int m_trylock(M* m) {
  if (m->owner == cur && m->count) { if (m->type == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; } return EBUSY; }
  if (m->count) return EBUSY;
  m->owner = cur; m->count = 1; acq(m); return 0;
}
static int m_lock(M* m, bool timed, int64_t dl, int clk) {
  if (m->count && m->owner == cur) {
    if (m->type == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; }
    if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (m->count) {
    if (!g_active) { fprintf(stderr, "vs: blocking outside a run\n"); _exit(9); }
    if (timed && dl <= clk_ns(clk)) return ETIMEDOUT;
    block(W_MUTEX, m, timed, dl, clk);
    if (timed && cur->timedout && m->count) return ETIMEDOUT;
  }
  m->owner = cur; m->count = 1; acq(m); return 0;
}
static int m_unlock(M* m) {
  if (!m->count) { fault("unlock_not_locked"); return EPERM; }
  if (m->owner != cur) { if (g_active) fault("unlock_not_owner"); if (m->type != PTHREAD_MUTEX_NORMAL) return EPERM; }
  if (--m->count == 0) { rel(m, false); m->owner = 0; for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_MUTEX && F[i].obj == m) { bool t = F[i].timed; (void)t; wake(&F[i]); } }
  return 0;
}
static int c_wait(C* c, M* m, bool timed, int64_t dl, int clk) {
  if (m->owner != cur || !m->count) fault("cond_wait_mutex_not_held");
  int cnt = m->count; if (cnt > 1) fault("cond_wait_recursive");
  m->count = 1; m_unlock(m);
  int rc = 0;
  if (timed && dl <= clk_ns(clk)) rc = ETIMEDOUT;
  else if (g_pspur && g_mode != M_SCRIPT && g_rng.below(1024) < g_pspur) { resched(true); }
  else { block(W_COND, c, timed, dl, clk); if (cur->timedout && !cur->signaled) rc = ETIMEDOUT; }
  m_lock(m, false, 0, 0); m->count = cnt;
  return rc;
}
static void c_signal(C* c, bool all) {
  Fiber* w[MAXF]; int n = 0;
  for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_COND && F[i].obj == c) w[n++] = &F[i];
  if (!n) return;
  if (all) { for (int i = 0; i < n; ++i) { w[i]->signaled = true; wake(w[i]); } return; }
  int k = 0;
  if (g_mode == M_DFS) { std::sort(w, w + n, [](Fiber* a, Fiber* b) { return a->order < b->order; }); k = choose(n); }
  else if (g_mode == M_SCRIPT) { for (int i = 1; i < n; ++i) if (w[i]->order < w[k]->order) k = i; }
  else k = g_rng.below(n);
  w[k]->signaled = true; wake(w[k]);
}
struct Key { bool used; void (*d)(void*); };
static Key keys[MAXKEY]; static void* main_tls[MAXKEY];
void run_key_dtors(Fiber* f) {
  for (int it = 0; it < 4; ++it) { bool any = false;
    for (int k = 0; k < MAXKEY; ++k) if (keys[k].used && keys[k].d && f->tls[k]) { void* v = f->tls[k]; f->tls[k] = 0; any = true; keys[k].d(v); }
    if (!any) break; }
}
static int64_t ts2ns(const struct timespec* t) {
  if (t->tv_sec > 4000000000ll) return INT64_MAX / 2;
  if (t->tv_sec < -4000000000ll) return -INT64_MAX / 2;
  return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
static bool bad_ts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000l; }
} // namespace vs

using namespace vs;

// ---- interposed C library -------------------------------------------------------------------------
extern "C" {
void* malloc(size_t n) { if (g_arena_on && g_active) return a_alloc(n); return __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) { if (g_map) a_free(p); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) { if (g_arena_on && g_active) { void* p = a_alloc(a * b); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (p && in_arena(p)) { size_t o = *(size_t*)((char*)p - 16); void* q = malloc(n); memcpy(q, p, o < n ? o : n); free(p); return q; }
  if (!p) return malloc(n); return __libc_realloc(p, n); }
int posix_memalign(void** r, size_t al, size_t n) { if (g_arena_on && g_active) { *r = a_alloc(n, al < 16 ? 16 : al); return 0; } *r = __libc_memalign(al, n); return *r ? 0 : ENOMEM; }
void* aligned_alloc(size_t al, size_t n) { void* r; return posix_memalign(&r, al, n) ? 0 : r; }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  if (g_active && g_failinit > 0 && cur == g_failfib && --g_failinit == 0) return EAGAIN;
  int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty);
  memset(m, 0, sizeof *m); mm(m)->magic = MMAGIC; mm(m)->type = ty; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* p) { M* m = mm(p); if (!g_active) return 0; sync_point(); m_check(m);
  if (m->count) { fault("mutex_destroy_locked"); return EBUSY; }
  for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_MUTEX && F[i].obj == m) fault("mutex_destroy_waited");
  m->magic = MDEAD; return 0; }
int pthread_mutex_lock(pthread_mutex_t* p) { sync_point(); M* m = mm(p); m_check(m); if (!g_active) { m->owner = cur; m->count++; return 0; } return m_lock(m, false, 0, 0); }
int pthread_mutex_trylock(pthread_mutex_t* p) { sync_point(); M* m = mm(p); m_check(m); return m_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* p) { sync_point(); M* m = mm(p); m_check(m); if (!g_active) { if (m->count) m->count--; return 0; } int r = m_unlock(m); sync_point(); return r; }
int pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec* t) { sync_point(); M* m = mm(p); m_check(m); if (m->count && bad_ts(t)) { fault("bad_timespec"); return EINVAL; } return m_lock(m, true, ts2ns(t), CLOCK_REALTIME); }
int pthread_mutex_clocklock(pthread_mutex_t* p, clockid_t c, const struct timespec* t) { sync_point(); M* m = mm(p); m_check(m); if (m->count && bad_ts(t)) { fault("bad_timespec"); return EINVAL; } return m_lock(m, true, ts2ns(t), c); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  if (g_active && g_failinit > 0 && cur == g_failfib && --g_failinit == 0) return EAGAIN;
  clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k);
  memset(c, 0, sizeof *c); ((C*)c)->magic = CMAGIC; ((C*)c)->clk = k; return 0; }
int pthread_cond_destroy(pthread_cond_t* p) { C* c = (C*)p; if (!g_active) return 0; sync_point(); c_check(c);
  for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wk == W_COND && F[i].obj == c) fault("cond_destroy_waited");
  c->magic = CDEAD; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { sync_point(); c_check((C*)c); m_check(mm(m)); return c_wait((C*)c, mm(m), false, 0, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { sync_point(); c_check((C*)c); m_check(mm(m)); if (bad_ts(t)) { fault("bad_timespec"); return EINVAL; } return c_wait((C*)c, mm(m), true, ts2ns(t), ((C*)c)->clk); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { sync_point(); c_check((C*)c); m_check(mm(m)); if (bad_ts(t)) { fault("bad_timespec"); return EINVAL; } return c_wait((C*)c, mm(m), true, ts2ns(t), k); }
int pthread_cond_signal(pthread_cond_t* c) { sync_point(); if (g_active) { c_check((C*)c); c_signal((C*)c, false); sync_point(); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { sync_point(); if (g_active) { c_check((C*)c); c_signal((C*)c, true); sync_point(); } return 0; }

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_active) return EAGAIN;
  sync_point();
  if (g_failcreate > 0 && cur == g_failfib && --g_failcreate == 0) return EAGAIN;
  ++g_creates;
  ++g_nopreempt; Fiber* f = new_fiber(); --g_nopreempt; f->fn = fn; f->arg = arg; f->ffn = 0;
  if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); f->detached = d == PTHREAD_CREATE_DETACHED; }
  *t = (pthread_t)(f->id + 1000); sync_point(); return 0; }
static Fiber* byid(pthread_t t) { long i = (long)t - 1000; return i >= 0 && i < nf ? &F[i] : 0; }
int pthread_join(pthread_t t, void** r) { sync_point(); Fiber* f = byid(t); if (!f) return ESRCH; if (f == cur) return EDEADLK;
  if (f->detached || f->joined) { fault("join_invalid"); return EINVAL; } 
  if (f->joiner) { fault("join_twice"); return EINVAL; } f->joiner = true;
  while (f->st != DONE) block(W_JOIN, f);
  f->joined = true; vjoin(cur->vc, f->vc); if (r) *r = f->retv; return 0; }
int pthread_detach(pthread_t t) { sync_point(); Fiber* f = byid(t); if (!f) return ESRCH; if (f->detached || f->joined || f->joiner) { fault("detach_invalid"); return EINVAL; } f->detached = true; return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t)(cur->id + 1000) : (pthread_t)999; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_once(pthread_once_t* o, void (*f)(void)) { if (*(int*)o == 2) return 0; ++g_nopreempt; *(int*)o = 2; f(); --g_nopreempt; return 0; }
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { for (int i = 1; i < MAXKEY; ++i) if (!keys[i].used) { keys[i].used = true; keys[i].d = d; for (int j = 0; j < nf; ++j) F[j].tls[i] = 0; main_tls[i] = 0; *k = i; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) { keys[k].used = false; return 0; }
void* pthread_getspecific(pthread_key_t k) { return cur ? cur->tls[k] : main_tls[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { (cur ? cur->tls[k] : main_tls[k]) = (void*)v; return 0; }
static void do_yield() { if (!g_active || g_nopreempt) return; if (++cur->ny >= SPINS) { block(W_YIELD, 0); return; } cur->yielded = true; if (g_mode == M_PCT) cur->prio = --g_lowprio; resched(true); }
int sched_yield(void) { do_yield(); return 0; }

int clock_gettime(clockid_t c, struct timespec* t) { if (!g_active) return (int)syscall(SYS_clock_gettime, c, t);
  int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? real_ns() : c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME ? mono_ns() : g_now;
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int gettimeofday(struct timeval* t, void*) { if (!g_active) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  int64_t n = real_ns(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
time_t time(time_t* o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
static int do_sleep(int64_t abs, int clk) { sync_point(); while (clk_ns(clk) < abs) { block(W_SLEEP, 0, true, abs, clk); } return 0; }
int nanosleep(const struct timespec* t, struct timespec* rem) { if (!g_active) return (int)syscall(SYS_nanosleep, t, rem); if (bad_ts(t) || t->tv_sec < 0) { errno = EINVAL; fault("bad_timespec"); return -1; } int64_t d = ts2ns(t); if (d == 1000) { sync_point(); int64_t e = mono_ns() + d; while (mono_ns() < e) block(W_SPIN, 0, true, e, CLOCK_MONOTONIC); return 0; } if (g_sig > 0) { --g_sig; do_sleep(mono_ns() + d / 2, CLOCK_MONOTONIC); if (rem) { rem->tv_sec = (d - d / 2) / 1000000000; rem->tv_nsec = (d - d / 2) % 1000000000; } errno = EINTR; return -1; }   // a signal handler ran
  return do_sleep(d > INT64_MAX / 4 ? d : mono_ns() + d, CLOCK_MONOTONIC); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec*) { if (bad_ts(t)) { fault("bad_timespec"); return EINVAL; } int64_t d = ts2ns(t); return do_sleep(fl & TIMER_ABSTIME ? d : clk_ns(c) + d, c); }
int usleep(useconds_t u) { return do_sleep(mono_ns() + (int64_t)u * 1000, CLOCK_MONOTONIC); }
unsigned sleep(unsigned s) { do_sleep(mono_ns() + (int64_t)s * 1000000000, CLOCK_MONOTONIC); return 0; }

// static local initialisation: no preemption inside
int __cxa_guard_acquire(uint64_t* g) { if (*(unsigned char*)g) return 0; ++g_nopreempt; return 1; }
void __cxa_guard_release(uint64_t* g) { *(unsigned char*)g = 1; --g_nopreempt; }
void __cxa_guard_abort(uint64_t*) { --g_nopreempt; }
} // extern "C"

void* operator new(size_t n) { if (g_active && g_arena_on) { if (g_failnew > 0 && cur == g_failfib && !g_nopreempt && --g_failnew == 0) throw std::bad_alloc(); return a_alloc(n); } void* p = __libc_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (g_active && g_arena_on) { if (g_failnew > 0 && cur == g_failfib && !g_nopreempt && --g_failnew == 0) return 0; return a_alloc(n); } return __libc_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t& x) noexcept { return operator new(n, x); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

// ---- compiler instrumentation ---------------------------------------------------------------------
extern "C" {
static inline void macc(const void* p) { if (in_arena(p) && g_active && g_map[((char*)p - ARENA) >> 4] != 1) fault("use_after_free"); if (__builtin_expect(--g_countdown <= 0, 0)) mem_preempt(); }
void __tsan_init() {}
void __tsan_func_entry(void*) {} 
void __tsan_func_exit(void*) {}
#define RW(n) void __tsan_read##n(void* p) { macc(p); } void __tsan_write##n(void* p) { macc(p); } \
  void __tsan_unaligned_read##n(void* p) { macc(p); } void __tsan_unaligned_write##n(void* p) { macc(p); } \
  void __tsan_volatile_read##n(void* p) { macc(p); } void __tsan_volatile_write##n(void* p) { macc(p); } \
  void __tsan_unaligned_volatile_read##n(void* p) { macc(p); } void __tsan_unaligned_volatile_write##n(void* p) { macc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { macc(p); }
void __tsan_write_range(void* p, unsigned long) { macc(p); }
void __tsan_vptr_update(void** p, void*) { macc(p); }
void __tsan_vptr_read(void** p) { macc(p); }
static bool isacq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST || m == __ATOMIC_CONSUME; }
static bool isrel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* p) { macc((const void*)p); sync_point(); }
static void at_load(const volatile void* p, int mo) { if (g_active && isacq(mo)) acq((void*)p); }
static void at_store(volatile void* p, int mo) { if (!g_active) return; if (isrel(mo)) rel((void*)p, false); else { VC* v = g_vm.find((void*)p); if (v) memset((void*)v, 0, sizeof(VC)); } }
static void at_rmw(volatile void* p, int mo) { if (!g_active) return; if (isacq(mo)) acq((void*)p); if (isrel(mo)) rel((void*)p, true); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { at_pre(p); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_load(p, mo); return v; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_pre(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); at_store(p, mo); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { at_pre(p); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); at_rmw(p, mo); return r; } \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { at_pre(p); bool b = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (b) at_rmw(p, mo); else at_load(p, fmo); return b; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char g_fencevar;
void __tsan_atomic_thread_fence(int) { if (g_active) { acq(&g_fencevar); rel(&g_fencevar, true); sync_point(); } }
void __tsan_atomic_signal_fence(int) {}
}

// ---- running ---------------------------------------------------------------------------------------
namespace vs {
static const Program* g_prog;
static void emit_line();
static void on_sig(int s) {
  static volatile int once; if (once++) _exit(5);
  const char* n = s == SIGABRT ? "abort" : s == SIGSEGV || s == SIGBUS ? "segv" : s == SIGPROF ? "hang" : s == SIGFPE ? "fpe" : "ill";
  sh->full = 0; ev("fault", cur ? cur->tid : 0, n, 0, 0, "", 0); sh->unclean = 1; emit_line(); _exit(s == SIGPROF ? 4 : 3);
}
static void on_term() {
  ev("fault", cur ? cur->tid : 0, "terminate", 0, 0, "", 0); sh->unclean = 1; emit_line(); _exit(3);
}
static void do_run(const Program& p, uint64_t seed, Mode mode, bool warm) {
  g_rng.s = seed * 7919 + 17; g_rng2.s = seed * 104729 + 3;
  g_mode = mode; g_points = g_steps = 0; g_chgi = g_nchg = 0; g_lowprio = 900;
  g_psync = 0; g_pmem = 0; g_ptime = 0; g_pspur = 0;
  bool timed = !p.get("notime"), spur = p.get("spur");
  if (mode == M_RANDOM) {
    static const uint32_t ps[] = { 64, 200, 400, 700, 1024 }; static const uint32_t pm[] = { 0, 0, 200, 40, 8 };
    g_psync = ps[g_rng.below(5)]; g_pmem = pm[g_rng.below(5)];
    if (p.get("sync")) g_pmem = 0;      // preemption at synchronisation operations only
    if (timed && g_rng.below(3) == 0) g_ptime = g_rng.below(2) ? 20 : 100;
    if (spur && g_rng.below(4) == 0) g_pspur = 150;
  } else if (mode == M_PCT) {
    g_nchg = 1 + g_rng.below(4); static const long sp[] = { 40, 120, 400, 1200, 5000 }; long span = sp[g_rng.below(5)]; for (int i = 0; i < g_nchg; ++i) g_chg[i] = g_rng.below((uint32_t)span) + 1; std::sort(g_chg, g_chg + g_nchg);
    if (timed && g_rng.below(3) == 0) g_ptime = 1;
  }
  nf = 0; g_now = 0; g_realoff = 0; g_early = 0; g_nev = 0; g_faultset[0] = 0; g_faulted = false; g_vm.reset(); memset(g_gate, 0, sizeof g_gate);
  for (int i = 0; i < 64; ++i) preset(i);
  g_sig = 0; g_failcreate = g_failnew = g_failinit = 0; g_creates = 0; g_nopreempt = 0;
  g_arena_on = !warm;
  cur = 0; mem_gap();
  std::function<void()> body = [&p]() { driver_run(p); };
  Fiber* f = new_fiber(); f->ffn = &body; f->tid = 0; f->ext = true; f->detached = true;
  cur = f; memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
  g_active = true;
  vs_switch(&root_sp, f->sp);
  g_active = false;
  int live = 0; for (int i = 0; i < nf; ++i) if (F[i].st != DONE) ++live;
  if (live) sh->unclean = 1;
  cur = 0;
  memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
  g_arena_on = false;
}

void run_standard(const Program& p, std::function<void(int, const Op&)> op, std::function<void(int, std::function<void()>)> launch) {
  bool script = !p.order.empty();
  {
    NoPreempt np;
    for (size_t i = 0; i < p.th.size(); ++i) {
      int t = (int)i + 1; const std::vector<Op>* ops = &p.th[i];
      std::function<void()> body = [t, ops, op, script]() { set_tid(t); for (size_t k = 0; k < ops->size(); ++k) { if (script) gate_wait(t); else point(); if ((*ops)[k].name == "idle") { wait_idle(); ev("quiet", 0, "step", 0, g_early, "", 0); } else op(t, (*ops)[k]); } };
      if (launch) { --g_nopreempt; launch(t, body); ++g_nopreempt; } else spawn(body);
    }
  }
  if (script) {
    wait_idle();
    for (size_t i = 0; i < p.order.size(); ++i) {
      int t = p.order[i];
      if (t < 0) { gate_open(-t, 1); continue; }      // the next step races with this one
      if (t > 0) gate_open(t, 1); else if (!advance_to_next_timer(1000000000)) continue;
      wait_idle(); ev("quiet", 0, "step", 0, g_early, "", 0);
    }
    for (size_t i = 0; i < p.th.size(); ++i) gate_open((int)i + 1, 1000);
  }
  wait_dead();
  ev("quiet", 0, "end", 0, g_early, "", 0);
}

static bool parse(const std::string& line, Program& p) {
  // id|k=v,k=v|op a b c,op a b c;op ...|order
  std::vector<std::string> f; std::string s; std::stringstream ss(line); while (std::getline(ss, s, '|')) f.push_back(s);
  if (f.size() < 3) return false;
  p.id = atoi(f[0].c_str()); p.cfg.clear(); p.th.clear(); p.order.clear();
  { std::stringstream c(f[1]); while (std::getline(c, s, ',')) { size_t e = s.find('='); if (e != std::string::npos) p.cfg[s.substr(0, e)] = atoi(s.c_str() + e + 1); } }
  { std::stringstream c(f[2]); while (std::getline(c, s, ';')) { std::vector<Op> v; std::stringstream d(s); std::string o;
      while (std::getline(d, o, ',')) { std::stringstream w(o); Op x; x.a = x.b = x.c = 0; if (w >> x.name) { w >> x.a; w >> x.b; w >> x.c; v.push_back(x); } } p.th.push_back(v); } }
  if (f.size() > 3) { std::stringstream c(f[3]); int x; while (c >> x) p.order.push_back(x); }
  return true;
}
} // namespace vs


static uint64_t hashs(const char* s, int n) { uint64_t h = 1469598103934665603ull; int i = 0; for (; i + 8 <= n; i += 8) { uint64_t x; memcpy(&x, s + i, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } for (; i < n; ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; } return h ? h : 1; }
static bool is_new(uint64_t h) {
  if (sh->nseen > SEEN / 2) return false;
  size_t i = h & (SEEN - 1); while (sh->seen[i]) { if (sh->seen[i] == h) return false; i = (i + 1) & (SEEN - 1); }
  sh->seen[i] = h; sh->idx[sh->nseen++] = (int)i; return true;
}
static void seen_reset() { for (int i = 0; i < sh->nseen; ++i) sh->seen[sh->idx[i]] = 0; sh->nseen = 0; }
static void cpu_alarm(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, 0); }
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int outfd = -1;
namespace vs {
static char hdr[8192 * 4 + 4096];
static void wr(const char* p, size_t n) { while (n) { ssize_t k = write(outfd, p, n); if (k <= 0) _exit(8); p += k; n -= k; } }
// end of a run: write its trace unless it was seen before (also called from the crash handlers)
static void emit_line() {
  sh->runs = sh->runs + 1; sh->it = sh->it + 1;
  if (sh->full) { sh->overlong = sh->overlong + 1; return; }
  if (!sh->len || !is_new(hashs(sh->buf, sh->len))) return;
  sh->traces = sh->traces + 1;
  int k = snprintf(hdr, sizeof hdr, "{\"p\":%d,\"m\":%d,\"s\":\"", g_prog->id, sh->mode);
  if (sh->mode == M_DFS) { for (size_t i = 0; i < g_dfs->size() && i < 8192; ++i) k += snprintf(hdr + k, sizeof hdr - k, "%d,", (*g_dfs)[i].k); }
  else k += snprintf(hdr + k, sizeof hdr - k, "%llu", (unsigned long long)sh->sd);
  k += snprintf(hdr + k, sizeof hdr - k, "\",\"c\":{\"n\":%d", (int)g_prog->th.size());
  for (std::map<std::string, int>::const_iterator i = g_prog->cfg.begin(); i != g_prog->cfg.end(); ++i) k += snprintf(hdr + k, sizeof hdr - k, ",\"%s\":%d", i->first.c_str(), i->second);
  k += snprintf(hdr + k, sizeof hdr - k, "},\"ev\":[");
  wr(hdr, k); wr(sh->buf, sh->len); wr("]}\n", 3);
}
}

// usage: prog PROGS OUT SEED ITERS DFS_CAP DFS_BOUND TIME_S [WORKER NWORKERS] [-only PID MODE SEED]
int main(int argc, char** argv) {
  if (argc < 8) { fprintf(stderr, "usage\n"); return 2; }
  std::vector<Program> progs; { std::ifstream in(argv[1]); std::string l; while (std::getline(in, l)) { Program p; if (!l.empty() && l[0] != '#' && parse(l, p)) progs.push_back(p); } }
  uint64_t seed = strtoull(argv[3], 0, 10); int iters = atoi(argv[4]), dcap = atoi(argv[5]), dbound = atoi(argv[6]); double tmax = atof(argv[7]);
  int w = 0, nw = 1; int argi = 8; if (argc > 9 && argv[8][0] != '-') { w = atoi(argv[8]); nw = atoi(argv[9]); argi = 10; }
  int only = -1, omode = 0; uint64_t oseed = 0; std::string odfs;
  if (argc > argi + 3 && !strcmp(argv[argi], "-only")) { only = atoi(argv[argi + 1]); omode = atoi(argv[argi + 2]); std::string sd = argv[argi + 3]; if (omode == M_DFS) odfs = sd; else oseed = strtoull(sd.c_str(), 0, 10); }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mmap(ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); return 2; }
  g_map = (unsigned char*)mmap(0, ASZ >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_stacks = (char*)mmap(0, (size_t)MAXF * (STACK + 4096), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXF; ++i) mprotect(g_stacks + (size_t)i * (STACK + 4096), 4096, PROT_NONE);
  outfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outfd < 0) { perror("out"); return 2; }
  double t0 = wall(); long skipped = 0, dfsprogs = 0, nprogs = 0;
  long mine = 0, k = 0; for (size_t i = 0; i < progs.size(); ++i) if ((int)(i % nw) == w && (only < 0 || progs[i].id == only)) ++mine;
  for (size_t pi = 0; pi < progs.size(); ++pi) {
    if ((int)(pi % nw) != w) continue;
    const Program& p = progs[pi]; if (only >= 0 && p.id != only) continue;
    double left = t0 + tmax - wall(), share = left / (mine - k); ++k;      // what is left of the time is split evenly
    if (left <= 0) { ++skipped; continue; }
    ++nprogs; double tend = wall() + share;
    uint64_t pseed = seed * 1000003ull + (uint64_t)p.id * 7717ull;
    bool script = !p.order.empty(); for (size_t q = 0; q < p.order.size(); ++q) if (p.order[q] < 0) script = false; int niter = script ? 1 : iters; bool dfs = !script && dcap > 0 && only < 0; if (only >= 0) niter = 16;   // first as it is, then after some other clean run in the same process
    int total = niter + (dfs ? dcap : 0); if (dfs) ++dfsprogs;
    seen_reset(); sh->it = 0; sh->stop = 0; sh->dn = 0; sh->warm = 1; g_prog = &p;
    while (sh->it < total && !sh->stop) {
      int it0 = sh->it; sh->unclean = 0;
      pid_t pid = fork(); if (pid < 0) { perror("fork"); return 2; }
      if (pid == 0) {
        static char altstk[65536]; stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF }; for (int s : sg) sigaction(s, &sa, 0);
        std::set_terminate(on_term); struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        int fd = open("/dev/null", 1); if (fd >= 0 && !getenv("VS_STDERR")) dup2(fd, 2);
        std::vector<Choice> st; st.reserve(65536); g_dfs = &st;
        if (sh->warm && !script) {   // one throw-away run, so that function-local statics exist before the arena is used
          sh->warm = 2; sh->len = sh->full = 0; cpu_alarm(4); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGPROF, SIG_DFL); std::set_terminate(0);
          do_run(p, 1, M_RANDOM, true);
          if (sh->unclean) _exit(0);      // threads were left behind: continue without warm-up
          for (int s : sg) sigaction(s, &sa, 0);
          std::set_terminate(on_term); sh->warm = 1;
        }
        if (only >= 0 && sh->it > 0) { sh->len = sh->full = 0; cpu_alarm(4); do_run(p, sh->it, M_RANDOM, true); if (sh->unclean) _exit(0); }
        while (sh->it < total && !sh->stop) {
          if (only >= 0 && sh->it > 0) sh->stop = 1;
          sh->len = 0; sh->full = 0; sh->unclean = 0; a_reset(); cpu_alarm(4);
          int it = sh->it; Mode m; uint64_t sd = 0;
          g_dfspos = 0; g_dfsbudget = dbound; st.clear();
          if (only >= 0) { m = (Mode)omode; sd = oseed; if (m == M_DFS) { std::stringstream q(odfs); int x; char c; while (q >> x) { Choice ch; ch.n = 255; ch.k = (uint8_t)x; st.push_back(ch); q >> c; } sd = 1; } }
          else if (script) { m = M_SCRIPT; sd = pseed; }
          else if (it < niter) { m = it % 3 == 2 && !p.get("sync") ? M_PCT : M_RANDOM; sd = pseed + it; }
          else { m = M_DFS; sd = 1; st.assign(sh->dc, sh->dc + sh->dn); }
          sh->mode = m; sh->sd = sd;
          if (m == M_DFS && only < 0) { // pre-store the next branch in case this run kills the process: the prefix is retried past
          }
          do_run(p, sd, m, false);
          emit_line();
          if (m == M_DFS && only < 0) {
            int n = (int)std::min<size_t>(st.size(), 8192); while (n && st[n - 1].k + 1 >= st[n - 1].n) --n;
            if (!n) { sh->stop = 1; sh->dfsdone = sh->dfsdone + 1; } else { st[n - 1].k++; memcpy(sh->dc, st.data(), n * sizeof(Choice)); sh->dn = n; } }
          if (it > 3 && wall() > tend) sh->stop = 1;
          if (sh->unclean) break;
        }
        _exit(0);
      }
      int stt; waitpid(pid, &stt, 0);
      if (sh->warm == 2) { sh->warm = 0; continue; }
      if (sh->it == it0) { sh->it = it0 + 1; }
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 3 && sh->mode == M_DFS) sh->stop = 1;   // a crash ends the systematic search of this program
      if (wall() > tend && sh->it > 3) sh->stop = 1;
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 4) sh->stop = 1;   // hang
    }
  }
  printf("{\"programs\":%ld,\"runs\":%ld,\"traces\":%ld,\"dfs_complete\":%ld,\"dfs_programs\":%ld,\"skipped_programs\":%ld,\"overlong\":%ld,\"wall\":%.2f}\n", nprogs, (long)sh->runs, (long)sh->traces, (long)sh->dfsdone, dfsprogs, skipped, (long)sh->overlong, wall() - t0);
  return 0;
}
