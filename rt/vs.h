// vsched: a deterministic scheduler for the real Boost.Thread sources.
//
// Every thread of the program under test is a fiber of one OS thread; the pthread, clock and
// allocation entry points are interposed (vs.cpp), time is virtual, and code compiled with
// -fsanitize=thread calls back into vs.cpp at each memory access, so that any memory access or
// synchronisation call is a possible preemption point.  The harness emits API-level events; the
// event sequence of a run is one trace, later checked against a TLA+ specification.
#ifndef VS_H
#define VS_H
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace vs {

struct Op { std::string name; int a, b, c; };

struct Program {
  int id;
  std::map<std::string, int> cfg;
  std::vector<std::vector<Op> > th;   // th[0] is thread 1
  std::vector<int> order;             // scripted: thread numbers, 0 = advance time
  int get(const char* k, int d = 0) const {
    std::map<std::string, int>::const_iterator i = cfg.find(k);
    return i == cfg.end() ? d : i->second;
  }
};

// ---- events -------------------------------------------------------------------------------
// e: event kind, t: driver thread, o: operation, a/b: arguments, r: result tag, v: result value
void ev(const char* e, int t, const char* o, int a, int b, const char* r, int v);
inline void call(int t, const char* o, int a = 0, int b = 0, int v = 0) { ev("call", t, o, a, b, "", v); }
inline void ret(int t, const char* o, const char* r, int v = 0, int a = 0, int b = 0) { ev("ret", t, o, a, b, r, v); }
void fault(const char* what, int v = 0);     // fault event (at most one per kind and run)
bool faulted();

// ---- time (micro seconds since the start of the run, monotonic) ---------------------------
int now_us();
int64_t real_us();        // virtual CLOCK_REALTIME in micro seconds
void jump_realtime(int64_t delta_us);

// ---- happens-before checked payload cells ---------------------------------------------------
void pwrite(int cell);    // "race" fault unless ordered after all previous accesses
void pread(int cell);     // "race" fault unless ordered after the last write
void preset(int cell);    // forget the cell's history

// ---- fibers ---------------------------------------------------------------------------------
void spawn(std::function<void()> f);    // a thread the library did not create
int  fiber_id();
void set_tid(int t);                    // driver thread number of the current fiber
int  tid();
void wait_idle();                       // until no other fiber can run (time does not pass)
void wait_dead();                       // until no other fiber can run and no timer is pending
bool advance_to_next_timer(int limit_us); // fires the next timer if it is within limit
void advance(int us);                   // let virtual time pass; timers fire on the way
void gate_wait(int t);                  // scripted mode: wait for permission to run the next op
void gate_open(int t, int n);
void point();                           // explicit preemption point
int  live_fibers();                     // not finished, excluding the controller
bool fiber_finished(int fid);
uint32_t rnd();                         // schedule-independent choice (seeded)
void end_run();                         // abandon this run now

struct NoPreempt { NoPreempt(); ~NoPreempt(); };

void signal_sleeps(int n);              // the next n calls of nanosleep are interrupted by a signal
int fail_create_after(int n);           // n-th pthread_create from now fails (0: never)
int fail_new_after(int n);              // n-th operator new by a fiber from now throws
int fail_init_after(int n);             // n-th mutex/cond init fails
int zombies();                           // threads that have ended but were neither joined nor detached
int creates();                          // number of threads created so far in this run

// ---- supplied by the driver -----------------------------------------------------------------
// body of one run.  Called on the controller fiber.
void driver_run(const Program& p);

// standard body: one fiber per program thread; op() executes one operation
void run_standard(const Program& p, std::function<void(int, const Op&)> op,
                  std::function<void(int, std::function<void()>)> launch =
                      std::function<void(int, std::function<void()>)>());
} // namespace vs
#endif
