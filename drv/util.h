#ifndef DRV_UTIL_H
#define DRV_UTIL_H
#include <string.h>
#include <boost/chrono.hpp>
#include <boost/thread/thread_time.hpp>
#include "vs.h"
inline boost::chrono::microseconds usec(long n) { return boost::chrono::microseconds(n); }
inline boost::posix_time::microseconds pusec(long n) { return boost::posix_time::microseconds(n); }

// a user-defined clock: virtual steady time with another epoch
struct UserClock {
  typedef boost::chrono::microseconds duration;
  typedef duration::rep rep; typedef duration::period period;
  typedef boost::chrono::time_point<UserClock, duration> time_point;
  static const bool is_steady = true;
  static time_point now() { return time_point(duration(vs::now_us() + 77000000ll)); }
};
inline int cap2g(long long v) { return v < 0 ? 0 : v > 2000000000ll ? 2000000000 : (int)v; }

// Ways to express a timeout.  style: name of the way, us: distance from now (may be negative).
// with_until(style, us, F): calls f(time_point) for one of the chrono clocks, without preemption
// between reading the clock and building the time point; returns the deadline in run time.
struct Timeout {
  int dl; bool rel;
  boost::chrono::steady_clock::time_point st; boost::chrono::system_clock::time_point sy; UserClock::time_point us; boost::system_time pt;
  int d;
  Timeout(int us_) : rel(false), d(us_) {
    vs::NoPreempt np;
    dl = cap2g((long long)vs::now_us() + (us_ > 0 ? us_ : 0));
    st = boost::chrono::steady_clock::now() + usec(us_);
    sy = boost::chrono::system_clock::now() + usec(us_);
    us = UserClock::now() + usec(us_);
    pt = boost::get_system_time() + pusec(us_);
  }
};
#endif
