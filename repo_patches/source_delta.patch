From 7eace6ca2b3b056875521447319fc4872450e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 01/35] fix: shared_mutex: timed conversions from shared
 ownership

try_unlock_shared_and_lock_until could take exclusive ownership while another
thread was already moving from upgrade to exclusive ownership, which then never
returned; it and try_unlock_upgrade_and_lock_until were not woken when the last
other shared owner left, and try_unlock_shared_and_lock_upgrade_until waited on
a condition that is not notified when the upgrade ownership is released.
---
 include/boost/thread/pthread/shared_mutex.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..fbca024 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,13 @@ namespace boost
                 return shared_count==1;
             }
 
+            bool can_lock_from_shared () const
+            {
+                // the only owner left is the caller itself, and nobody is
+                // moving from upgrade to exclusive ownership
+                return shared_count==1 && !upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -261,6 +268,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // the last owner may be waiting to convert to exclusive ownership
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
@@ -569,7 +581,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_from_shared, &state)))
           {
               return false;
           }
@@ -623,7 +635,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 322267af9754ea9bd91b9f6ee36188b6bd82447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 02/35] fix: v2 shared/upgrade mutex: state after a timed out
 exclusive request

A timed exclusive request that times out did not wake up the threads it had been
holding back, and a timed conversion that times out restored a stale reader count.
---
 include/boost/thread/v2/shared_mutex.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..57577e2 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those held back by this request may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +330,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those held back by this request may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +689,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those held back by this request may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +712,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those held back by this request may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -908,9 +916,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // some of the other readers may have left in the meantime
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1019,9 +1029,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // some of the other readers may have left in the meantime
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From 122207055473055ba6dfb1dd48071f4ec3a6e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 03/35] fix: timed_lock with a negative infinite duration
 reported success without locking

---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From 793dda7205b149ed432e8dcd2b00b51525d41d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 04/35] fix: thread exit notifications waited for the last
 thread handle to go away

---
 src/pthread/thread.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..2e34292 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -46,21 +46,35 @@ namespace boost
 {
     namespace detail
     {
-        thread_data_base::~thread_data_base()
+        namespace
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
-                    i != e; ++i)
+            // Performs the actions requested for thread exit. Called once the thread specific data of the
+            // thread has been destroyed, and without waiting for the last thread handle to go away.
+            void notify_thread_exit(thread_data_base& data)
             {
-                i->second->unlock();
-                i->first->notify_all();
-            }
+                thread_data_base::notify_list_t notify;
+                notify.swap(data.notify);
+                for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
+                        i != e; ++i)
+                {
+                    i->second->unlock();
+                    i->first->notify_all();
+                }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
-                    i != e; ++i)
-            {
-                (*i)->notify_deferred();
-            }
+                thread_data_base::async_states_t async_states;
+                async_states.swap(data.async_states_);
+                for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
+                        i != e; ++i)
+                {
+                    (*i)->notify_deferred();
+                }
 //#endif
+            }
+        }
+
+        thread_data_base::~thread_data_base()
+        {
+            notify_thread_exit(*this);
         }
 
         struct thread_exit_callback_node
@@ -194,6 +208,7 @@ namespace boost
 #endif
                 detail::tls_destructor(thread_info.get());
                 detail::set_current_thread_data(0);
+                detail::notify_thread_exit(*thread_info);
                 boost::lock_guard<boost::mutex> lock(thread_info->data_mutex);
                 thread_info->done=true;
                 thread_info->done_condition.notify_all();
-- 
2.43.0


From 3dc39e4a6cd23d2dfc76c5c9b0a568810d557aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 05/35] fix: thread specific data was not accessible in exit
 functions of threads not created by Boost.Thread

---
 src/pthread/thread.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 2e34292..1f703fb 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -96,7 +96,12 @@ namespace boost
             boost::once_flag current_thread_tls_init_flag=BOOST_ONCE_INIT;
 #endif
             pthread_key_t current_thread_tls_key;
+        }
+
+        void set_current_thread_data(detail::thread_data_base* new_data);
 
+        namespace
+        {
             extern "C"
             {
                 static void tls_destructor(void* data)
@@ -106,6 +111,9 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // pthread has already cleared the key when it calls this for a thread that was not
+                        // created by Boost.Thread; the functions called below need the data of this thread.
+                        set_current_thread_data(thread_info.get());
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
                         {
 
@@ -131,6 +139,7 @@ namespace boost
                                 thread_info->tss_data.erase(current);
                             }
                         }
+                        set_current_thread_data(0);
                         thread_info->self.reset();
                     }
                 }
-- 
2.43.0


From 18491ffd6108b4cf6f2049aef9038676cd7881e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 06/35] fix: thread exit notifications were lost on threads not
 created by Boost.Thread

---
 src/pthread/thread.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 1f703fb..d7669f0 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -140,6 +140,7 @@ namespace boost
                             }
                         }
                         set_current_thread_data(0);
+                        notify_thread_exit(*thread_info);
                         thread_info->self.reset();
                     }
                 }
@@ -216,8 +217,6 @@ namespace boost
                 BOOST_CATCH_END
 #endif
                 detail::tls_destructor(thread_info.get());
-                detail::set_current_thread_data(0);
-                detail::notify_thread_exit(*thread_info);
                 boost::lock_guard<boost::mutex> lock(thread_info->data_mutex);
                 thread_info->done=true;
                 thread_info->done_condition.notify_all();
@@ -248,8 +247,6 @@ namespace boost
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -813,7 +810,7 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
@@ -825,7 +822,7 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
         if(current_thread_data)
         {
             current_thread_data->make_ready_at_thread_exit(as);
-- 
2.43.0


From 267fc739283e5b7f66482be2fad908a86665ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 07/35] fix: threads joining each other deadlocked on their
 data mutexes

---
 include/boost/thread/pthread/thread_data.hpp |  4 ++++
 src/pthread/thread.cpp                       | 12 ++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/pthread/thread_data.hpp b/include/boost/thread/pthread/thread_data.hpp
index c43b276..dc71ea8 100644
--- a/include/boost/thread/pthread/thread_data.hpp
+++ b/include/boost/thread/pthread/thread_data.hpp
@@ -115,6 +115,10 @@ namespace boost
             thread_data_ptr self;
             pthread_t thread_handle;
             boost::mutex data_mutex;
+            // Protects done, join_started and joined. A joiner waits with it, and while waiting it locks the
+            // data_mutex of its own thread: using data_mutex here too would make threads which join each
+            // other lock their data_mutexes in opposite order.
+            boost::mutex done_mutex;
             boost::condition_variable done_condition;
             bool done;
             bool join_started;
diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index d7669f0..1c3face 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -217,7 +217,7 @@ namespace boost
                 BOOST_CATCH_END
 #endif
                 detail::tls_destructor(thread_info.get());
-                boost::lock_guard<boost::mutex> lock(thread_info->data_mutex);
+                boost::lock_guard<boost::mutex> lock(thread_info->done_mutex);
                 thread_info->done=true;
                 thread_info->done_condition.notify_all();
 
@@ -341,7 +341,7 @@ namespace boost
             bool do_join=false;
 
             {
-                unique_lock<mutex> lock(local_thread_info->data_mutex);
+                unique_lock<mutex> lock(local_thread_info->done_mutex);
                 while(!local_thread_info->done)
                 {
                     local_thread_info->done_condition.wait(lock);
@@ -364,7 +364,7 @@ namespace boost
             {
                 void* result=0;
                 BOOST_VERIFY(!pthread_join(local_thread_info->thread_handle,&result));
-                lock_guard<mutex> lock(local_thread_info->data_mutex);
+                lock_guard<mutex> lock(local_thread_info->done_mutex);
                 local_thread_info->joined=true;
                 local_thread_info->done_condition.notify_all();
             }
@@ -389,7 +389,7 @@ namespace boost
             bool do_join=false;
 
             {
-                unique_lock<mutex> lock(local_thread_info->data_mutex);
+                unique_lock<mutex> lock(local_thread_info->done_mutex);
                 while(!local_thread_info->done)
                 {
                     if(!local_thread_info->done_condition.do_wait_until(lock,timeout)) break; // timeout occurred
@@ -417,7 +417,7 @@ namespace boost
             {
                 void* result=0;
                 BOOST_VERIFY(!pthread_join(local_thread_info->thread_handle,&result));
-                lock_guard<mutex> lock(local_thread_info->data_mutex);
+                lock_guard<mutex> lock(local_thread_info->done_mutex);
                 local_thread_info->joined=true;
                 local_thread_info->done_condition.notify_all();
             }
@@ -448,7 +448,7 @@ namespace boost
 
         if(local_thread_info)
         {
-            lock_guard<mutex> lock(local_thread_info->data_mutex);
+            lock_guard<mutex> lock(local_thread_info->done_mutex);
             if(!local_thread_info->join_started)
             {
                 BOOST_VERIFY(!pthread_detach(local_thread_info->thread_handle));
-- 
2.43.0


From daf63782dae576a510579d8330ced904ad1f901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 08/35] fix: thread_group::create_thread ended the program when
 memory ran out after the thread was started

---
 include/boost/thread/detail/thread_group.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..6c02a46 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,9 +76,11 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
-            boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
-            return new_thread.release();
+            // allocate the list node first: once the thread runs nothing may fail any more
+            std::list<thread*> new_thread(1, static_cast<thread*>(0));
+            new_thread.front() = new thread(threadfunc);
+            threads.splice(threads.end(), new_thread);
+            return threads.back();
         }
 
         void add_thread(thread* thrd)
-- 
2.43.0


From 2debcfa03b3cc79b7edbcd77a64339261c665a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 09/35] fix: a promise that was satisfied at thread exit or
 deferred cannot be satisfied again

---
 include/boost/thread/future.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..7be8346 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -669,7 +669,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +684,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +810,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +885,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2375,7 +2375,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2386,7 +2386,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2398,7 +2398,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2453,7 +2453,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2466,7 +2466,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2651,7 +2651,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2670,7 +2670,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2836,7 +2836,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2856,7 +2856,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From 44cb9e18517798266e3067bfca222aeec46b1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 10/35] fix: setting a promise that was moved from throws
 promise_moved

---
 include/boost/thread/future.hpp | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7be8346..16cbd25 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2374,6 +2374,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2385,6 +2389,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2397,6 +2405,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2452,6 +2464,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2465,6 +2481,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2650,6 +2670,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2669,6 +2693,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2835,6 +2863,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2855,6 +2887,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
-- 
2.43.0


From b85838a95fea25c04bb921273d571232a16f4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 11/35] fix: set_*_at_thread_exit allocates the shared state of
 a lazy promise

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 16cbd25..7ec680f 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2517,6 +2517,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2526,6 +2527,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2535,6 +2537,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2543,6 +2546,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2726,6 +2730,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2735,6 +2740,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2920,6 +2926,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2929,6 +2936,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
-- 
2.43.0


From 20c0c0c4d0f58ead98db8d1bae6360a7e39172f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 12/35] fix: move assignment of a promise abandons the shared
 state it had

---
 include/boost/thread/future.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7ec680f..eeea250 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2327,10 +2327,7 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
@@ -2642,10 +2639,7 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
@@ -2835,10 +2829,7 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
-- 
2.43.0


From b59026a31da46ca92f6ab3bb52be64e4e6a380cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 13/35] fix: shared_future::get_or returns the fallback instead
 of throwing the stored exception

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index eeea250..981502e 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2233,7 +2233,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 82f9573fdd1f51853569751f0b885313fcd1fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 14/35] fix: make_shared_future() returns a ready future

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 981502e..6c21459 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4500,6 +4500,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From fb6cef89a7d70dad30ce07d633e3a517f002268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 15/35] fix: waiting for a deferred function or continuation
 does not keep its state locked

---
 include/boost/thread/future.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6c21459..359de56 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1081,7 +1081,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
@@ -4846,7 +4850,10 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
@@ -4869,7 +4876,10 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From e25ce639b11620b0aef12fff340d32a832eb2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 16/35] fix: a deferred continuation that is never waited for
 does not keep itself alive

---
 include/boost/thread/future.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 359de56..8fc4554 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4897,7 +4897,8 @@ namespace detail {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new future_deferred_continuation_shared_state<F, Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
+    // the continuation is run by whoever waits for it, not by the completion of its parent
+    (void)lock;
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
 
@@ -4962,7 +4963,8 @@ namespace detail {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<shared_future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new shared_future_deferred_continuation_shared_state<F, Rp, Cont>(f, boost::forward<Fp>(c)));
-    h->init(lock);
+    // the continuation is run by whoever waits for it, not by the completion of its parent
+    (void)lock;
 
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
-- 
2.43.0


From fcc6c34249026139669155e0b7f79014ea53014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 17/35] fix: wait_for_any does not deadlock with another one or
 on futures that share a state

---
 include/boost/thread/future.hpp               |  8 +++++++-
 include/boost/thread/futures/wait_for_any.hpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 8fc4554..741a4a8 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1152,10 +1152,16 @@ namespace boost
                 all_futures_lock(std::vector<registered_waiter>& futures):
                     count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
                 {
+                    // several futures may refer to the same state, whose mutex is locked once
+                    count_type_portable n=0;
                     for(count_type_portable i=0;i<count;++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        count_type_portable j=0;
+                        while(j<n && locks[j].mutex()!=&futures[i].future_->mutex) ++j;
+                        if(j==n) locks[n++]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex,boost::defer_lock));
                     }
+                    count=n;
+                    lock();
                 }
 
                 void lock()
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..77d438f 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -60,10 +60,16 @@ namespace boost
         all_futures_lock(std::vector<registered_waiter>& waiters) :
           count(waiters.size()), locks(new boost::unique_lock<boost::mutex>[count])
         {
-          for (count_type_portable i = 0; i < count; ++i)
+          // several futures may refer to the same state, whose mutex is locked once
+          count_type_portable n=0;
+          for(count_type_portable i=0;i<count;++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+              count_type_portable j=0;
+              while(j<n && locks[j].mutex()!=&waiters[i].future_->mutex()) ++j;
+              if(j==n) locks[n++]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex(),boost::defer_lock));
           }
+          count=n;
+          lock();
         }
 
         void lock()
-- 
2.43.0


From 0efe0783ea809f54fef41c39ee8c1f9044788d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 18/35] fix: when_all and when_any of single futures run the
 deferred ones as documented

---
 include/boost/thread/future.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 741a4a8..0b2f0bc 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5737,7 +5737,8 @@ namespace detail
   struct accumulate_run_if_is_deferred {
     bool operator ()(Tuple& t)
     {
-      return (! csbl::get<i-1>(t).run_if_is_deferred()) || accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      const bool res = accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      return (! csbl::get<i-1>(t).run_if_is_deferred()) || res;
     }
   };
   template <class Tuple>
@@ -5809,8 +5810,8 @@ namespace detail
   struct apply_any_run_if_is_deferred_or_ready {
     bool operator ()(Tuple& t)
     {
-      if (csbl::get<i-1>(t).run_if_is_deferred_or_ready()) return true;
-      return apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t);
+      if (apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t)) return true;
+      return csbl::get<i-1>(t).run_if_is_deferred_or_ready();
     }
   };
   template <class Tuple>
-- 
2.43.0


From 0f548cf4c485078a41038baa4fd3a9f1e0d5b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 19/35] fix: a continuation that inherits its executor shares
 it with the parent

---
 include/boost/thread/future.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0b2f0bc..0c9d4db 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4753,6 +4753,15 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // an executor inherited from the parent is shared with it, as the parent can go away first
+    void init(boost::unique_lock<boost::mutex> &lk, executor& ex)
+    {
+      executor_ptr_type inherited = this->parent.future_->get_executor();
+      if (inherited.get() != &ex) inherited.reset(new executor_ref<executor>(ex));
+      this->set_executor_policy(inherited, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
@@ -4832,6 +4841,15 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // an executor inherited from the parent is shared with it, as the parent can go away first
+    void init(boost::unique_lock<boost::mutex> &lk, executor& ex)
+    {
+      executor_ptr_type inherited = this->parent.future_->get_executor();
+      if (inherited.get() != &ex) inherited.reset(new executor_ref<executor>(ex));
+      this->set_executor_policy(inherited, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
-- 
2.43.0


From 2caa8a42a43f4708415902309b369073243f8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 20/35] fix: a moved-from devector is empty and usable

---
 include/boost/thread/csbl/devector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..4baf7aa 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +65,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From 01757ac96d3cf3dad04aa881ba4030ad79acefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 21/35] fix: sync_bounded_queue::size() after the buffer
 wrapped around

---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3dcc589 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From b71eeedf3a0624a62d70827a9df73c4181cc43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:07 +0000
Subject: [PATCH 22/35] fix: sync_timed_queue::pull_until does not look at the
 top of an empty queue

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..63ff7ee 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -290,6 +290,9 @@ namespace detail
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
 
+      // The clock may have been set back since the wait timed out.
+      if (super::empty(lk)) continue;
+
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
     }
-- 
2.43.0


From 814b0aecef1f243f19cf94d70d692c10468c6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:07 +0000
Subject: [PATCH 23/35] fix: sync_bounded_queue::wait_push_back returns closed
 when the queue is closed while it waits

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3dcc589..f1edd28 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -542,8 +542,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -587,6 +589,21 @@ namespace concurrent
       not_full_.wait(lk);
     }
   }
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      size_type in_p_1 = inc(in_);
+      if (closed_) {closed=true; return in_p_1;}
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
 
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
@@ -647,8 +664,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 88c6b8dd1a7b34df05503bd0a68a5f3289daf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:07 +0000
Subject: [PATCH 24/35] fix: a woken producer or consumer of a bounded queue
 that fails passes the wake-up on

---
 .../thread/concurrent_queues/sync_bounded_queue.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index f1edd28..7d77207 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -157,18 +157,22 @@ namespace concurrent
     {
       if (waiting_empty_ > 0)
       {
-        --waiting_empty_;
+        // All of them: if only one was woken and its operation failed
+        // (with an exception), the others would go on waiting.
+        waiting_empty_ = 0;
         lk.unlock();
-        not_empty_.notify_one();
+        not_empty_.notify_all();
       }
     }
     inline void notify_not_full_if_needed(unique_lock<mutex>& lk)
     {
       if (waiting_full_ > 0)
       {
-        --waiting_full_;
+        // All of them: if only one was woken and its operation failed
+        // (with an exception), the others would go on waiting.
+        waiting_full_ = 0;
         lk.unlock();
-        not_full_.notify_one();
+        not_full_.notify_all();
       }
     }
 
-- 
2.43.0


From 03c157ff18139a783e9a41f8f1e4c0a3914761d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 25/35] fix: basic_thread_pool destructor runs the closures
 submitted before it

---
 include/boost/thread/executors/basic_thread_pool.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..62d2a3f 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -94,6 +94,18 @@ namespace executors
             if (st == queue_op_status::closed) {
               return;
             }
+          }
+          catch (boost::thread_interrupted&)
+          {
+            // interrupted while waiting: the closures that were submitted
+            // before the pool was closed must still be executed
+            if (! closed()) {
+              return;
+            }
+            continue;
+          }
+          try
+          {
             task();
           }
           catch (boost::thread_interrupted&)
-- 
2.43.0


From f1899a4a45d2918688535f26e3b0cbc32c9c12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 26/35] fix: basic_thread_pool constructor that fails to create
 a thread ends the others

---
 .../thread/executors/basic_thread_pool.hpp     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 62d2a3f..eec963a 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -141,6 +141,16 @@ namespace executors
     }
     static void do_nothing_at_thread_entry(basic_thread_pool&) {}
 
+    /**
+     * Effects: ends the threads that a failing constructor has already created.
+     */
+    void close_and_join()
+    {
+      close();
+      boost::this_thread::disable_interruption di;
+      join();
+    }
+
   public:
     /// basic_thread_pool is not copyable.
     BOOST_THREAD_NO_COPYABLE(basic_thread_pool)
@@ -167,7 +177,7 @@ namespace executors
       }
       catch (...)
       {
-        close();
+        close_and_join();
         throw;
       }
     }
@@ -193,7 +203,7 @@ namespace executors
       }
       catch (...)
       {
-        close();
+        close_and_join();
         throw;
       }
     }
@@ -212,7 +222,7 @@ namespace executors
       }
       catch (...)
       {
-        close();
+        close_and_join();
         throw;
       }
     }
@@ -231,7 +241,7 @@ namespace executors
       }
       catch (...)
       {
-        close();
+        close_and_join();
         throw;
       }
     }
-- 
2.43.0


From 7b96e27a0ba84f0d6ff7fe9083679efd7ab5d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 27/35] fix: scheduled_thread_pool constructor that fails to
 create a thread ends the others

---
 .../thread/executors/scheduled_thread_pool.hpp    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..e2a0dc3 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,20 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        // end the threads that have already been created
+        this->close();
+        boost::this_thread::disable_interruption di;
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From 839f7aac8de49aee7a64ade6b43c1180041356b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 28/35] fix: thread_executor joins its threads before its mutex
 is destroyed

---
 include/boost/thread/executors/thread_executor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..cec984b 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -38,8 +38,8 @@ namespace executors
     bool closed_;
     typedef scoped_thread<> thread_t;
     typedef csbl::vector<thread_t> threads_type;
-    threads_type threads_;
     mutable mutex mtx_;
+    threads_type threads_; // after mtx_: joined while the closures can still use the executor
 
     /**
      * Effects: try to execute one task.
-- 
2.43.0


From 1a33391e6763fb87afaa17d05f20b5dddf68ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 29/35] fix: basic_thread_pool::join skips the threads that
 were already joined

---
 include/boost/thread/executors/basic_thread_pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index eec963a..cfb99c3 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -288,6 +288,7 @@ namespace executors
     {
       for (unsigned i = 0; i < threads.size(); ++i)
       {
+        if (! threads[i].joinable()) continue; // already joined
         threads[i].interrupt();
         threads[i].join();
       }
-- 
2.43.0


From bc935559a4a4e2ed84bca6c56bba54d5adf55134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 30/35] fix: schedulers run the closures that were due when
 they are closed and destroyed

---
 .../executors/detail/priority_executor_base.hpp   | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/detail/priority_executor_base.hpp b/include/boost/thread/executors/detail/priority_executor_base.hpp
index 1eb0c6e..e6bd466 100644
--- a/include/boost/thread/executors/detail/priority_executor_base.hpp
+++ b/include/boost/thread/executors/detail/priority_executor_base.hpp
@@ -57,10 +57,21 @@ namespace detail
       {
         for(;;)
         {
-          try {
-            work task;
+          work task;
+          try
+          {
             queue_op_status st = _workq.wait_pull(task);
             if (st == queue_op_status::closed) return;
+          }
+          catch (boost::thread_interrupted&)
+          {
+            // interrupted while waiting: the closures that were due
+            // before the executor was closed must still be executed
+            if (! closed()) return;
+            continue;
+          }
+          try
+          {
             task();
           }
           catch (boost::thread_interrupted&)
-- 
2.43.0


From 5228e0031c241ad11f0ac8812392f71b14828f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 31/35] fix: serial_executor_cont destructor waits for its
 closures

---
 include/boost/thread/executors/serial_executor_cont.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..c88e43d 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,14 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // wait for the last closure, which is executed after all the others.
+      if (fut_.valid())
+      {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption di;
+#endif
+        fut_.wait();
+      }
     }
 
     /**
-- 
2.43.0


From 7d113b527b5ed75f1031acc166961dd298c64b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 32/35] fix: scheduler.on(executor) does not move from a
 closure passed as an lvalue

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From 7140e626ca3087ad853fba3fcd9cb171f6a42ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:49 +0000
Subject: [PATCH 33/35] fix: synchronized_value: comparing a value with itself

The comparison operators locked the same mutex twice when both operands are the same object, and never returned.
---
 include/boost/thread/synchronized_value.hpp | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..1d46508 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,12 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (&rhs == this)
+      {
+        // the same mutex can not be locked twice
+        unique_lock<mutex_type> lk1(mtx_);
+        return value_ == value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +858,12 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (&rhs == this)
+      {
+        // the same mutex can not be locked twice
+        unique_lock<mutex_type> lk1(mtx_);
+        return value_ < value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +876,12 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (&rhs == this)
+      {
+        // the same mutex can not be locked twice
+        unique_lock<mutex_type> lk1(mtx_);
+        return value_ > value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +890,12 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (&rhs == this)
+      {
+        // the same mutex can not be locked twice
+        unique_lock<mutex_type> lk1(mtx_);
+        return value_ <= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +904,12 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (&rhs == this)
+      {
+        // the same mutex can not be locked twice
+        unique_lock<mutex_type> lk1(mtx_);
+        return value_ >= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From f3fb469df8c936bd736d3c7b9e2551d439deb9ee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:09:16 +0000
Subject: [PATCH 34/35] fix: task_region: wait reports the cancellation,
 exceptions are reported once, when the region ends

---
 .../thread/experimental/parallel/v2/task_region.hpp      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..b874910 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -237,8 +237,15 @@ protected:
           boost::throw_exception(task_canceled_exception());
         }
       }
-#endif
+      // what the tasks threw is reported once, when the region ends
+      wait_for_all(group.begin(), group.end());
+      lock_guard<mutex> lk(mtx);
+      if (canceled) {
+        boost::throw_exception(task_canceled_exception());
+      }
+#else
       wait_all();
+#endif
     }
   };
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-- 
2.43.0


From d87d5a8e962668f09290bce63f22982ff5ba0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 35/35] fix: no_interruption_point sleeps: a signal handler
 does not cut them short

---
 src/pthread/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 1c3face..dd045de 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -41,6 +41,7 @@
 #include <set>
 #include <vector>
 #include <string.h> // memcmp.
+#include <errno.h>
 
 namespace boost
 {
@@ -477,7 +478,9 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // a signal handler may interrupt it: sleep for the rest
+                        timespec rest = ts.getTs();
+                        while (nanosleep(&rest, &rest) == -1 && errno == EINTR) {}
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0

