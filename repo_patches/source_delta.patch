From 01f2981781af92671d858dcce02cc4e1af2e3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:41 +0000
Subject: [PATCH 01/36] fix: atomic store and swap keep the value they set

__sync_lock_release writes 0, so every store and swap reset the atomic
to zero after setting it.
---
 src/libs_thread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..da65f77 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,8 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
 
     #else
         #error Unknown platform.
@@ -1118,8 +1118,8 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
         return old;
 
     #else
@@ -1174,8 +1174,8 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
 
     #else
         #error Unknown platform.
@@ -1196,8 +1196,8 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
         return old;
 
     #else
-- 
2.43.0


From b8cf34b79d62eab451d936d7adfb2a69ea98f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:41 +0000
Subject: [PATCH 02/36] fix: atomic ints are as wide as int

With a 64-bit long the value did not wrap like the int the API reads and
compares, so compare-and-swap failed on values it had just returned.
---
 src/libs_thread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index da65f77..30ee2ce 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i;
+    #endif
     };
 
 union thread_atomic_ptr_t
-- 
2.43.0


From 30d1cf68594fd0abbf98ec4c59ff61e24631d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 03/36] fix: signal wait measures its timeout on one, monotonic
 clock

The deadline took its seconds from time() and its fraction from an earlier
gettimeofday(), which differ by a second around a second boundary, and both
follow the wall clock, so setting the clock cut a wait short or prolonged it.
---
 src/libs_thread.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 30ee2ce..b38be8c 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -616,6 +616,7 @@ struct thread_queue_t
 
     #include <pthread.h>
     #include <sys/time.h>
+    #include <time.h>
 
 #else
     #error Unknown platform.
@@ -899,7 +900,16 @@ void thread_signal_init( thread_signal_t* signal )
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
         pthread_mutex_init( &internal->mutex, NULL );
-        pthread_cond_init( &internal->condition, NULL );
+        #if defined( __APPLE__ )
+            pthread_cond_init( &internal->condition, NULL );
+        #else
+            // Timeouts are measured on a clock that is never set
+            pthread_condattr_t attr;
+            pthread_condattr_init( &attr );
+            pthread_condattr_setclock( &attr, CLOCK_MONOTONIC );
+            pthread_cond_init( &internal->condition, &attr );
+            pthread_condattr_destroy( &attr );
+        #endif
         internal->value = 0;
 
     #else
@@ -986,10 +996,16 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
         struct timespec ts;
         if( timeout_ms >= 0 )
             {
-            struct timeval tv;
-            gettimeofday( &tv, NULL );
-            ts.tv_sec = time( NULL ) + timeout_ms / 1000;
-            ts.tv_nsec = tv.tv_usec * 1000 + 1000 * 1000 * ( timeout_ms % 1000 );
+            #if defined( __APPLE__ )
+                struct timeval tv;
+                gettimeofday( &tv, NULL );
+                ts.tv_sec = tv.tv_sec;
+                ts.tv_nsec = tv.tv_usec * 1000;
+            #else
+                clock_gettime( CLOCK_MONOTONIC, &ts );
+            #endif
+            ts.tv_sec += timeout_ms / 1000;
+            ts.tv_nsec += 1000 * 1000 * ( timeout_ms % 1000 );
             ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );
             ts.tv_nsec %= ( 1000 * 1000 * 1000 );
             }
-- 
2.43.0


From 98a563e59ee7de5e32df601090f9ba200a13800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 04/36] fix: thread_tls_create does not return NULL for the
 first key

pthread keys start at 0, so the first successful creation looked like a failure.
---
 src/libs_thread.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index b38be8c..528ae57 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1325,9 +1325,10 @@ thread_tls_t thread_tls_create( void )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        // The first key is 0 on many systems; NULL is reserved for failure
         pthread_key_t tls;
         if( pthread_key_create( &tls, NULL ) == 0 )
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 );
         else
             return NULL;
 
@@ -1345,7 +1346,7 @@ void thread_tls_destroy( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_key_delete( (pthread_key_t) (uintptr_t) tls );
+        pthread_key_delete( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
@@ -1361,7 +1362,7 @@ void thread_tls_set( thread_tls_t tls, void* value )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );
+        pthread_setspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ), value );
 
     #else
         #error Unknown platform.
@@ -1377,7 +1378,7 @@ void* thread_tls_get( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return pthread_getspecific( (pthread_key_t) (uintptr_t) tls );
+        return pthread_getspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 8b702670f0a1e6e9052a44fbb39a4712a63c6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 05/36] fix: thread_create honours stack_size on POSIX systems

The argument was ignored and every thread got the default stack.
---
 src/libs_thread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 528ae57..064c32a 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -707,8 +707,15 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        pthread_attr_t attr;
+        if( 0 != pthread_attr_init( &attr ) )
+            return NULL;
+        if( stack_size > 0 ) pthread_attr_setstacksize( &attr, (size_t) stack_size );
+
         pthread_t thread;
-        if( 0 != pthread_create( &thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+        int failed = pthread_create( &thread, &attr, ( void* (*)( void * ) ) thread_proc, user_data );
+        pthread_attr_destroy( &attr );
+        if( failed )
             return NULL;
 
         #if !defined( __APPLE__ ) // max doesn't support pthread_setname_np. alternatives?
-- 
2.43.0


From 17cfa05de43a7fa35aa479ddeacaee206c0ad7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 06/36] fix: a thread can be joined and then destroyed, as
 documented

thread_destroy joined the pthread a second time after thread_join, which is
undefined behaviour. The handle now remembers that, and with what value, the
thread was joined.
---
 src/libs_thread.h | 40 +++++++++++++++++++++++++++++++++-------
 src/nanothread.cc |  1 +
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 064c32a..35205ca 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -615,6 +615,7 @@ struct thread_queue_t
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
     #include <pthread.h>
+    #include <stdlib.h>
     #include <sys/time.h>
     #include <time.h>
 
@@ -676,6 +677,19 @@ void thread_exit( int return_code )
     }
 
 
+#if !defined( _WIN32 )
+
+    // A pthread can be joined only once, and its return value is lost then
+    struct thread_internal_thread_t
+        {
+        pthread_t id;
+        int joined;
+        int retval;
+        };
+
+#endif
+
+
 thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char const* name, int stack_size )
     {
     #if defined( _WIN32 )
@@ -712,14 +726,19 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
             return NULL;
         if( stack_size > 0 ) pthread_attr_setstacksize( &attr, (size_t) stack_size );
 
-        pthread_t thread;
-        int failed = pthread_create( &thread, &attr, ( void* (*)( void * ) ) thread_proc, user_data );
+        struct thread_internal_thread_t* thread = (struct thread_internal_thread_t*) malloc( sizeof( *thread ) );
+        int failed = !thread || pthread_create( &thread->id, &attr, ( void* (*)( void * ) ) thread_proc, user_data );
         pthread_attr_destroy( &attr );
         if( failed )
+            {
+            free( thread );
             return NULL;
+            }
+        thread->joined = 0;
+        thread->retval = 0;
 
         #if !defined( __APPLE__ ) // max doesn't support pthread_setname_np. alternatives?
-            if( name ) pthread_setname_np( thread, name );
+            if( name ) pthread_setname_np( thread->id, name );
         #endif
 
         return (thread_ptr_t) thread;
@@ -739,7 +758,8 @@ void thread_destroy( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_join( (pthread_t) thread, NULL );
+        thread_join( thread );
+        free( thread );
 
     #else
         #error Unknown platform.
@@ -758,9 +778,15 @@ int thread_join( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* retval;
-        pthread_join( (pthread_t) thread, &retval );
-        return (int)(uintptr_t) retval;
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) thread;
+        if( !internal->joined )
+            {
+            void* retval;
+            pthread_join( internal->id, &retval );
+            internal->retval = (int)(uintptr_t) retval;
+            internal->joined = 1;
+            }
+        return internal->retval;
 
     #else
         #error Unknown platform.
diff --git a/src/nanothread.cc b/src/nanothread.cc
index 188d85e..a9930aa 100644
--- a/src/nanothread.cc
+++ b/src/nanothread.cc
@@ -40,6 +40,7 @@ void thread::join() {
   if (thread_handle_) {
     thread_ptr_t th = static_cast<thread_ptr_t>(thread_handle_);
     thread_join(th);
+    thread_destroy(th);
 
     thread_handle_ = nullptr;
   }
-- 
2.43.0


From d14baf6ca6d8284c62fdec2983b69df91ef5b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 07/36] fix: queue produce and consume honour timeouts and
 never overrun

Both carried on after a wait whether or not it had timed out or been woken by
a stale signal, so a full queue was overwritten and an empty one returned old
slots. consume ignored its timeout, and produce returned 0 on success.
---
 src/libs_thread.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 35205ca..6656a15 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1449,16 +1449,18 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    // The signal may be left over from an earlier wait that was not needed, so check again after each wake-up
+    while( thread_atomic_int_load( &queue->count ) == queue->size )
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
@@ -1469,10 +1471,11 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    while( thread_atomic_int_load( &queue->count ) == 0 )
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From fb19acf82525cf3dfbe6e22e1fa5711a339b0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 08/36] fix: queue positions do not overflow

head and tail counted every element ever queued; after 2^31 of them the slot
index became negative.
---
 src/libs_thread.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 6656a15..97f628d 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1456,8 +1456,9 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
-    queue->values[ tail % queue->size ] = value;
+    int tail = thread_atomic_int_load( &queue->tail ) % queue->size;
+    queue->values[ tail ] = value;
+    thread_atomic_int_store( &queue->tail, tail + 1 );
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1477,8 +1478,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
-    void* retval = queue->values[ head % queue->size ];
+    int head = thread_atomic_int_load( &queue->head ) % queue->size;
+    void* retval = queue->values[ head ];
+    thread_atomic_int_store( &queue->head, head + 1 );
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0


From 390b84480ba109a2a1c265eecf20f404d923b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:53 +0000
Subject: [PATCH 09/36] fix: resize(0) empties a vector or valarray

---
 include/nanovalarray.h | 4 ----
 include/nanovector.h   | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..7f65934 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..33ad3bc 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From 64a308d5eff42cbe488797bea2a53fce0665ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:13 +0000
Subject: [PATCH 10/36] fix: vector and valarray leak nothing when copying
 elements throws

---
 include/nanovalarray.h | 28 +++++++++-------------------
 include/nanovector.h   | 24 ++++++++----------------
 2 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 7f65934..b814020 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -61,14 +61,12 @@ class valarray {
   valarray() : elements_(0), capacity_(0), size_(0) {}
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  valarray(const valarray& rhs) {
-    __initialize();
+  valarray(const valarray& rhs) : valarray() {
     assign(rhs.begin(), rhs.end());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  valarray(const size_type n) {
-    __initialize();
+  valarray(const size_type n) : valarray() {
     resize(n);
   }
 
@@ -93,18 +91,17 @@ class valarray {
 #endif
       allocator_type allocator;
 
-      value_type* new_elements = allocator.allocate(n);
-      size_type new_capacity = n;
+      // Owns the new buffer while copying to it can fail, then the old one.
+      valarray grown;
+      grown.elements_ = allocator.allocate(n);
+      grown.capacity_ = n;
 
       for (size_type i = 0; i < size(); i++) {
-        new_elements[i] = elements_[i];
+        grown.elements_[i] = elements_[i];
       }
+      grown.size_ = size_;
 
-      // delete old buffer
-      allocator.deallocate(elements_, capacity_);
-
-      elements_ = new_elements;
-      capacity_ = new_capacity;
+      swap(grown);
     }
 
     size_ = count;
@@ -172,13 +169,6 @@ class valarray {
 
  private:
 
-  NANOSTL_HOST_AND_DEVICE_QUAL
-  void __initialize() {
-    elements_ = 0;
-    capacity_ = 0;
-    size_ = 0;
-  }
-
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __push_back(const value_type& val) {
     resize(size() + 1);
diff --git a/include/nanovector.h b/include/nanovector.h
index 33ad3bc..1be76e6 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -59,8 +59,7 @@ class vector {
 
   NANOSTL_HOST_AND_DEVICE_QUAL vector() : elements_(0), capacity_(0), size_(0) {}
 
-  NANOSTL_HOST_AND_DEVICE_QUAL vector(const vector& rhs) {
-    __initialize();
+  NANOSTL_HOST_AND_DEVICE_QUAL vector(const vector& rhs) : vector() {
     assign(rhs.begin(), rhs.end());
   }
 
@@ -93,18 +92,17 @@ class vector {
 #endif
       allocator_type allocator;
 
-      value_type* new_elements = allocator.allocate(n);
-      size_type new_capacity = n;
+      // Owns the new buffer while copying to it can fail, then the old one.
+      vector grown;
+      grown.elements_ = allocator.allocate(n);
+      grown.capacity_ = n;
 
       for (size_type i = 0; i < size(); i++) {
-        new_elements[i] = elements_[i];
+        grown.elements_[i] = elements_[i];
       }
+      grown.size_ = size_;
 
-      // delete old buffer
-      allocator.deallocate(elements_, capacity_);
-
-      elements_ = new_elements;
-      capacity_ = new_capacity;
+      swap(grown);
     }
 
     size_ = count;
@@ -170,12 +168,6 @@ class vector {
   }
 
  private:
-  NANOSTL_HOST_AND_DEVICE_QUAL void __initialize() {
-    size_ = 0;
-    capacity_ = 0;
-    elements_ = 0;
-  }
-
   template <class Ty>
   inline void __swap(Ty& x, Ty& y) {
     Ty c(x);
-- 
2.43.0


From e6c5e53ae13efd9a52bc4e4d5bae81dd32754dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:14 +0000
Subject: [PATCH 11/36] fix: elements added by resize are value-initialized

---
 include/nanovalarray.h | 4 ++++
 include/nanovector.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index b814020..1081df4 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -104,6 +104,10 @@ class valarray {
       swap(grown);
     }
 
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
diff --git a/include/nanovector.h b/include/nanovector.h
index 1be76e6..ba45b4b 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -105,6 +105,10 @@ class vector {
       swap(grown);
     }
 
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From bb4ebdc40f0a11ea455bbbe735147858ca57c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:15 +0000
Subject: [PATCH 12/36] fix: push_back of an element of the same vector, and
 when copying it throws

---
 include/nanovalarray.h | 60 ++++++++++++++++++++++-----------------
 include/nanovector.h   | 64 ++++++++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 52 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 1081df4..961c584 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -80,29 +80,8 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count > capacity()) {
-      // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
-      // resizing.
-      size_type n = (count > recommended_size()) ? count : recommended_size();
-#ifdef NANOSTL_DEBUG
-      std::cout << "valarray::resize: count " << count << ", capacity "
-                << capacity() << ", recommended_size " << recommended_size()
-                << ", n " << n << std::endl;
-#endif
-      allocator_type allocator;
-
-      // Owns the new buffer while copying to it can fail, then the old one.
-      valarray grown;
-      grown.elements_ = allocator.allocate(n);
-      grown.capacity_ = n;
-
-      for (size_type i = 0; i < size(); i++) {
-        grown.elements_[i] = elements_[i];
-      }
-      grown.size_ = size_;
-
-      swap(grown);
-    }
+    valarray old;
+    __reserve(count, old);
 
     for (size_type i = size_; i < count; i++) {
       elements_[i] = value_type();
@@ -172,11 +151,42 @@ class valarray {
   }
 
  private:
+  // Makes room for `count` elements. A replaced buffer moves to `old`, so that
+  // references to its elements stay valid as long as `old` lives.
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  void __reserve(size_type count, valarray& old) {
+    if (count > capacity()) {
+      // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
+      // resizing.
+      size_type n = (count > recommended_size()) ? count : recommended_size();
+#ifdef NANOSTL_DEBUG
+      std::cout << "valarray::resize: count " << count << ", capacity "
+                << capacity() << ", recommended_size " << recommended_size()
+                << ", n " << n << std::endl;
+#endif
+      allocator_type allocator;
+
+      // Owns the new buffer while copying to it can fail.
+      valarray grown;
+      grown.elements_ = allocator.allocate(n);
+      grown.capacity_ = n;
+
+      for (size_type i = 0; i < size(); i++) {
+        grown.elements_[i] = elements_[i];
+      }
+      grown.size_ = size_;
+
+      swap(grown);
+      old.swap(grown);
+    }
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __push_back(const value_type& val) {
-    resize(size() + 1);
-    elements_[size_ - 1] = val;
+    valarray old;
+    __reserve(size() + 1, old);
+    elements_[size_] = val;
+    size_++;
   }
 
 
diff --git a/include/nanovector.h b/include/nanovector.h
index ba45b4b..c116232 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -81,29 +81,8 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count > capacity()) {
-      // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
-      // resizing.
-      size_type n = (count > recommended_size()) ? count : recommended_size();
-#ifdef NANOSTL_DEBUG
-      std::cout << "vector::resize: count " << count << ", capacity "
-                << capacity() << ", recommended_size " << recommended_size()
-                << ", n " << n << std::endl;
-#endif
-      allocator_type allocator;
-
-      // Owns the new buffer while copying to it can fail, then the old one.
-      vector grown;
-      grown.elements_ = allocator.allocate(n);
-      grown.capacity_ = n;
-
-      for (size_type i = 0; i < size(); i++) {
-        grown.elements_[i] = elements_[i];
-      }
-      grown.size_ = size_;
-
-      swap(grown);
-    }
+    vector old;
+    __reserve(count, old);
 
     for (size_type i = size_; i < count; i++) {
       elements_[i] = value_type();
@@ -113,8 +92,10 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
-    resize(size() + 1);
-    elements_[size_ - 1] = val;
+    vector old;
+    __reserve(size() + 1, old);
+    elements_[size_] = val;
+    size_++;
   }
 
   // void push_back(value_type &val); // C++11
@@ -165,15 +146,44 @@ class vector {
     }
   }
 
-  void swap(vector& x) {
+  NANOSTL_HOST_AND_DEVICE_QUAL void swap(vector& x) {
     __swap(elements_, x.elements_);
     __swap(capacity_, x.capacity_);
     __swap(size_, x.size_);
   }
 
  private:
+  // Makes room for `count` elements. A replaced buffer moves to `old`, so that
+  // references to its elements stay valid as long as `old` lives.
+  NANOSTL_HOST_AND_DEVICE_QUAL void __reserve(size_type count, vector& old) {
+    if (count > capacity()) {
+      // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
+      // resizing.
+      size_type n = (count > recommended_size()) ? count : recommended_size();
+#ifdef NANOSTL_DEBUG
+      std::cout << "vector::resize: count " << count << ", capacity "
+                << capacity() << ", recommended_size " << recommended_size()
+                << ", n " << n << std::endl;
+#endif
+      allocator_type allocator;
+
+      // Owns the new buffer while copying to it can fail.
+      vector grown;
+      grown.elements_ = allocator.allocate(n);
+      grown.capacity_ = n;
+
+      for (size_type i = 0; i < size(); i++) {
+        grown.elements_[i] = elements_[i];
+      }
+      grown.size_ = size_;
+
+      swap(grown);
+      old.swap(grown);
+    }
+  }
+
   template <class Ty>
-  inline void __swap(Ty& x, Ty& y) {
+  NANOSTL_HOST_AND_DEVICE_QUAL inline void __swap(Ty& x, Ty& y) {
     Ty c(x);
     x = y;
     y = c;
-- 
2.43.0


From 1f93e8606cc08dad6ddf550e3be8e778e245f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:17 +0000
Subject: [PATCH 13/36] fix: erase returns the position after the erased
 element

---
 include/nanovalarray.h | 3 ++-
 include/nanovector.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 961c584..fb16f60 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -125,13 +125,14 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
+    iterator next = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return next;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
diff --git a/include/nanovector.h b/include/nanovector.h
index c116232..13444c3 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -129,13 +129,14 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
+    iterator next = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return next;
   }
 
   template <class InputIterator>
-- 
2.43.0


From 5a7b59cf09343022418bb53c8150a63087270fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:26 +0000
Subject: [PATCH 14/36] fix: map iteration starts at the smallest key

---
 include/nanomap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c01942a 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,11 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From d7b9c4d6c3c2922c04d62047f0addb7273c10a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:28 +0000
Subject: [PATCH 15/36] fix: map iterators compare positions, also with end

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c01942a..409d75e 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return p == rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return p != rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 10e4fe88a4347e57a0196b58b2bbc7e5a5acfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:29 +0000
Subject: [PATCH 16/36] fix: find, upper_bound and end of a const map compile

---
 include/nanomap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 409d75e..43cd3e9 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -76,12 +76,12 @@ class map {
   };
 
   class iterator {
-    map<Key, T>* mp;
+    const map<Key, T>* mp;
     Node* p;
 
    public:
     NANOSTL_HOST_AND_DEVICE_QUAL
-    iterator(map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
+    iterator(const map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     iterator& operator++() {
-- 
2.43.0


From 8cb6fdebdef55ca29ab51c91a765d21af51bc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:31 +0000
Subject: [PATCH 17/36] fix: copying a map copies its elements

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 43cd3e9..30b8b48 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,18 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) : map() { __copy(&root, rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    map copied(rhs);
+    Node* t = root;
+    root = copied.root;
+    copied.root = t;
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -220,6 +232,17 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  // Links every node as soon as it is made, so that nothing is lost when a
+  // later one cannot be.
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  void __copy(Node** to, const Node* t) {
+    if (!t) return;
+    *to = new Node(t->val);
+    (*to)->pri = t->pri;
+    __copy(&(*to)->ch[0], t->ch[0]);
+    __copy(&(*to)->ch[1], t->ch[1]);
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From 8e1d56fb5abcc6069e0336550ad7ccd0abf24fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:33 +0000
Subject: [PATCH 18/36] fix: maps share no hidden state between threads

---
 include/nanomap.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 30b8b48..87a3eff 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -48,8 +48,7 @@ namespace nanostl {
 typedef unsigned int priority_type;
 
 // https://ja.wikipedia.org/wiki/Xorshift
-static inline priority_type priority_rand() {
-  static priority_type y = 2463534242;
+static inline priority_type priority_rand(priority_type& y) {
   y = y ^ (y << 13);
   y = y ^ (y >> 17);
   return y = y ^ (y << 5);
@@ -70,7 +69,7 @@ class map {
     value_type val;
     priority_type pri;
     Node* ch[2];  // left, right
-    Node(value_type v) : val(v), pri(priority_rand()) { ch[0] = ch[1] = 0; }
+    Node(value_type v, priority_type p) : val(v), pri(p) { ch[0] = ch[1] = 0; }
     inline Key key() { return val.first; }
     inline T mapped() { return val.second; }
   };
@@ -113,10 +112,13 @@ class map {
   typedef const iterator const_iterator;
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  map() { root = 0; }
+  map() : seed(2463534242) { root = 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  map(const map& rhs) : map() { __copy(&root, rhs.root); }
+  map(const map& rhs) : map() {
+    seed = rhs.seed;
+    __copy(&root, rhs.root);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   map& operator=(const map& rhs) {
@@ -124,6 +126,7 @@ class map {
     Node* t = root;
     root = copied.root;
     copied.root = t;
+    seed = copied.seed;
     return *this;
   }
 
@@ -188,6 +191,7 @@ class map {
 
  private:
   Node* root;
+  priority_type seed;  // of this map only: maps share no state
 
   // b: the direction of rotation
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -203,7 +207,7 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   pair<Node*, pair_iterator_bool> __insert(Node* t, const value_type& x) {
     if (!t) {
-      Node* n = new Node(x);
+      Node* n = new Node(x, priority_rand(seed));
       return make_pair(n, make_pair(iterator(this, n), true));
     }
     Key key = x.first;
@@ -237,8 +241,7 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __copy(Node** to, const Node* t) {
     if (!t) return;
-    *to = new Node(t->val);
-    (*to)->pri = t->pri;
+    *to = new Node(t->val, t->pri);
     __copy(&(*to)->ch[0], t->ch[0]);
     __copy(&(*to)->ch[1], t->ch[1]);
   }
-- 
2.43.0


From ca73292aa305874ad4270551271863ea6e46f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:01 +0000
Subject: [PATCH 19/36] fix: string empty() is true for an empty string

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..8fcc6c1 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -94,7 +94,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From dc54470000493206a9ebcd65348f4f7e18980a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:03 +0000
Subject: [PATCH 20/36] fix: strings made from a range or a count hold exactly
 it and are terminated

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8fcc6c1..8a3a2f4 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -79,11 +79,12 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
-    const char *s = first;
-    while (s && (s <= last)) {
+    const charT *s = first;
+    while (s && (s != last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -91,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 7d85f43b0dc25379d298c77ca62135e4234b3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:04 +0000
Subject: [PATCH 21/36] fix: appending a string to itself, and a string stays
 valid when memory runs out

---
 include/nanostring.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8a3a2f4..4b1c477 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -150,7 +150,8 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string &operator=(const basic_string &s) {
-    this->data_ = s.data_;
+    nanostl::vector<charT> copied(s.data_);
+    this->data_.swap(copied);
     return (*this);
   }
 
@@ -203,22 +204,15 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
-  // remove '\0'
-  if (data_.size() < 1) {
-    // this should not be happen
-  } else {
-    data_.pop_back();
-  }
-
-  const_iterator first = s.data_.begin();
-  const_iterator last = s.data_.end(); // this contains `\0`
+  // `s` may be this string
+  const size_type n = size();
+  const size_type m = s.size();
 
-  for (; first != last; ++first) {
-#ifdef NANOSTL_DEBUG
-    printf("first = %c\n", *first);
-#endif
-    data_.push_back(*first);
+  data_.resize(n + m + 1);
+  for (size_type i = 0; i < m; i++) {
+    data_[n + i] = s.data_[i];
   }
+  data_[n + m] = '\0';
 
 #ifdef NANOSTL_DEBUG
   printf("data_ = %s\n", &data_.at(0));
-- 
2.43.0


From 781e0281ef36a17566010077b56b47c9565312f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:06 +0000
Subject: [PATCH 22/36] fix: to_string of ints of every magnitude

---
 include/nanostring.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 4b1c477..d17619d 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -283,9 +283,10 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];  // +3 for last digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs, which may not fit in int
+  unsigned int n = (value < 0) ? 0u - static_cast<unsigned int>(value) : static_cast<unsigned int>(value);
   int i = 0;
   int base = 10;
   while (n) {
@@ -331,9 +332,10 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];  // +3 for last digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs, which may not fit in int64_t
+  uint64_t n = (value < 0) ? 0u - static_cast<uint64_t>(value) : static_cast<uint64_t>(value);
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 61bc2c9f325122ef8e4b3ac54242903347c1c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:16 +0000
Subject: [PATCH 23/36] fix: strings can be streamed, and included from several
 source files

---
 include/nanoiostream.h | 7 ++++++-
 include/nanostring.h   | 9 ++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..56bf370 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -177,7 +177,7 @@ basic_ostream<_CharT, _Traits>::operator<<(double __n)
 }
 
 template<>
-basic_ostream<char, nanostl::char_traits<char>>&
+inline basic_ostream<char, nanostl::char_traits<char>>&
 basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 {
   // FIXME: Assume const char *
@@ -192,6 +192,11 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 }
 
 
+inline ostream& operator<<(ostream& os, const string& s)
+{
+  return os << static_cast<const void*>(s.c_str());
+}
+
 // --------------------------------------
 
 // Need to link with iostream.cc
diff --git a/include/nanostring.h b/include/nanostring.h
index d17619d..4132f37 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -224,13 +224,8 @@ basic_string<charT> &basic_string<charT>::operator+=(
 
 typedef basic_string<char> string;
 
-// stream
-ostream &operator<<(ostream &os, const string &s)
-{
-  os << s;
-
-  return os;
-}
+// stream (defined in nanoiostream.h)
+ostream &operator<<(ostream &os, const string &s);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value);
-- 
2.43.0


From 2d4d4271ca3e260a8035773b5ff27e5796ccac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:18 +0000
Subject: [PATCH 24/36] fix: clearing a stringstream cannot run out of memory

---
 include/nanosstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanosstream.h b/include/nanosstream.h
index ebf6dca..81dd690 100644
--- a/include/nanosstream.h
+++ b/include/nanosstream.h
@@ -74,7 +74,7 @@ class stringstream
 
     // TODO(LTE): Inherit ios
     void clear() {
-      str_ = string();
+      str_.clear();
     }
 
  private:
-- 
2.43.0


From 6ceaac469646df42ab37e1b5d1f70d10dd8a7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:04 +0000
Subject: [PATCH 25/36] fix: swap is defined, so that swapping optionals,
 variants and pointers links

---
 include/nanotype_traits.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..ce44e32 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1184,14 +1184,24 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(nanostl::move(__x));
+  __x = nanostl::move(__y);
+  __y = nanostl::move(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i != _Np; ++__i) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From 69e17925f1046106c2d31b10f9b51aa295e3fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:57 +0000
Subject: [PATCH 26/36] fix: assigning optionals whose value throws does not
 terminate the program

---
 include/nonstd/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 3c54fef..333403e 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1195,10 +1195,6 @@ public:
 //      && nanostl::is_copy_assignable<T>::value
     )
     operator=( optional const & other )
-        noexcept(
-            std11::is_nothrow_move_assignable<T>::value
-            && std11::is_nothrow_move_constructible<T>::value
-        )
 #else
     optional & operator=( optional const & other )
 #endif
@@ -1219,7 +1215,11 @@ public:
 //      std11::is_move_constructible<T>::value
 //      && nanostl::is_move_assignable<T>::value
     )
-    operator=( optional && other ) noexcept
+    operator=( optional && other )
+        noexcept(
+            std11::is_nothrow_move_assignable<T>::value
+            && std11::is_nothrow_move_constructible<T>::value
+        )
     {
         if      ( (has_value() == true ) && (other.has_value() == false) ) { reset(); }
         else if ( (has_value() == false) && (other.has_value() == true ) ) { initialize( nanostl::move( *other ) ); }
-- 
2.43.0


From b2d9b3dda796912134cbfdbbad72e7df8bc37f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:24 +0000
Subject: [PATCH 27/36] fix: to_string of unsigned values is defined

---
 include/nanostring.h | 88 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 4132f37..1fd6da4 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -360,6 +360,94 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  // naiive implementation of base-10 int to ascii
+  // based on https://www.techiedelight.com/implement-itoa-function-in-c/
+
+  auto myreverse = [](char *buf, int i, int j) {
+    while (i < j) {
+      char tmp = buf[j];
+      buf[j] = buf[i];
+      buf[i] = tmp;
+      i++;
+      j--;
+      //swap(buf[i++], buf[j--]);
+    }
+  };
+
+  char buffer[numeric_limits<unsigned int>::digits10 + 2];  // +2 for last digit and null
+
+  unsigned int n = value;
+  int i = 0;
+  const unsigned int base = 10;
+  while (n) {
+    int r = static_cast<int>(n % base);
+
+    if (r >= 10) {
+      buffer[i++] = 'A' + (r - 10);  //
+    } else {
+      buffer[i++] = '0' + r;
+    }
+
+    n = n / base;
+  }
+
+  if (i == 0) {
+    buffer[i++] = '0';
+  }
+
+  buffer[i] = '\0';
+
+  myreverse(buffer, 0, i - 1);
+
+  return string(buffer);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  // naiive implementation of base-10 int to ascii
+  // based on https://www.techiedelight.com/implement-itoa-function-in-c/
+
+  auto myreverse = [](char *buf, int i, int j) {
+    while (i < j) {
+      char tmp = buf[j];
+      buf[j] = buf[i];
+      buf[i] = tmp;
+      i++;
+      j--;
+      //swap(buf[i++], buf[j--]);
+    }
+  };
+
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +2 for last digit and null
+
+  uint64_t n = value;
+  int i = 0;
+  const unsigned int base = 10;
+  while (n) {
+    int r = static_cast<int>(n % base);
+
+    if (r >= 10) {
+      buffer[i++] = 'A' + (r - 10);  //
+    } else {
+      buffer[i++] = '0' + r;
+    }
+
+    n = n / base;
+  }
+
+  if (i == 0) {
+    buffer[i++] = '0';
+  }
+
+  buffer[i] = '\0';
+
+  myreverse(buffer, 0, i - 1);
+
+  return string(buffer);
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From d32ff1a0618fb397299e73697bcc4f9a8929a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:47 +0000
Subject: [PATCH 28/36] fix: stod returns a double

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1fd6da4..0119956 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -249,7 +249,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -483,7 +483,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 #endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From a2a945aec9418c6dccc188df23591b1028b7d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:16 +0000
Subject: [PATCH 29/36] fix: a tuple can be made from a tuple of other types

The converting constructors passed the source tuple to the element
constructor of tuple_base, which takes one argument per element, so
they failed to compile for every tuple with other than one element.
---
 include/tao/tuple/tuple.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index f4c2633..d038a7b 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -320,6 +320,10 @@ namespace tao
          }
       };
 
+      // selects construction from the elements of another tuple
+      struct from_tuple
+      {};
+
       template< typename, typename... >
       struct tuple_base;
 
@@ -339,6 +343,16 @@ namespace tao
             : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, Us >(), a, nanostl::forward< Us >( us ) )...
          {}
 
+         template< typename... Us >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( from_tuple, const tuple< Us... >& v )
+            : tuple_value< Is, Ts >( tao::get< Is >( v ) )...
+         {}
+
+         template< typename... Us >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( from_tuple, tuple< Us... >&& v )
+            : tuple_value< Is, Ts >( tao::get< Is >( nanostl::move( v ) ) )...
+         {}
+
          tuple_base( const tuple_base& ) = default;
          tuple_base( tuple_base&& ) = default;
          tuple_base& operator=( const tuple_base& v ) = default;
@@ -437,7 +451,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, const Us& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( const tuple< Us... >& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, const Us& >::value... >::value )
-         : base( v )
+         : base( impl::from_tuple(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -445,7 +459,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, Us&& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( tuple< Us... >&& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, Us&& >::value... >::value )
-         : base( nanostl::move( v ) )
+         : base( impl::from_tuple(), nanostl::move( v ) )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
-- 
2.43.0


From b2e1e81cf0dbd300960b19808105ea4e2d9d7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:16 +0000
Subject: [PATCH 30/36] fix: a default-constructed pair value-initializes its
 elements

---
 include/nanoutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoutility.h b/include/nanoutility.h
index b5c75ee..67935eb 100644
--- a/include/nanoutility.h
+++ b/include/nanoutility.h
@@ -34,7 +34,7 @@ template <class T1, class T2>
 struct pair {
   T1 first;
   T2 second;
-  pair() {}
+  pair() : first(), second() {}
   pair(const T1& a, const T2& b) : first(a), second(b) {}
 };
 
-- 
2.43.0


From 943edf6c36e3866cd854ae61fddb89c537bed3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:00:14 +0000
Subject: [PATCH 31/36] fix: variant move assignment is noexcept only if moving
 cannot throw

It constructs when the alternatives differ, so a throwing move
constructor ended the program where noexcept is enabled.
---
 include/nonstd/variant.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1920bc7..a6f9946 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -1350,21 +1350,37 @@ public:
 #if variant_CPP11_OR_GREATER
 
     variant & operator=( variant && other ) noexcept(
+        nanostl::is_nothrow_move_constructible<T0>::value &&
         nanostl::is_nothrow_move_assignable<T0>::value &&
+        nanostl::is_nothrow_move_constructible<T1>::value &&
         nanostl::is_nothrow_move_assignable<T1>::value &&
+        nanostl::is_nothrow_move_constructible<T2>::value &&
         nanostl::is_nothrow_move_assignable<T2>::value &&
+        nanostl::is_nothrow_move_constructible<T3>::value &&
         nanostl::is_nothrow_move_assignable<T3>::value &&
+        nanostl::is_nothrow_move_constructible<T4>::value &&
         nanostl::is_nothrow_move_assignable<T4>::value &&
+        nanostl::is_nothrow_move_constructible<T5>::value &&
         nanostl::is_nothrow_move_assignable<T5>::value &&
+        nanostl::is_nothrow_move_constructible<T6>::value &&
         nanostl::is_nothrow_move_assignable<T6>::value &&
+        nanostl::is_nothrow_move_constructible<T7>::value &&
         nanostl::is_nothrow_move_assignable<T7>::value &&
+        nanostl::is_nothrow_move_constructible<T8>::value &&
         nanostl::is_nothrow_move_assignable<T8>::value &&
+        nanostl::is_nothrow_move_constructible<T9>::value &&
         nanostl::is_nothrow_move_assignable<T9>::value &&
+        nanostl::is_nothrow_move_constructible<T10>::value &&
         nanostl::is_nothrow_move_assignable<T10>::value &&
+        nanostl::is_nothrow_move_constructible<T11>::value &&
         nanostl::is_nothrow_move_assignable<T11>::value &&
+        nanostl::is_nothrow_move_constructible<T12>::value &&
         nanostl::is_nothrow_move_assignable<T12>::value &&
+        nanostl::is_nothrow_move_constructible<T13>::value &&
         nanostl::is_nothrow_move_assignable<T13>::value &&
+        nanostl::is_nothrow_move_constructible<T14>::value &&
         nanostl::is_nothrow_move_assignable<T14>::value &&
+        nanostl::is_nothrow_move_constructible<T15>::value &&
         nanostl::is_nothrow_move_assignable<T15>::value)
         {
         return move_assign( nanostl::move( other ) );
-- 
2.43.0


From 0ddf84e6d1c7cb4b9f0666f70d830ce969d50eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:07 +0000
Subject: [PATCH 32/36] fix: string comparison goes on after a NUL character

---
 include/nanostring.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 0119956..cd6a398 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,11 +133,17 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    return compare_(&data_[0], size(), &str[0], str.size());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  int compare(const charT *s) const { return compare_(&data_[0], s); }
+  int compare(const charT *s) const {
+    size_type m = 0;
+    while (s[m] != '\0') {
+      m++;
+    }
+    return compare_(&data_[0], size(), s, m);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator erase(iterator pos) { return data_.erase(pos); }
@@ -182,10 +188,17 @@ class basic_string {
  private:
   nanostl::vector<charT> data_;
 
-  inline int compare_(const charT *p, const charT *q) const {
-    while (*p && (*p == *q)) {
+  // '\0' may be one of the `n` or `m` characters
+  inline int compare_(const charT *p, size_type n, const charT *q, size_type m) const {
+    while (n && m && (*p == *q)) {
       p++;
       q++;
+      n--;
+      m--;
+    }
+
+    if (!n || !m) {
+      return n ? 1 : (m ? -1 : 0);
     }
 
     return *reinterpret_cast<const unsigned char *>(p) -
-- 
2.43.0


From c19714dcdaff595d7a5669b685cbe25b328eb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:07 +0000
Subject: [PATCH 33/36] fix: a stream writes text with NUL characters
 completely

---
 include/nanoiostream.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 56bf370..142ea8e 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -192,9 +192,20 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 }
 
 
+template<>
+inline basic_ostream<char, nanostl::char_traits<char>>&
+basic_ostream<char, nanostl::char_traits<char>>::write(const char *__s, streamsize __n)
+{
+  _ss << nanostl::string(__s, static_cast<unsigned long long>(__n));
+
+  return *this;
+}
+
+
 inline ostream& operator<<(ostream& os, const string& s)
 {
-  return os << static_cast<const void*>(s.c_str());
+  // `s` may have '\0' in it
+  return os.write(s.c_str(), static_cast<streamsize>(s.size()));
 }
 
 // --------------------------------------
@@ -236,7 +247,7 @@ ios_base::~ios_base() {
 
 template<>
 ostream& ostream::flush() {
-  printf("%s", _ss.str().c_str());
+  fwrite(_ss.str().c_str(), 1, _ss.str().size(), stdout);
 
   _ss.clear();
 
-- 
2.43.0


From 5ea890f78a3ca07e1a9908df61e16cc0357005aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:28 +0000
Subject: [PATCH 34/36] fix: value_or of an rvalue optional copied the value
 when compiled with Clang

---
 include/nonstd/optional.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 333403e..9804627 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1477,11 +1477,7 @@ public:
     template< typename U >
     optional_constexpr14 value_type value_or( U && v ) optional_refref_qual
     {
-#if optional_COMPILER_CLANG_VERSION
-        return has_value() ? /*nanostl::move*/( contained.value() ) : static_cast<T>(nanostl::forward<U>( v ) );
-#else
         return has_value() ? nanostl::move( contained.value() ) : static_cast<T>(nanostl::forward<U>( v ) );
-#endif
     }
 
 #else
-- 
2.43.0


From f0157fa39957f95e12f31cfeebe01b4ceefbfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:51 +0000
Subject: [PATCH 35/36] fix: stof was declared but its definition was disabled

The declaration and the README promise stof (using ryu_parse), so a program
that calls it could not be linked.
---
 include/nanostring.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index cd6a398..2be7008 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -478,7 +478,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -492,8 +491,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 double stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From b7abf70fbc08d56d134a287f7cf617f59f26a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:32:11 +0000
Subject: [PATCH 36/36] fix: visit of three or more variants handed the visitor
 copies of all but the first two

The further variants were taken by value, so a visitor that returned or kept a
reference to what it was given was left with a dangling one, and variants that
cannot be copied could not be visited together.
---
 include/nonstd/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index a6f9946..358bf1f 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2147,7 +2147,7 @@ struct VisitorApplicator
 
 #if variant_CPP11_OR_GREATER
     template<typename Visitor, typename V1, typename V2, typename ... V>
-    static R apply(const Visitor& v, const V1& arg1, const V2& arg2, const V ... args)
+    static R apply(const Visitor& v, const V1& arg1, const V2& arg2, const V& ... args)
     {
         typedef VisitorUnwrapper<R, Visitor, V1> Unwrapper;
         Unwrapper unwrapper(v, arg1);
-- 
2.43.0

