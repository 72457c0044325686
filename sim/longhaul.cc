// Long-haul history for the queue: one thread alternates produce and consume for
// more than 2^31 (or 2^32) elements without the queue ever being empty or full,
// so that any position or count kept in an int overflows. The library's real
// source is included; the __sync builtins it uses are replaced by their plain
// single-threaded meaning (this program has one thread), for speed.
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
template <class T, class U> static inline T lh_faa(T *p, U v) { T o = *p; *p = (T)((uint64_t)o + (uint64_t)(int64_t)v); return o; }
template <class T> static inline T *lh_faa(T **p, int v) { T *o = *p; *p = (T *)((char *)o + v); return o; }
template <class T, class U> static inline T lh_fas(T *p, U v) { T o = *p; *p = (T)((uint64_t)o - (uint64_t)(int64_t)v); return o; }
template <class T, class U> static inline T lh_tas(T *p, U v) { T o = *p; *p = (T)v; return o; }
template <class T, class U, class W> static inline T lh_cas(T *p, U e, W d) { T o = *p; if (o == (T)e) *p = (T)d; return o; }
#define __sync_fetch_and_add lh_faa
#define __sync_fetch_and_sub lh_fas
#define __sync_lock_test_and_set lh_tas
#define __sync_val_compare_and_swap lh_cas
#define __sync_lock_release(p) (*(p) = 0)
#define __sync_synchronize() ((void)0)
#ifndef NDEBUG
#define NDEBUG
#endif
#define THREAD_IMPLEMENTATION
#include "libs_thread.h"

int main(int argc, char **argv) {
  int size = argc > 1 ? atoi(argv[1]) : 3;
  uint64_t n = argc > 2 ? strtoull(argv[2], 0, 10) : (1ull << 31) + 100;
  double cap = argc > 3 ? atof(argv[3]) : 60;
  void **slots = (void **)calloc(size + 2, sizeof(void *));
  slots[0] = (void *)(uintptr_t)0x5a5a;
  slots[size + 1] = (void *)(uintptr_t)0xa5a5;
  thread_queue_t q;
  thread_queue_init(&q, size, slots + 1, 0);
  uint64_t in = 0, out = 0;
  if (argc > 4 && atoi(argv[4])) {  // bursts: fill completely, empty completely, also partly, at every alignment
    uint64_t x = 88172645463325252ull;
    while (out < n) {
      x ^= x << 13, x ^= x >> 7, x ^= x << 17;
      uint64_t want = x & 1 ? (uint64_t)size : 1 + (x >> 8) % (uint64_t)size;
      while (in - out < want)
        if (!thread_queue_produce(&q, (void *)(uintptr_t)++in, 0)) { printf("BAD produce refused at %llu elements of %d\n", (unsigned long long)(in - 1 - out), size); return 1; }
      if (thread_queue_count(&q) != (int)(in - out)) { printf("BAD count %d, expected %llu\n", thread_queue_count(&q), (unsigned long long)(in - out)); return 1; }
      if (in - out == (uint64_t)size && thread_queue_produce(&q, (void *)(uintptr_t)1, 0)) { printf("BAD produce accepted element %d of a full queue of %d\n", size + 1, size); return 1; }
      uint64_t keep = x & 2 ? 0 : (x >> 40) % (in - out);
      while (in - out > keep) {
        void *v = thread_queue_consume(&q, 0);
        if ((uint64_t)(uintptr_t)v != ++out) { printf("BAD element %llu came out as %llu (size %d)\n", (unsigned long long)out, (unsigned long long)(uintptr_t)v, size); return 1; }
      }
      if (in == out && thread_queue_consume(&q, 0)) { printf("BAD an empty queue of %d delivered\n", size); return 1; }
      if (slots[0] != (void *)(uintptr_t)0x5a5a || slots[size + 1] != (void *)(uintptr_t)0xa5a5) { printf("BAD slot array overrun\n"); return 1; }
    }
    printf("OK %llu\n", (unsigned long long)out);
    return 0;
  }
  int fill = size > 2 ? 1 + size / 2 : 1;
  if (fill >= size && size > 1) fill = size - 1;
  for (int i = 0; i < fill; i++)
    if (!thread_queue_produce(&q, (void *)(uintptr_t)++in, 0)) { printf("BAD produce refused at %llu\n", (unsigned long long)in); return 1; }
  struct timespec a, b;
  clock_gettime(CLOCK_MONOTONIC, &a);
  while (out < n) {
    for (int k = 0; k < 1 << 20; k++) {
      if (size > fill) {
        if (!thread_queue_produce(&q, (void *)(uintptr_t)++in, 0)) { printf("BAD produce refused after %llu elements (fill %d of %d)\n", (unsigned long long)in, fill, size); return 1; }
      }
      void *v = thread_queue_consume(&q, 0);
      if ((uint64_t)(uintptr_t)v != ++out) {
        printf("BAD element %llu came out as %llu (size %d)\n", (unsigned long long)out, (unsigned long long)(uintptr_t)v, size);
        return 1;
      }
      if (size <= fill && !thread_queue_produce(&q, (void *)(uintptr_t)++in, 0)) { printf("BAD produce refused after %llu elements\n", (unsigned long long)in); return 1; }
    }
    if (thread_queue_count(&q) != fill) { printf("BAD count %d, expected %d after %llu elements\n", thread_queue_count(&q), fill, (unsigned long long)out); return 1; }
    if (slots[0] != (void *)(uintptr_t)0x5a5a || slots[size + 1] != (void *)(uintptr_t)0xa5a5) { printf("BAD slot array overrun\n"); return 1; }
    clock_gettime(CLOCK_MONOTONIC, &b);
    if (b.tv_sec - a.tv_sec > cap) { printf("CAP %llu\n", (unsigned long long)out); return 0; }
  }
  printf("OK %llu\n", (unsigned long long)out);
  return 0;
}
