// Plain (non-atomic) accesses to shared data by client code, compiled with the
// race-detector instrumentation so that missing happens-before edges show.
extern "C" {
__attribute__((noinline)) void drv_write(long *p, long v) { *p = v; }
__attribute__((noinline)) long drv_read(long *p) { return *p; }
__attribute__((noinline)) void drv_incr(long *p) {
  long v = *p;
  *p = v + 1;
}
}
