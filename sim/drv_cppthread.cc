#include "nanothread.h"
extern "C" {
int drv_hw_concurrency() { return (int)nanostl::thread::hardware_concurrency(); }
int drv_cppthread_inert() {
  nanostl::thread t;
  int r = 0;
  if (t.joinable()) r |= 1;
  if (t.native_handle()) r |= 2;
  t.join();
  if (t.joinable()) r |= 4;
  return r;
}
}
