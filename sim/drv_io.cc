// Stream driver: the real nanostl::ostream, compiled with Clang and instrumented like the code under test.
#define NANOSTL_IMPLEMENTATION
#include "nanoiostream.h"
#include "io.h"

namespace {
struct At { void *p; };
typedef nanostl::string Str;
typedef nanostl::ostream Os;
}
inline void *operator new(__SIZE_TYPE__, At a) noexcept { return a.p; }

extern "C" {
unsigned long drv_io_sizeof(int what) { return what ? sizeof(nanostl::string) : sizeof(nanostl::ostream); }
void drv_io_destroy(int what, void *o) {
  if (what) ((nanostl::string *)o)->~Str();
  else ((nanostl::ostream *)o)->~Os();
}
void drv_io_number(int single, long bits, char *buf) {
  float f;
  double d;
  int w = (int)bits;
  __builtin_memcpy((void *)&f, (void *)&w, 4);
  __builtin_memcpy((void *)&d, (void *)&bits, 8);
  nanostl::string s = single ? nanostl::to_string(f) : nanostl::to_string(d);
  const char *c = s.c_str();
  unsigned long i = 0;
  for (; i < s.size() && i < 60; i++) buf[i] = c[i];
  buf[i] = 0;
}
int drv_io_op(int op, void *o, const char *txt, long v, void *str, int *self) {
  nanostl::ostream &os = *(nanostl::ostream *)o;
  nanostl::ostream *r = &os;
  float f;
  double d;
  int w = (int)v;
  __builtin_memcpy((void *)&f, (void *)&w, 4);
  __builtin_memcpy((void *)&d, (void *)&v, 8);
  try {
    switch (op) {
      case IO_CTOR: new (At{o}) nanostl::ostream(); break;
      case IO_STRCTOR: new (At{str}) nanostl::string(txt, (unsigned long)v); break;
      case IO_BOOL: r = &(os << (v != 0)); break;
      case IO_SHORT: r = &(os << (short)v); break;
      case IO_USHORT: r = &(os << (unsigned short)v); break;
      case IO_INT: r = &(os << (int)v); break;
      case IO_UINT: r = &(os << (unsigned)v); break;
      case IO_LL: r = &(os << (long long)v); break;
      case IO_ULL: r = &(os << (unsigned long long)v); break;
      case IO_FLOAT: r = &(os << f); break;
      case IO_DOUBLE: r = &(os << d); break;
      case IO_CSTR: r = &(os << txt); break;
      case IO_STR: r = &(os << *(const nanostl::string *)str); break;
      case IO_CHAIN: r = &(os << (int)v << *(const nanostl::string *)str << txt << (unsigned)v); break;
      case IO_FLUSH: r = &os.flush(); break;
    }
  } catch (...) {
    return 1;
  }
  *self = r == &os;
  return 0;
}
}
