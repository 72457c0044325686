// Interface between the stream driver and its scenario.
#pragma once
extern "C" {
enum { IO_CTOR, IO_STRCTOR, IO_BOOL, IO_SHORT, IO_USHORT, IO_INT, IO_UINT, IO_LL, IO_ULL, IO_FLOAT, IO_DOUBLE, IO_CSTR, IO_STR, IO_CHAIN, IO_FLUSH, IO_NOPS };
unsigned long drv_io_sizeof(int what);
void drv_io_number(int single, long bits, char *buf);  // to_string
void drv_io_destroy(int what, void *o);
int drv_io_op(int op, void *o, const char *txt, long v, void *str, int *self);
}
