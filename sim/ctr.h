// Interface between the container driver (compiled with nanostl headers,
// instrumented as code under test) and the container scenarios.
#pragma once
extern "C" {
// ---- harness side (scn_ctr.cc), used by the element types
void sim_c_obj_ctor(const void *p);
void sim_c_obj_dtor(const void *p);
void sim_c_obj_use(const void *p);
int sim_c_elem_fault(void);          // 1: the element operation must throw
void sim_c_count(int what);          // element operation counters
void sim_c_deleted(const void *p, long deleter);
int sim_c_reenter(void);
enum { CNT_DEFAULT, CNT_COPY, CNT_ASSIGN, CNT_CMP, CNT_MCOPY, CNT_MOVE, CNT_N };

// ---- result codes of driver calls
enum { RC_OK = 0, RC_ALLOC = 1, RC_ELEM = 2, RC_OTHER = 3 };

// ---- sequences
enum { VT_ELEM, VT_INT, VT_STR, VT_VEC, VA_ELEM, VA_DBL, VT_BYTE, VT_N };
enum { V_CTOR, V_COPY, V_CTORN, V_DTOR, V_PUSH, V_PUSHSELF, V_RESIZE, V_POP, V_ERASE, V_CLEAR, V_ASSIGN,
       V_EQ, V_SWAP, V_SET, V_FILL, V_MAXEL, V_SIN, V_HUGE, V_NOPS };
unsigned long drv_vec_sizeof(int ty);
int drv_vec_op(int ty, int op, void *o, void *p, long a, long b, long *out);
// copies the contents into buf; how: which accessors are used
int drv_vec_read(int ty, void *o, int how, long *buf, long max, long *size, long *cap, long *empty, void **data);

// ---- maps
enum { MT_ELEM, MT_INT, MT_STR, MT_N };
enum { M_CTOR, M_COPY, M_DTOR, M_INSERT, M_INDEX, M_SET, M_FIND, M_UPPER, M_EQ, M_EMPTY, M_NOPS };
unsigned long drv_map_sizeof(int ty);
int drv_map_op(int ty, int op, void *o, void *p, long a, long b, long *out);
int drv_map_read(int ty, void *o, long *keys, long *vals, long max, long *n, const void **nodes);
int drv_map_peek(int ty, const void *node, long *k, long *v);  // through a pointer to an element

// ---- strings
enum { S_CTOR, S_CSTR, S_RANGE, S_COUNT, S_COPY, S_DTOR, S_APPEND, S_PLUS, S_EQ, S_CLEAR, S_ERASE, S_SET, S_CMP,
       S_CMPC, S_TOSTR, S_TOSTR64, SS_CTOR, SS_DTOR, SS_PUT, SS_CLEAR, SS_MOVE, SS_STR,
       S_TOSTRU, S_TOSTRU64, S_TOSTRF, S_TOSTRD, S_STOD, S_STOF, S_NOPS };
unsigned long drv_str_sizeof(int stream);
int drv_str_op(int op, void *o, void *p, const char *txt, long a, long b, long *out);
int drv_str_read(int stream, void *o, int how, char *buf, long max, long *size, long *len, long *empty);

// ---- unique_ptr
enum { U_CTOR, U_CTORP, U_MOVE, U_MOVEASSIGN, U_RESET, U_RELEASE, U_SWAP, U_DTOR, U_NULL, U_CONV, U_CONVASSIGN, U_CMP, U_NOPS };
enum { UT_DEL, UT_DEF, UT_ARR, UT_ARRD, UT_FN, UT_REF, UT_N };
unsigned long drv_uptr_sizeof(int ty);
void *drv_uptr_refs(long *ids);
void drv_uptr_norefs(void *d);
int drv_uptr_op(int ty, int op, void *o, void *p, long a, long b, long *out);
void drv_uptr_get(int ty, void *o, const void **p, long *val, long *deleter, int *nonnull);
void drv_uptr_own(int ty, void *o, void *owner);
void drv_obj_delete(int ty, const void *p);

// ---- optional
enum { O_CTOR, O_VALUE, O_COPY, O_MOVE, O_DTOR, O_ASSIGN, O_MOVEASSIGN, O_SETVAL, O_NULL, O_EMPLACE, O_RESET, O_SWAP,
       O_VALUEOR, O_CMP, O_CONV, O_CONVASSIGN, O_VALUEOF, O_MOVEOUT, O_OWN, O_NOPS };
enum { OT_ELEM, OT_STR, OT_INT, OT_MOVE, OT_MC, OT_MA, OT_SW, OT_ODD, OT_N };
unsigned long drv_opt_sizeof(int ty);
int drv_opt_op(int ty, int op, void *o, void *p, long a, long b, long *out);
void drv_opt_get(int ty, void *o, int *has, long *val);

// ---- variant<Elem, int, string, Elem2>
enum { W_CTOR, W_VALUE, W_COPY, W_MOVE, W_DTOR, W_ASSIGN, W_MOVEASSIGN, W_SETVAL, W_EMPLACE, W_SWAP, W_CMP, W_MOVEOUT, W_VISIT, W_OWN, W_NOPS };
enum { WT_4, WT_16, WT_MC, WT_MA, WT_N };
unsigned long drv_var_sizeof(int ty);
int drv_var_op(int ty, int op, void *o, void *p, long a, long b, long how, long *out);
void drv_var_get(int ty, void *o, long *index, long *val, int *valueless);

// ---- tuple and pair; element i of a tuple made from v is v+i
enum { T_CTOR, T_VALUES, T_COPY, T_MOVE, T_CONV, T_DTOR, T_ASSIGN, T_MOVEASSIGN, T_CONVASSIGN, T_SETONE, T_SWAP, T_CMP, T_TIE, T_FWD, T_CAT, T_MOVEOUT, T_NOPS };
enum { TT_3, TT_STR, TT_EMPTY, TT_1, TT_5, TT_ODD, TT_PAIR, TT_PAIRM, TT_PAIRO, TT_N };
unsigned long drv_tup_sizeof(int ty);
int drv_tup_op(int ty, int op, void *o, void *p, long a, long b, long *out);
void drv_tup_get(int ty, void *o, long *vals);

// ---- algorithms over one sequence of numbers that also carry an id
enum { A_FILL, A_FILLPAR, A_MAXEL, A_MIN, A_MAX, A_DIST, A_SET, A_SIN, A_NOPS };
enum { AT_ARR, AT_FWD, AT_VEC, AT_VAL, AT_BYTE, AT_CHAR, AT_INT, AT_DBL, AT_N };
unsigned long drv_alg_sizeof(int ty, long n);
long drv_alg_narrow(int ty, long v);  // v as an element of that type
void drv_alg_make(int ty, void *o, long n);
void drv_alg_drop(int ty, void *o, long n);
void drv_alg_set(int ty, void *o, long i, long v, long id);
void drv_alg_get(int ty, void *o, long i, long *v, long *id);
int drv_alg_op(int ty, void *o, int op, long i, long j, long v, long id, long *out);
}
