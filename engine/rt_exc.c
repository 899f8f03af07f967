// libstdc++ externals with an ABI-compatible layout: exception classes (vptr + message pointer).
#include <stddef.h>
extern void _ZdlPv(void*);
extern const char _ZTISt9exception[], _ZTISt11logic_error[], _ZTISt12out_of_range[], _ZTISt12length_error[], _ZTISt16invalid_argument[], _ZTISt12domain_error[], _ZTISt13runtime_error[], _ZTISt11range_error[], _ZTISt14overflow_error[], _ZTISt9bad_alloc[];
struct exc { const void* const* vt; const char* msg; };
static void dtor_(struct exc* e) { (void)e; }
static void ddtor_(struct exc* e) { _ZdlPv(e); }
static const char* what_(struct exc* e) { return e->msg; }
static const char* what0_(struct exc* e) { (void)e; return "std::exception"; }
#define CLS(N, W) const void* const _ZTV##N[5] = { 0, _ZTI##N, (void*)dtor_, (void*)ddtor_, (void*)W };
CLS(St9exception, what0_) CLS(St9bad_alloc, what0_)
void _ZNSt9exceptionD1Ev(struct exc* e) { (void)e; } void _ZNSt9exceptionD2Ev(struct exc* e) { (void)e; } void _ZNSt9exceptionD0Ev(struct exc* e) { _ZdlPv(e); }
const char* _ZNKSt9exception4whatEv(struct exc* e) { return what0_(e); }
void _ZNSt9bad_allocD1Ev(struct exc* e) { (void)e; } void _ZNSt9bad_allocD2Ev(struct exc* e) { (void)e; } void _ZNSt9bad_allocD0Ev(struct exc* e) { _ZdlPv(e); }
#define STR_ARG const char* const* s /* std::string: data pointer first */
#define FULL(N) CLS(N, what_) \
  void _ZN##N##C1EPKc(struct exc* e, const char* m) { e->vt = _ZTV##N + 2; e->msg = m; } \
  void _ZN##N##C2EPKc(struct exc* e, const char* m) { e->vt = _ZTV##N + 2; e->msg = m; } \
  void _ZN##N##C1ERKS_(struct exc* e, const struct exc* o) { e->vt = _ZTV##N + 2; e->msg = o->msg; } \
  void _ZN##N##C2ERKS_(struct exc* e, const struct exc* o) { e->vt = _ZTV##N + 2; e->msg = o->msg; } \
  void _ZN##N##C1EOS_(struct exc* e, const struct exc* o) { e->vt = _ZTV##N + 2; e->msg = o->msg; } \
  void _ZN##N##C2EOS_(struct exc* e, const struct exc* o) { e->vt = _ZTV##N + 2; e->msg = o->msg; } \
  void _ZN##N##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(struct exc* e, STR_ARG) { e->vt = _ZTV##N + 2; (void)s; e->msg = "?"; } \
  void _ZN##N##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(struct exc* e, STR_ARG) { e->vt = _ZTV##N + 2; (void)s; e->msg = "?"; } \
  void _ZN##N##D1Ev(struct exc* e) { (void)e; } void _ZN##N##D2Ev(struct exc* e) { (void)e; } void _ZN##N##D0Ev(struct exc* e) { _ZdlPv(e); }
FULL(St11logic_error) FULL(St12out_of_range) FULL(St12length_error) FULL(St16invalid_argument) FULL(St12domain_error) FULL(St13runtime_error) FULL(St11range_error) FULL(St14overflow_error)
const char* _ZNKSt11logic_error4whatEv(struct exc* e) { return e->msg; }
const char* _ZNKSt13runtime_error4whatEv(struct exc* e) { return e->msg; }
extern void* __cxa_allocate_exception(size_t); extern void __cxa_throw(void*, const void*, void (*)(void*)) __attribute__((noreturn));
#define THROW(FN, N, ARGS, M) void FN ARGS { struct exc* e = __cxa_allocate_exception(sizeof(struct exc)); e->vt = _ZTV##N + 2; e->msg = M; __cxa_throw(e, _ZTI##N, (void (*)(void*))dtor_); }
THROW(_ZSt20__throw_out_of_rangePKc, St12out_of_range, (const char* m), m)
THROW(_ZSt24__throw_out_of_range_fmtPKcz, St12out_of_range, (const char* m, ...), m)
THROW(_ZSt20__throw_length_errorPKc, St12length_error, (const char* m), m)
THROW(_ZSt19__throw_logic_errorPKc, St11logic_error, (const char* m), m)
THROW(_ZSt24__throw_invalid_argumentPKc, St16invalid_argument, (const char* m), m)
THROW(_ZSt20__throw_domain_errorPKc, St12domain_error, (const char* m), m)
THROW(_ZSt21__throw_runtime_errorPKc, St13runtime_error, (const char* m), m)
THROW(_ZSt20__throw_range_errorPKc, St11range_error, (const char* m), m)
THROW(_ZSt17__throw_bad_allocv, St9bad_alloc, (void), "std::bad_alloc")
