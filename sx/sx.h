// Harness API. Values returned by sx_* are symbolic: the harness then holds for every value in the stated range.
#ifndef SX_H
#define SX_H
#include <cstdint>
#include <cstddef>
extern "C" {
int64_t __sx_api_int(const char* name, int64_t lo, int64_t hi);   // symbolic, lo <= v <= hi
double __sx_api_double(const char* name);                          // symbolic, all 2^64 bit patterns
uint8_t __sx_api_bool(const char* name);
int64_t __sx_api_choose(const char* name, int64_t n);              // symbolic in [0,n), resolved by case split
void __sx_api_assume(bool c);
void __sx_api_assert(bool c, const char* msg);
void __sx_api_fail(const char* msg) __attribute__((noreturn));
void __sx_api_real(int64_t on);
double __sx_api_real_var(const char* name, double lo, double hi, double dflt);
void __sx_api_near(double a, double b, const char* msg);
void __sx_api_reach(const char* label);
bool __sx_api_is_symbolic_d(double v);
bool __sx_api_is_symbolic_i(int64_t v);
void __sx_api_known(const char* key);                              // subsequent failure on this path is the listed known finding
void __sx_api_note(const char* msg);
int64_t __sx_api_tier();                                           // 0 quick, 1 thorough
int64_t __sx_api_param(const char* name, int64_t dflt);
int64_t __sx_api_save_d(double v); double __sx_api_load_d(int64_t id);
int64_t __sx_api_save_i(int64_t v); int64_t __sx_api_load_i(int64_t id);
int64_t __sx_api_replaying();
void __sx_api_text(int64_t on); int64_t __sx_api_text_on(); void __sx_api_token(int64_t id, char* out);
int64_t __sx_api_freeze_i(int64_t v); double __sx_api_freeze_d(double v); void __sx_api_format_i(int64_t v, bool pos, char* out);
}
static inline int64_t sx_int(const char* n, int64_t lo, int64_t hi) { return __sx_api_int(n, lo, hi); }
static inline double sx_double(const char* n) { return __sx_api_double(n); }
static inline bool sx_bool(const char* n) { return (__sx_api_bool(n) & 1) != 0; }
static inline int64_t sx_choose(const char* n, int64_t k) { return __sx_api_choose(n, k); }
static inline void sx_text(bool on) { __sx_api_text(on); }                   // symbolic numbers survive printing and parsing
static inline void sx_assume(bool c) { __sx_api_assume(c); }
static inline void sx_reach(const char* l) { __sx_api_reach(l); }
static inline bool sx_thorough() { return __sx_api_tier() != 0; }
static inline int64_t sx_bound(int64_t quick, int64_t thorough) { return sx_thorough() ? thorough : quick; }
// real arithmetic: the queries of this harness read every double as a real number (no rounding, no NaN, no infinity);
// sx_near(a,b,m) asserts |a-b| <= 1e-6*max(1,|a|,|b|). Variables: lo <= v <= hi; lo == hi pins the value.
static inline void sx_real() { __sx_api_real(1); }
static inline double sx_real_var(const char* n, double lo, double hi, double dflt) { return __sx_api_real_var(n, lo, hi, dflt); }
#define sx_near(a, b, m) __sx_api_near((a), (b), __FILE__ ":" SX_STR(__LINE__) ": " m)
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c) __sx_api_assert((c), __FILE__ ":" SX_STR(__LINE__) ": " #c)
#define sx_assert_msg(c, m) __sx_api_assert((c), __FILE__ ":" SX_STR(__LINE__) ": " m)
#define sx_fail(m) __sx_api_fail(__FILE__ ":" SX_STR(__LINE__) ": " m)
// harness registration
struct SxHarness { const char* name; void (*fn)(); SxHarness* next; };
void sx_register(SxHarness*);
#define SX_HARNESS(id) static void sxh_##id(); static SxHarness sxhs_##id{#id, sxh_##id, nullptr}; \
  __attribute__((constructor)) static void sxr_##id() { sx_register(&sxhs_##id); } static void sxh_##id()
#endif
