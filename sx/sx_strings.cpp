// Linked into every harness binary and instrumented like the code under test: the std::string members that libstdc++
// otherwise provides from its (uninstrumented) shared library, and the number formatting stand-ins.
#include <string>
#include <ostream>
#include "sx.h"
template class std::basic_string<char>;
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(const std::string&, const std::string&);
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(const char*, const std::string&);
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(char, const std::string&);


// Number formatting. Inside sx_text(true) a symbolic number becomes a token that the strto* models turn back into the
// same expression, i.e. "printing and parsing a number in full precision is the identity" is assumed for symbolic
// values. Outside, the text (error messages) is produced from the concrete value.
#define TOSTR(nm, T) extern "C" __attribute__((noinline)) void sxh_tostr_##nm(std::string* r, T v) { \
    char t[40]; \
    if (__sx_api_is_symbolic_i((int64_t)v) && __sx_api_text_on()) { __sx_api_token(__sx_api_save_i((int64_t)v), t); new (r) std::string(t); return; } \
    __sx_api_format_i(__sx_api_freeze_i((int64_t)v), v > 0, t); new (r) std::string(t); }
TOSTR(i, int) TOSTR(l, long) TOSTR(x, long long) TOSTR(j, unsigned) TOSTR(m, unsigned long) TOSTR(y, unsigned long long)
extern "C" std::ostream* sxr_insert_double(std::ostream*, double) __asm__("_ZNSo9_M_insertIdEERSoT_");
extern "C" std::ostream* __sxr_insert_double(std::ostream* o, double v) { return sxr_insert_double(o, v); }
extern "C" __attribute__((noinline)) std::ostream* sxh_insert_double(std::ostream* o, double v) {
  if (__sx_api_is_symbolic_d(v) && __sx_api_text_on()) {
    if (o->precision() >= 17) { char t[40]; __sx_api_token(__sx_api_save_d(v), t); *o << t; return o; }
    if (v == 0.30000000000000004 || v == 1234567.8901234567) __sx_api_reach("lossy number formatting");
  }
  return __sxr_insert_double(o, __sx_api_freeze_d(v));
}
