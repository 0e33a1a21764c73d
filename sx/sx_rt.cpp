// Runtime of the symbolic executor: expressions, shadow memory, path decisions, solving and path exploration.
#include "sx.h"
#include "sx_ops.h"
#include "sx_poly.h"
#include <z3.h>
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <new>
#include <cerrno>
#include <exception>
#include <typeinfo>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>

static const int MAXV = 512;
typedef std::bitset<MAXV> VarSet;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ memory of the code under test (never reused)
static char *g_ar = nullptr, *g_arEnd = nullptr, *g_arCur = nullptr;
static const size_t ARENA = 3UL << 30;
static thread_local bool t_engine = false;     // set while the engine itself runs
static bool g_run = false;
[[noreturn]] static void crashed(const char* why);
struct Eng { bool old; Eng() : old(t_engine) { t_engine = true; } ~Eng() { t_engine = old; } };
struct Hdr { uint64_t size, magic; };
static pthread_mutex_t g_arMx = PTHREAD_MUTEX_INITIALIZER;
static void* rtAlloc(size_t n) {
  if (!g_run || t_engine) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  if (n > (512UL << 20)) throw std::bad_alloc();
  pthread_mutex_lock(&g_arMx);
  size_t room = (n + 15) / 16 * 16 + 16, k = room + sizeof(Hdr);   // at least 16 guard bytes behind every block
  if (g_arCur + k > g_arEnd) { pthread_mutex_unlock(&g_arMx); crashed("memory exhausted"); }
  Hdr* h = (Hdr*)g_arCur; g_arCur += k;
  pthread_mutex_unlock(&g_arMx);
  h->size = n; h->magic = 0xA110C8ED;
  memset(h + 1, 0xCD, n); memset((char*)(h + 1) + n, 0xFD, room - n);
  return h + 1;
}
static void rtFree(void* p) {
  if (!p) return;
  if ((char*)p >= g_ar && (char*)p < g_arEnd) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == 0xDEADF9EE) crashed("double free");
    if (h->magic != 0xA110C8ED) crashed("free of an invalid pointer");
    for (char *q = (char*)p + h->size, *e = (char*)p + (h->size + 15) / 16 * 16 + 16; q < e; ++q) if (*q != (char)0xFD) crashed("write past the end of an allocated block");
    h->magic = 0xDEADF9EE; memset(p, 0xDD, h->size);
    return;
  }
  free(p);
}
void* operator new(size_t n) { return rtAlloc(n); }
void* operator new[](size_t n) { return rtAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return rtAlloc(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return rtAlloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { rtFree(p); }
void operator delete[](void* p) noexcept { rtFree(p); }
void operator delete(void* p, size_t) noexcept { rtFree(p); }
void operator delete[](void* p, size_t) noexcept { rtFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rtFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rtFree(p); }

// ------------------------------------------------------------------ expressions
struct alignas(16) Expr {
  uint8_t op, w, fp, hasFp, hasUf; uint8_t nk; Expr* k[3]; uint64_t imm, cv; uint64_t h; VarSet vs; Z3_ast z;
};
struct EHash { size_t operator()(const Expr* e) const { return e->h; } };
struct EEq { bool operator()(const Expr* a, const Expr* b) const { return a->op == b->op && a->w == b->w && a->fp == b->fp && a->imm == b->imm && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
#include <unordered_set>
static std::unordered_set<Expr*, EHash, EEq>* g_intern;
static uint64_t mixh(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; a ^= a >> 32; return a; }
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); return (int64_t)((v ^ m) - m); }
static double D(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float FL(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static uint64_t B(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t BF(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static bool isNanBits(uint64_t b, unsigned w) { return w == 64 ? std::isnan(D(b)) : std::isnan(FL(b)); }

static Expr* mkRaw(unsigned op, unsigned w, bool fp, uint64_t imm, uint64_t cv, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
  Expr t{}; t.op = op; t.w = w; t.fp = fp; t.imm = imm; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.nk = c ? 3 : b ? 2 : a ? 1 : 0;
  uint64_t h = mixh(mixh(op * 131 + w * 2 + fp, imm), 77);
  for (int i = 0; i < t.nk; ++i) h = mixh(h, t.k[i]->h);
  t.h = h;
  auto it = g_intern->find(&t);
  if (it != g_intern->end()) return *it;
  t.cv = fp ? cv : (cv & maskw(w));
  t.hasFp = fp || (op >= OP_FADD && op < OP_LAST); t.hasUf = op == OP_UF;
  for (int i = 0; i < t.nk; ++i) { t.vs |= t.k[i]->vs; t.hasFp |= t.k[i]->hasFp; t.hasUf |= t.k[i]->hasUf; }
  Expr* e = (Expr*)aligned_alloc(16, (sizeof(Expr) + 15) / 16 * 16); memcpy((void*)e, (void*)&t, sizeof(Expr));
  g_intern->insert(e);
  return e;
}
static Expr* mkConst(uint64_t v, unsigned w, bool fp) { v &= maskw(w); return mkRaw(OP_CONST, w, fp, v, v); }
static bool isC(Expr* e) { return e->op == OP_CONST; }
static bool isC(Expr* e, uint64_t v) { return e->op == OP_CONST && e->imm == (v & maskw(e->w)); }
static Expr* mkNot(Expr* e) {
  if (isC(e)) return mkConst(!e->imm, 1, false);
  if (e->op == OP_NOT) return e->k[0];
  return mkRaw(OP_NOT, 1, false, 0, !e->cv, e);
}
static Expr* mkCast(unsigned op, unsigned fw, unsigned tw, Expr* a);
static Expr* mkBool(unsigned op, Expr* a, Expr* b) { // and/or on Bool
  if (op == OP_AND) { if (isC(a)) return a->imm ? b : a; if (isC(b)) return b->imm ? a : b; if (a == b) return a; if (mkNot(a) == b) return mkConst(0, 1, false); }
  else { if (isC(a)) return a->imm ? a : b; if (isC(b)) return b->imm ? b : a; if (a == b) return a; if (mkNot(a) == b) return mkConst(1, 1, false); }
  if (a->h > b->h) std::swap(a, b);
  return mkRaw(op, 1, false, 0, op == OP_AND ? (a->cv & b->cv) : (a->cv | b->cv), a, b);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->imm ? a : b;
  if (a == b) return a;
  if (c->op == OP_NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1 && !a->fp) {
    if (isC(a)) return a->imm ? mkBool(OP_OR, c, b) : mkBool(OP_AND, mkNot(c), b);
    if (isC(b)) return b->imm ? mkBool(OP_OR, mkNot(c), a) : mkBool(OP_AND, c, a);
  }
  if (!a->fp && isC(a) && isC(b) && a->imm == 1 && b->imm == 0) return mkCast(OP_ZEXT, 1, a->w, c);
  if (!a->fp && isC(a) && isC(b) && a->imm == 0 && b->imm == 1) return mkCast(OP_ZEXT, 1, a->w, mkNot(c));
  return mkRaw(OP_ITE, a->w, a->fp, 0, c->cv ? a->cv : b->cv, c, a, b);
}
static uint64_t evalInt(unsigned op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w); a &= m; b &= m; int64_t sa = sx64(a, w), sb = sx64(b, w);
  switch (op) {
    case OP_ADD: return (a + b) & m; case OP_SUB: return (a - b) & m; case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? a / b : m; case OP_UREM: return b ? a % b : a;
    case OP_SDIV: return b ? (sb == -1 ? (uint64_t)(-(uint64_t)sa) & m : (uint64_t)(sa / sb) & m) : 0; case OP_SREM: return b ? (sb == -1 ? 0 : (uint64_t)(sa % sb) & m) : a;
    case OP_SHL: return b >= w ? 0 : (a << b) & m; case OP_LSHR: return b >= w ? 0 : a >> b; case OP_ASHR: return (uint64_t)(b >= w ? (sa < 0 ? -1 : 0) : sa >> b) & m;
    case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
    case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_SLT: return sa < sb;
  }
  abort();
}
static Expr* mkEq(Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a == b) return mkConst(1, 1, false);
  if (isC(a)) std::swap(a, b);
  if (w == 1) { if (isC(b)) return b->imm ? a : mkNot(a); if (a == mkNot(b)) return mkConst(0, 1, false); }
  if (isC(b)) {
    if (isC(a)) return mkConst(a->imm == b->imm, 1, false);
    if (a->op == OP_ZEXT) { Expr* x = a->k[0]; if (b->imm & ~maskw(x->w)) return mkConst(0, 1, false); return mkEq(x, mkConst(b->imm, x->w, false)); }
    if (a->op == OP_ITE) { Expr *x = a->k[1], *y = a->k[2]; if (isC(x) || isC(y)) return mkIte(a->k[0], mkEq(x, b), mkEq(y, b)); }
    if (a->op == OP_ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->imm - a->k[1]->imm, w, false));
  } else if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
  else if (a->h > b->h) std::swap(a, b);
  return mkRaw(OP_EQ, 1, false, 0, a->cv == b->cv, a, b);
}
static Expr* mkInt(unsigned op, unsigned w, Expr* a, Expr* b) {
  switch (op) {
    case OP_NE: return mkNot(mkEq(a, b)); case OP_EQ: return mkEq(a, b);
    case OP_UGT: return mkInt(OP_ULT, w, b, a); case OP_UGE: return mkNot(mkInt(OP_ULT, w, a, b)); case OP_ULE: return mkNot(mkInt(OP_ULT, w, b, a));
    case OP_SGT: return mkInt(OP_SLT, w, b, a); case OP_SGE: return mkNot(mkInt(OP_SLT, w, a, b)); case OP_SLE: return mkNot(mkInt(OP_SLT, w, b, a));
  }
  bool cmp = op == OP_ULT || op == OP_SLT;
  if (isC(a) && isC(b)) return mkConst(evalInt(op, w, a->imm, b->imm), cmp ? 1 : w, false);
  if (w == 1) switch (op) {
    case OP_AND: case OP_OR: return mkBool(op, a, b);
    case OP_XOR: case OP_ADD: case OP_SUB: return mkNot(mkEq(a, b));
    case OP_MUL: return mkBool(OP_AND, a, b);
    case OP_ULT: return mkBool(OP_AND, mkNot(a), b);
    case OP_SLT: return mkBool(OP_AND, a, mkNot(b));
  }
  if (a == b) { if (op == OP_SUB || op == OP_XOR) return mkConst(0, w, false); if (op == OP_AND || op == OP_OR) return a; if (cmp) return mkConst(0, 1, false); }
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    uint64_t v = b->imm, m = maskw(w);
    if (v == 0 && (op == OP_ADD || op == OP_SUB || op == OP_OR || op == OP_XOR || op == OP_SHL || op == OP_LSHR || op == OP_ASHR)) return a;
    if (v == 0 && (op == OP_AND || op == OP_MUL)) return b;
    if (v == 0 && op == OP_ULT) return mkConst(0, 1, false);
    if (v == 1 && (op == OP_MUL || op == OP_UDIV || op == OP_SDIV)) return a;
    if (v == m && op == OP_AND) return a;
    if (op == OP_SUB) return mkInt(OP_ADD, w, a, mkConst(-v, w, false));
    if (op == OP_ADD && a->op == OP_ADD && isC(a->k[1])) return mkInt(OP_ADD, w, a->k[0], mkConst(v + a->k[1]->imm, w, false));
    if (op == OP_AND && a->op == OP_ZEXT && (v & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
    if (op == OP_AND && v == 1) return mkCast(OP_ZEXT, 1, w, mkCast(OP_TRUNC, w, 1, a));
    if (op == OP_XOR && a->op == OP_ZEXT && a->k[0]->w == 1 && v == 1) return mkCast(OP_ZEXT, 1, w, mkNot(a->k[0]));
    if (op == OP_ULT && v == 1) return mkEq(a, mkConst(0, w, false));
    if (op == OP_ULT && a->op == OP_ZEXT) { Expr* x = a->k[0]; if (v > maskw(x->w)) return mkConst(1, 1, false); return mkInt(OP_ULT, x->w, x, mkConst(v, x->w, false)); }
  }
  if (isC(a) && op == OP_ULT && b->op == OP_ZEXT) { Expr* x = b->k[0]; if (a->imm > maskw(x->w)) return mkConst(0, 1, false); return mkInt(OP_ULT, x->w, mkConst(a->imm, x->w, false), x); }
  if ((op == OP_AND || op == OP_OR || op == OP_XOR) && a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkCast(OP_ZEXT, a->k[0]->w, w, mkInt(op, a->k[0]->w, a->k[0], b->k[0]));
  if (comm && !isC(b) && a->h > b->h) std::swap(a, b);
  return mkRaw(op, cmp ? 1 : w, false, 0, evalInt(op, w, a->cv, b->cv), a, b);
}
static bool g_real = false;
static Expr* mkF(unsigned op, unsigned w, Expr* a, Expr* b) {
  bool dbl = w == 64; uint64_t cv = 0;
  if (op == OP_FUNO) {
    if (g_real && !isNanBits(a->cv, w) && !isNanBits(b->cv, w)) return mkConst(0, 1, false);  // real arithmetic: values that are not finite are outside the bounds
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (isNanBits(b->imm, w)) return mkConst(1, 1, false); if (isC(a)) return mkConst(isNanBits(a->imm, w), 1, false); b = a; }
    if (a == b) { if (a->op == OP_SITOF || a->op == OP_UITOF) return mkConst(0, 1, false); if (a->op == OP_FNEG || a->op == OP_FABS) return mkF(OP_FUNO, w, a->k[0], a->k[0]); return mkRaw(OP_FUNO, 1, false, 0, isNanBits(a->cv, w), a, a); }
    return mkBool(OP_OR, mkF(OP_FUNO, w, a, a), mkF(OP_FUNO, w, b, b));
  }
#define CALC(x) if (dbl) { double p = D(a->cv), q = D(b->cv); (void)p; (void)q; cv = B(x); } else { float p = FL(a->cv), q = FL(b->cv); (void)p; (void)q; cv = BF(x); }
#define CMP(x) if (dbl) { double p = D(a->cv), q = D(b->cv); cv = (x); } else { float p = FL(a->cv), q = FL(b->cv); cv = (x); }
  bool cmp = false;
  switch (op) {
    case OP_FADD: CALC(p + q) break; case OP_FSUB: CALC(p - q) break; case OP_FMUL: CALC(p * q) break; case OP_FDIV: CALC(p / q) break;
    case OP_FCOPYSIGN: CALC(std::copysign(p, q)) break; case OP_FMIN: CALC(std::fmin(p, q)) break; case OP_FMAX: CALC(std::fmax(p, q)) break;
    case OP_FOEQ: CMP(p == q) cmp = true; break; case OP_FOLT: CMP(p < q) cmp = true; break; case OP_FOLE: CMP(p <= q) cmp = true; break;
    default: abort();
  }
  if (isC(a) && isC(b)) return mkConst(cv, cmp ? 1 : w, !cmp);
  if (op == OP_FOEQ && a == b) return mkNot(mkF(OP_FUNO, w, a, a));
  if (op == OP_FOLT && a == b) return mkConst(0, 1, false);
  if (cmp && ((isC(a) && isNanBits(a->imm, w)) || (isC(b) && isNanBits(b->imm, w)))) return mkConst(0, 1, false);
  if ((op == OP_FOEQ || op == OP_FADD || op == OP_FMUL) && (isC(a) || (!isC(b) && a->h > b->h))) std::swap(a, b);
  if ((op == OP_FMUL || op == OP_FDIV) && isC(b) && b->imm == (dbl ? B(1.0) : BF(1.0f))) return a;
  return mkRaw(op, cmp ? 1 : w, !cmp, 0, cv, a, b);
}
static const char* UFN[] = {"?", "sin", "cos", "tan", "atan", "atan2", "hypot", "exp", "log", "pow", "fmod"};
static double ufEval(int id, double a, double b) {
  switch (id) { case 1: return sin(a); case 2: return cos(a); case 3: return tan(a); case 4: return atan(a); case 5: return atan2(a, b); case 6: return hypot(a, b); case 7: return exp(a); case 8: return log(a); case 9: return pow(a, b); case 10: return fmod(a, b); }
  abort();
}
static Expr* mkUn(unsigned op, unsigned w, Expr* a, uint64_t imm) {
  if (op == OP_NOT) return mkNot(a);
  bool dbl = w == 64; double p = dbl ? D(a->cv) : FL(a->cv); uint64_t cv = 0;
  auto put = [&](double d) { cv = dbl ? B(d) : BF((float)d); };
  switch (op) {
    case OP_FNEG: cv = a->cv ^ (1ULL << (w - 1)); break; case OP_FABS: cv = a->cv & ~(1ULL << (w - 1)); break;
    case OP_FSQRT: if (dbl) put(std::sqrt(p)); else cv = BF(std::sqrt(FL(a->cv))); break;
    case OP_FROUND: put(imm == 0 ? floor(p) : imm == 1 ? ceil(p) : imm == 2 ? trunc(p) : imm == 3 ? nearbyint(p) : round(p)); break;
    case OP_UF: put(ufEval((int)imm, p, 0)); break;
    case OP_FISCLASS: {
      Expr* r = mkConst(0, 1, false);
      // expressed through comparisons
      Expr* nan = mkF(OP_FUNO, w, a, a);
      if ((imm & 3) == 3) r = nan; else if (imm & 3) abort();
      Expr* abs = mkUn(OP_FABS, w, a, 0);
      Expr* inf = mkConst(dbl ? B(INFINITY) : BF(INFINITY), w, true); Expr* zero = mkConst(0, w, true);
      Expr* mn = mkConst(dbl ? B(2.2250738585072014e-308) : BF(1.17549435e-38f), w, true);
      Expr* sign = nullptr;
      uint64_t neg = imm & 0x3c, pos = imm & 0x3c0; // -inf 4,-norm 8,-sub 10,-zero 20; +zero 40,+sub 80,+norm 100,+inf 200
      bool kinds[4][2] = {{(neg & 4) != 0, (pos & 0x200) != 0}, {(neg & 8) != 0, (pos & 0x100) != 0}, {(neg & 0x10) != 0, (pos & 0x80) != 0}, {(neg & 0x20) != 0, (pos & 0x40) != 0}};
      for (int k = 0; k < 4; ++k) {
        if (!kinds[k][0] && !kinds[k][1]) continue;
        Expr* c = k == 0 ? mkF(OP_FOEQ, w, abs, inf) : k == 1 ? mkBool(OP_AND, mkF(OP_FOLE, w, mn, abs), mkF(OP_FOLT, w, abs, inf)) : k == 2 ? mkBool(OP_AND, mkF(OP_FOLT, w, zero, abs), mkF(OP_FOLT, w, abs, mn)) : mkF(OP_FOEQ, w, abs, zero);
        if (kinds[k][0] != kinds[k][1]) {
          if (!sign) { Expr* bits = mkCast(OP_F2BV, w, w, a); sign = mkInt(OP_SLT, w, bits, mkConst(0, w, false)); }
          c = mkBool(OP_AND, c, kinds[k][0] ? sign : mkNot(sign));
        }
        r = mkBool(OP_OR, r, c);
      }
      return r; }
    default: abort();
  }
  if (isC(a)) return mkConst(cv, w, true);
  if (op == OP_FABS && (a->op == OP_FABS || a->op == OP_FNEG)) return mkUn(OP_FABS, w, a->k[0], 0);
  if (op == OP_FNEG && a->op == OP_FNEG) return a->k[0];
  return mkRaw(op, w, true, imm, cv, a);
}
static Expr* mkUf2(int id, Expr* a, Expr* b) { return mkRaw(OP_UF, 64, true, id, B(ufEval(id, D(a->cv), D(b->cv))), a, b); }
static Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->imm >> lo, w, false);
  if (a->op == OP_EXTRACT) return mkExtract(a->k[0], lo + (unsigned)a->imm, w);
  if (a->op == OP_CONCAT) { unsigned lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); }
  if (a->op == OP_ZEXT) { unsigned kw = a->k[0]->w; if (lo >= kw) return mkConst(0, w, false); if (lo == 0 && w >= kw) return mkCast(OP_ZEXT, kw, w, a->k[0]); if (kw > 1 && lo + w <= kw) return mkExtract(a->k[0], lo, w); }
  if (a->op == OP_SEXT && lo == 0) { unsigned kw = a->k[0]->w; if (w >= kw) return mkCast(OP_SEXT, kw, w, a->k[0]); return mkExtract(a->k[0], 0, w); }
  if (a->op == OP_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (w == 1) return mkRaw(OP_EXTRACT, 1, false, lo, (a->cv >> lo) & 1, a);
  return mkRaw(OP_EXTRACT, w, false, lo, (a->cv >> lo) & maskw(w), a);
}
static Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(hi->imm << lo->w | lo->imm, w, false);
  if (isC(hi, 0)) return mkCast(OP_ZEXT, lo->w, w, lo);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->imm == lo->imm + lo->w) return mkExtract(lo->k[0], (unsigned)lo->imm, w);
  return mkRaw(OP_CONCAT, w, false, 0, hi->cv << lo->w | lo->cv, hi, lo);
}
static Expr* mkCast(unsigned op, unsigned fw, unsigned tw, Expr* a) {
  switch (op) {
    case OP_ZEXT: if (fw == tw) return a; if (isC(a)) return mkConst(a->imm, tw, false); if (a->op == OP_ZEXT) return mkCast(OP_ZEXT, a->k[0]->w, tw, a->k[0]); return mkRaw(op, tw, false, 0, a->cv, a);
    case OP_SEXT: if (fw == tw) return a; if (isC(a)) return mkConst((uint64_t)sx64(a->imm, fw), tw, false); if (fw == 1) return mkIte(a, mkConst(~0ULL, tw, false), mkConst(0, tw, false)); if (a->op == OP_ZEXT) return mkCast(OP_ZEXT, a->k[0]->w, tw, a->k[0]); return mkRaw(op, tw, false, 0, (uint64_t)sx64(a->cv, fw), a);
    case OP_TRUNC: return mkExtract(a, 0, tw);
    case OP_F2BV: if (isC(a)) return mkConst(a->imm, tw, false); if (a->op == OP_BV2F) return a->k[0]; if (a->op == OP_ITE) return mkIte(a->k[0], mkCast(op, fw, tw, a->k[1]), mkCast(op, fw, tw, a->k[2])); return mkRaw(op, tw, false, 0, a->cv, a);
    case OP_BV2F: if (isC(a)) return mkConst(a->imm, tw, true); if (a->op == OP_F2BV) return a->k[0]; return mkRaw(op, tw, true, 0, a->cv, a);
    case OP_FEXT: return mkRaw(op, tw, true, 0, B((double)FL(a->cv)), a);
    case OP_FTRUNC: return mkRaw(op, tw, true, 0, BF((float)D(a->cv)), a);
    case OP_FTOSI: { double d = fw == 64 ? D(a->cv) : FL(a->cv); return mkRaw(op, tw, false, 0, (uint64_t)(int64_t)d, a); }
    case OP_FTOUI: { double d = fw == 64 ? D(a->cv) : FL(a->cv); return mkRaw(op, tw, false, 0, d < 9.2e18 ? (uint64_t)(int64_t)d : (uint64_t)d, a); }
    case OP_SITOF: { int64_t v = sx64(a->cv, fw); return mkRaw(op, tw, true, 0, tw == 64 ? B((double)v) : BF((float)v), a); }
    case OP_UITOF: return mkRaw(op, tw, true, 0, tw == 64 ? B((double)a->cv) : BF((float)a->cv), a);
  }
  abort();
}

struct C2 { double re, im; };
// ------------------------------------------------------------------ path state
enum { K_BRANCH, K_CONC, K_ASSUME, K_ASSERT };
struct Dec { Expr* c; uint64_t site, cval; uint8_t kind, taken; };
struct PDec { uint64_t site, cval; uint8_t kind, taken; };
struct Var { std::string name; unsigned w; Expr* e; };
struct Item { std::vector<uint64_t> in; std::vector<PDec> prefix; };
struct Violation { std::string msg, known; std::vector<std::pair<std::string, uint64_t>> in; };

static Item g_item; static std::vector<Dec> g_dec; static std::vector<Var> g_vars;
static std::unordered_map<Expr*, bool>* g_known;
static std::map<std::string, uint64_t>* g_reach; static std::set<std::string>*g_opaque, *g_unsup, *g_notes, *g_fns;
static uint64_t g_stale, g_mism, g_asserts, g_symasserts, g_exprs; static bool g_diverged; static std::string* g_divMsg;
static std::string* g_knownKey; static Violation* g_viol; static int g_outfd = -1; static bool g_replay = false; static int g_tier = 0;
static std::vector<std::pair<Expr*, uint64_t>>* g_saved;
static const char* g_lastFn = "";
static std::map<std::string, int64_t>* g_params;
[[noreturn]] static void finishPath();

static void initPath() {
  g_intern = new std::unordered_set<Expr*, EHash, EEq>(); g_known = new std::unordered_map<Expr*, bool>();
  g_reach = new std::map<std::string, uint64_t>(); g_opaque = new std::set<std::string>(); g_unsup = new std::set<std::string>(); g_notes = new std::set<std::string>(); g_fns = new std::set<std::string>();
  g_divMsg = new std::string(); g_knownKey = new std::string(); g_viol = nullptr; g_saved = new std::vector<std::pair<Expr*, uint64_t>>();
  if (!g_params) g_params = new std::map<std::string, int64_t>();
  g_dec.clear(); g_vars.clear(); g_stale = g_mism = g_asserts = g_symasserts = 0; g_diverged = false;
}
static uint64_t siteOf(const char* fn, unsigned idx) { return mixh((uint64_t)(uintptr_t)fn, idx); }
static void diverge(const char* what) { if (!g_diverged) { g_diverged = true; *g_divMsg = std::string(what) + " in " + g_lastFn; } finishPath(); }
static void decideRaw(Expr* c, bool taken, int kind, uint64_t cval, uint64_t site) {
  if (isC(c)) return;
  if (c->op == OP_NOT) { c = c->k[0]; taken = !taken; }
  auto it = g_known->find(c);
  if (it != g_known->end()) { if (it->second != taken) { *g_divMsg = "inconsistent decision"; diverge("inconsistent decision"); } return; }
  size_t pos = g_dec.size();
  if (pos < g_item.prefix.size()) { auto& p = g_item.prefix[pos]; if (p.site != site || p.taken != taken || p.kind != kind) diverge("path differs from the predicted one"); }
  (*g_known)[c] = taken;
  g_dec.push_back({c, site, cval, (uint8_t)kind, (uint8_t)taken});
  if (g_dec.size() > 200000) crashed("path has more than 200000 symbolic decisions");
}
static void concretize(Expr* e, uint64_t site) {
  if (isC(e) || e->fp) return;
  while (g_dec.size() < g_item.prefix.size()) {
    auto& p = g_item.prefix[g_dec.size()];
    if (p.kind != K_CONC || p.site != site) break;
    Expr* c = mkEq(e, mkConst(p.cval, e->w, false));
    bool t = p.taken;
    bool neg = c->op == OP_NOT; Expr* cc = neg ? c->k[0] : c;
    if (isC(cc) || g_known->count(cc)) break;
    bool eqTrue = neg ? !t : t;
    if (eqTrue) break;
    if (e->cv == p.cval) diverge("concretisation");
    size_t n = g_dec.size(); decideRaw(c, false, K_CONC, p.cval, site); if (g_dec.size() == n) break;
  }
  decideRaw(mkEq(e, mkConst(e->cv, e->w, false)), true, K_CONC, e->cv, site);
}

// ------------------------------------------------------------------ shadow memory
static uint8_t* g_filter; // 2^20 entries
struct Page { uint64_t c[4096]; };
static std::unordered_map<uint64_t, Page*>* g_pages;
static inline uint64_t* cellOf(uint64_t a, bool create) {
  uint64_t pg = a >> 12;
  if (!create && !g_filter[pg & 0xfffff]) return nullptr;
  static uint64_t lastPg = ~0ULL; static Page* last = nullptr;
  if (pg == lastPg && last) return &last->c[a & 4095];
  auto it = g_pages->find(pg);
  if (it == g_pages->end()) { if (!create) return nullptr; Page* p = (Page*)calloc(1, sizeof(Page)); it = g_pages->emplace(pg, p).first; g_filter[pg & 0xfffff] = 1; }
  lastPg = pg; last = it->second;
  return &last->c[a & 4095];
}
static inline Expr* cellE(uint64_t c) { return (Expr*)(c & ~15ULL); }

// sanity of an operand: the expression evaluates to the concrete value the program really has
static inline Expr* chk(Expr* e, uint64_t v) {
  if (!e) return nullptr;
  if (!e->fp) v &= maskw(e->w);
  if (e->cv == v) return e;
  if (e->fp && isNanBits(e->cv, e->w) && isNanBits(v, e->w)) return e;
  ++g_mism; g_unsup->insert(std::string("value mismatch op ") + std::to_string(e->op)); return nullptr;
}
static inline Expr* orConst(Expr* e, uint64_t v, unsigned w, bool fp) { return e ? e : mkConst(v, w, fp); }
static inline Expr* outE(Expr* e) { return e && isC(e) ? nullptr : e; }

extern "C" {
__attribute__((tls_model("initial-exec"))) thread_local Expr* __sx_args[64];
__attribute__((tls_model("initial-exec"))) thread_local Expr* __sx_ret[16];
__attribute__((tls_model("initial-exec"))) thread_local const void* __sx_callee;
__attribute__((tls_model("initial-exec"))) thread_local const void* __sx_retfn;

Expr* __sx_bin(unsigned op, unsigned w, uint64_t a, Expr* sa, uint64_t b, Expr* sb) {
  if (!sa && !sb) return nullptr;
  Eng g; sa = chk(sa, a); sb = chk(sb, b); if (!sa && !sb) return nullptr;
  bool f = op >= OP_FADD && op < OP_BV2F;
  Expr *x = orConst(sa, a, w, f), *y = orConst(sb, b, w, f);
  return outE(f ? mkF(op, w, x, y) : mkInt(op, w, x, y));
}
Expr* __sx_un(unsigned op, unsigned w, uint64_t a, Expr* s, uint64_t imm) {
  if (!s) return nullptr;
  Eng g; s = chk(s, a); if (!s) return nullptr;
  if (op == OP_FISCLASS && (imm & 3) != 0 && (imm & 3) != 3) { g_unsup->insert("snan class"); return nullptr; }
  return outE(mkUn(op, w, s, imm));
}
Expr* __sx_cast(unsigned op, unsigned fw, unsigned tw, uint64_t v, Expr* s) { if (!s) return nullptr; Eng g; s = chk(s, v); return s ? outE(mkCast(op, fw, tw, s)) : nullptr; }
Expr* __sx_ite(uint8_t c, Expr* sc, unsigned w, unsigned fp, uint64_t a, Expr* sa, uint64_t b, Expr* sb) {
  if (!sc) return (c & 1) ? sa : sb;
  Eng g; sc = chk(sc, c & 1); sa = chk(sa, a); sb = chk(sb, b);
  if (!sc) return (c & 1) ? sa : sb;
  return outE(mkIte(sc, orConst(sa, a, w, fp), orConst(sb, b, w, fp)));
}
Expr* __sx_load(char* addr, unsigned size, unsigned fp, uint64_t cv) {
  uint64_t a = (uint64_t)addr;
  if (!g_filter) return nullptr;
  if (!g_filter[(a >> 12) & 0xfffff] && !g_filter[((a + size - 1) >> 12) & 0xfffff]) return nullptr;
  bool any = false, all = true; uint64_t c0 = 0;
  uint64_t cells[8];
  for (unsigned i = 0; i < size; ++i) { uint64_t* c = cellOf(a + i, false); cells[i] = c ? *c : 0; if (cells[i]) any = true; else all = false; }
  if (!any) return nullptr;
  Eng g; c0 = cells[0]; Expr* e = cellE(c0); Expr* r = nullptr;
  if (all && (c0 & 15) == 0 && e->w == size * 8) { bool same = true; for (unsigned i = 1; i < size; ++i) if (cellE(cells[i]) != e || (cells[i] & 15) != i) same = false; if (same) r = e; }
  if (!r) {
    const unsigned char* raw = (const unsigned char*)addr; Expr* acc = nullptr;
    for (int i = (int)size - 1; i >= 0; --i) {
      Expr* b; if (cells[i]) { Expr* x = cellE(cells[i]); if (x->fp) x = mkCast(OP_F2BV, x->w, x->w, x); b = mkExtract(x, 8 * (cells[i] & 15), 8); if (b->cv != raw[i]) { ++g_stale; *cellOf(a + i, true) = 0; b = mkConst(raw[i], 8, false); } } else b = mkConst(raw[i], 8, false);
      acc = acc ? mkConcat(acc, b) : b;
    }
    r = acc;
  }
  if (r->fp != (fp != 0)) r = mkCast(fp ? OP_BV2F : OP_F2BV, r->w, r->w, r);
  bool ok = r->cv == cv || (r->fp && isNanBits(r->cv, r->w) && isNanBits(cv, r->w)) || (!r->fp && size == 8 && isNanBits(r->cv, 64) && isNanBits(cv, 64) && r->hasFp);
  if (!ok) { ++g_stale; for (unsigned i = 0; i < size; ++i) { uint64_t* c = cellOf(a + i, false); if (c) *c = 0; } return nullptr; }
  return outE(r);
}
void __sx_store_c(char* addr, unsigned size) {
  uint64_t a = (uint64_t)addr; if (!g_filter) return;
  if (!g_filter[(a >> 12) & 0xfffff] && !g_filter[((a + size - 1) >> 12) & 0xfffff]) return;
  for (unsigned i = 0; i < size; ++i) { uint64_t* c = cellOf(a + i, false); if (c) *c = 0; }
}
void __sx_store(char* addr, unsigned size, Expr* s, uint64_t v) {
  if (!s) { __sx_store_c(addr, size); return; }
  Eng g; s = chk(s, v); if (!s) { __sx_store_c(addr, size); return; }
  for (unsigned i = 0; i < size; ++i) *cellOf((uint64_t)addr + i, true) = (uint64_t)s | i;
}
void __sx_clear(char* addr, uint64_t n) { while (n) { unsigned k = n > 64 ? 64 : (unsigned)n; __sx_store_c(addr, k); addr += k; n -= k; } }
void __sx_memcpy(char* d, char* s, uint64_t n) {
  if (!g_filter || !n || d == s) return;
  bool any = false;
  for (uint64_t p = (uint64_t)s >> 12; p <= ((uint64_t)s + n - 1) >> 12; ++p) any |= g_filter[p & 0xfffff];
  for (uint64_t p = (uint64_t)d >> 12; p <= ((uint64_t)d + n - 1) >> 12; ++p) any |= g_filter[p & 0xfffff];
  if (!any) return;
  Eng g; std::vector<uint64_t> t(n);
  for (uint64_t i = 0; i < n; ++i) { uint64_t* c = cellOf((uint64_t)s + i, false); t[i] = c ? *c : 0; }
  for (uint64_t i = 0; i < n; ++i) { if (t[i]) *cellOf((uint64_t)d + i, true) = t[i]; else { uint64_t* c = cellOf((uint64_t)d + i, false); if (c) *c = 0; } }
}
void __sx_memset(char* d, uint64_t v, Expr* s, uint64_t n) { if (!s) { __sx_clear(d, n); return; } Eng g; s = chk(s, v & 255); for (uint64_t i = 0; i < n; ++i) *cellOf((uint64_t)d + i, true) = (uint64_t)s; }
void __sx_branch(Expr* s, uint8_t taken, const char* fn, unsigned idx) {
  if (!s) return; Eng g; s = chk(s, taken & 1); if (!s) return;
  g_lastFn = fn; g_fns->insert(fn); decideRaw(s, taken & 1, K_BRANCH, 0, siteOf(fn, idx));
}
void __sx_switch(Expr* s, uint64_t v, unsigned w, const uint64_t* cs, unsigned n, const char* fn, unsigned idx) {
  if (!s) return; Eng g; s = chk(s, v); if (!s) return; g_lastFn = fn; g_fns->insert(fn);
  for (unsigned i = 0; i < n; ++i) { bool t = (v & maskw(w)) == (cs[i] & maskw(w)); decideRaw(mkEq(s, mkConst(cs[i], w, false)), t, K_BRANCH, 0, siteOf(fn, idx + 100000 + i * 7919)); if (t) break; }
}
void __sx_conc(Expr* s, uint64_t v, unsigned w, const char* fn, unsigned idx) { (void)w; if (!s) return; Eng g; s = chk(s, v); if (!s) return; g_lastFn = fn; g_fns->insert(fn); concretize(s, siteOf(fn, idx)); }
void __sx_opaque(Expr* s, const char* name) { if (!s) return; Eng g; g_opaque->insert(name); }
void __sx_unsupported(Expr* s, const char* what) { if (!s) return; Eng g; g_unsup->insert(what); }
void __sx_extmem(char* p, const char* name) {
  uint64_t a = (uint64_t)p; if (!g_filter || !g_filter[(a >> 12) & 0xfffff]) return;
  for (unsigned i = 0; i < 16; ++i) { uint64_t* c = cellOf(a + i, false); if (c && *c) { Eng g; g_opaque->insert(std::string("mem:") + name); return; } }
}

// ---- argument/return access for natively implemented models
#define SXARG(fn, i) (__sx_callee == (const void*)(fn) ? __sx_args[i] : nullptr)
static void setRet(const void* fn, Expr* e) { __sx_retfn = fn; __sx_ret[0] = outE(e); }

int __sxm_memcmp(const void* p, const void* q, size_t n) {
  const unsigned char *a = (const unsigned char*)p, *b = (const unsigned char*)q;
  Expr* nn = SXARG(&__sxm_memcmp, 0); Eng g; if (nn) concretize(nn, siteOf("memcmp", 0));
  int r = 0; Expr* acc = nullptr; // built from the last byte
  for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) { r = a[i] < b[i] ? -1 : 1; break; }
  bool any = false;
  for (size_t i = 0; i < n && !any; ++i) any = __sx_load((char*)a + i, 1, 0, a[i]) || __sx_load((char*)b + i, 1, 0, b[i]);
  if (any) {
    acc = mkConst(0, 32, false);
    for (size_t i = n; i-- > 0;) {
      Expr *x = orConst(__sx_load((char*)a + i, 1, 0, a[i]), a[i], 8, false), *y = orConst(__sx_load((char*)b + i, 1, 0, b[i]), b[i], 8, false);
      acc = mkIte(mkEq(x, y), acc, mkIte(mkInt(OP_ULT, 8, x, y), mkConst((uint32_t)-1, 32, false), mkConst(1, 32, false)));
    }
    acc = outE(acc);
  }
  setRet((const void*)&__sxm_memcmp, acc ? acc : mkConst(0, 32, false));
  return r;
}
static void byteZero(const char* s, uint64_t site) { Expr* e = __sx_load((char*)s, 1, 0, (unsigned char)*s); if (e) decideRaw(mkEq(e, mkConst(0, 8, false)), *s == 0, K_BRANCH, 0, site); }
size_t __sxm_strlen(const char* s) { Eng g; size_t n = 0; for (;; ++n) { byteZero(s + n, siteOf("strlen", 0)); if (!s[n]) break; } __sx_retfn = nullptr; return n; }
int __sxm_strcmp(const char* a, const char* b) {
  Eng g; size_t i = 0; __sx_retfn = nullptr;
  for (;; ++i) {
    Expr *x = __sx_load((char*)a + i, 1, 0, (unsigned char)a[i]), *y = __sx_load((char*)b + i, 1, 0, (unsigned char)b[i]);
    if (x || y) { Expr *p = orConst(x, (unsigned char)a[i], 8, false), *q = orConst(y, (unsigned char)b[i], 8, false);
      decideRaw(mkEq(p, q), a[i] == b[i], K_BRANCH, 0, siteOf("strcmp", 0)); if (a[i] != b[i]) decideRaw(mkInt(OP_ULT, 8, p, q), (unsigned char)a[i] < (unsigned char)b[i], K_BRANCH, 0, siteOf("strcmp", 1)); }
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    byteZero(a + i, siteOf("strcmp", 2)); if (!a[i]) return 0;
  }
}
void* __sxm_memchr(const void* p, int c, size_t n) {
  Expr *sc = SXARG(&__sxm_memchr, 0), *sn = SXARG(&__sxm_memchr, 1); Eng g; __sx_retfn = nullptr;
  if (sc) concretize(sc, siteOf("memchr", 0)); if (sn) concretize(sn, siteOf("memchr", 1));
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { Expr* e = __sx_load((char*)s + i, 1, 0, s[i]); if (e) decideRaw(mkEq(e, mkConst((unsigned char)c, 8, false)), s[i] == (unsigned char)c, K_BRANCH, 0, siteOf("memchr", 2)); if (s[i] == (unsigned char)c) return (void*)(s + i); }
  return nullptr;
}
// numbers that went through text: "#N" tokens written by the formatting hook denote the saved value N
static bool token(const char* s, uint64_t& id) { if (strncmp(s, "9.87650", 7) != 0) return false; id = strtoull(s + 7, nullptr, 10); return true; }
#define TOKLEN 15
double __sxm_strtod(const char* s, char** e) { uint64_t id; Eng g; __sx_retfn = nullptr;
  if (token(s, id) && id < g_saved->size() && (*g_saved)[id].first && (*g_saved)[id].first->fp) { if (e) *e = (char*)s + strlen(s); setRet((const void*)&__sxm_strtod, (*g_saved)[id].first); return D((*g_saved)[id].second); }
  return strtod(s, e); }
long __sxm_strtol(const char* s, char** e, int b) { uint64_t id; Eng g; __sx_retfn = nullptr;
  if (token(s, id) && id < g_saved->size() && (*g_saved)[id].first && !(*g_saved)[id].first->fp) { if (e) *e = (char*)s + strlen(s); setRet((const void*)&__sxm_strtol, (*g_saved)[id].first); return (long)(*g_saved)[id].second; }
  return strtol(s, e, b); }
unsigned long __sxm_strtoul(const char* s, char** e, int b) { uint64_t id; Eng g; __sx_retfn = nullptr;
  if (token(s, id) && id < g_saved->size() && (*g_saved)[id].first && !(*g_saved)[id].first->fp) { if (e) *e = (char*)s + strlen(s); setRet((const void*)&__sxm_strtoul, (*g_saved)[id].first); return (*g_saved)[id].second; }
  return strtoul(s, e, b); }
#define M1(nm, id) double __sxm_##nm(double a) { Expr* x = SXARG(&__sxm_##nm, 0); Eng g; x = chk(x, B(a)); if (x) setRet((const void*)&__sxm_##nm, mkUn(OP_UF, 64, x, id)); else __sx_retfn = nullptr; return nm(a); }
#define M2(nm, id) double __sxm_##nm(double a, double b) { Expr *x = SXARG(&__sxm_##nm, 0), *y = SXARG(&__sxm_##nm, 1); Eng g; x = chk(x, B(a)); y = chk(y, B(b)); if (x || y) setRet((const void*)&__sxm_##nm, mkUf2(id, orConst(x, B(a), 64, true), orConst(y, B(b), 64, true))); else __sx_retfn = nullptr; return nm(a, b); }
M1(sin, 1) M1(cos, 2) M1(tan, 3) M1(atan, 4) M1(exp, 7) M1(log, 8) M2(atan2, 5) M2(hypot, 6) M2(pow, 9) M2(fmod, 10)
double __sxm_sqrt(double a) { Expr* x = SXARG(&__sxm_sqrt, 0); Eng g; x = chk(x, B(a)); if (x) setRet((const void*)&__sxm_sqrt, mkUn(OP_FSQRT, 64, x, 0)); else __sx_retfn = nullptr; return sqrt(a); }
double __sxm_fabs(double a) { Expr* x = SXARG(&__sxm_fabs, 0); Eng g; x = chk(x, B(a)); if (x) setRet((const void*)&__sxm_fabs, mkUn(OP_FABS, 64, x, 0)); else __sx_retfn = nullptr; return fabs(a); }
double __sxm_round(double a) { Expr* x = SXARG(&__sxm_round, 0); Eng g; x = chk(x, B(a)); if (x) setRet((const void*)&__sxm_round, mkUn(OP_FROUND, 64, x, 4)); else __sx_retfn = nullptr; return round(a); }
double __sxm_cabs(double a, double b) { Expr *x = SXARG(&__sxm_cabs, 0), *y = SXARG(&__sxm_cabs, 1); Eng g; x = chk(x, B(a)); y = chk(y, B(b)); if (x || y) setRet((const void*)&__sxm_cabs, mkUf2(6, orConst(x, B(a), 64, true), orConst(y, B(b), 64, true))); else __sx_retfn = nullptr; return hypot(a, b); }
double __sxm_carg(double a, double b) { Expr *x = SXARG(&__sxm_carg, 0), *y = SXARG(&__sxm_carg, 1); Eng g; x = chk(x, B(a)); y = chk(y, B(b)); if (x || y) setRet((const void*)&__sxm_carg, mkUf2(5, orConst(y, B(b), 64, true), orConst(x, B(a), 64, true))); else __sx_retfn = nullptr; return atan2(b, a); }

// complex division/multiplication: the textbook formula on expressions (the libgcc scaling only matters at the range ends)
static void setRet2(const void* fn, Expr* a, Expr* b) { __sx_retfn = fn; __sx_ret[0] = outE(a); __sx_ret[1] = outE(b); }
C2 __sxm_muldc3(double a, double b, double c, double d);
C2 __sxm_divdc3(double a, double b, double c, double d);
static bool cargs(const void* fn, double a, double b, double c, double d, Expr** x) {
  double v[4] = {a, b, c, d}; bool any = false; bool m = __sx_callee == fn;
  for (int i = 0; i < 4; ++i) { x[i] = m ? chk(__sx_args[i], B(v[i])) : nullptr; any |= x[i] != nullptr; }
  if (any) for (int i = 0; i < 4; ++i) x[i] = orConst(x[i], B(v[i]), 64, true);
  return any;
}
C2 __sxm_muldc3(double a, double b, double c, double d) {
  Expr* x[4]; bool any; { Eng g; any = cargs((const void*)&__sxm_muldc3, a, b, c, d, x); }
  double re = a * c - b * d, im = a * d + b * c;
  if (any && !std::isinf(re) && !std::isinf(im)) { Eng g; setRet2((const void*)&__sxm_muldc3, mkF(OP_FSUB, 64, mkF(OP_FMUL, 64, x[0], x[2]), mkF(OP_FMUL, 64, x[1], x[3])), mkF(OP_FADD, 64, mkF(OP_FMUL, 64, x[0], x[3]), mkF(OP_FMUL, 64, x[1], x[2]))); } else __sx_retfn = nullptr;
  return {re, im};
}
C2 __sxm_divdc3(double a, double b, double c, double d) {
  Expr* x[4]; bool any; { Eng g; any = cargs((const void*)&__sxm_divdc3, a, b, c, d, x); }
  double den = c * c + d * d, re = (a * c + b * d) / den, im = (b * c - a * d) / den;
  if (any) { Eng g; auto M = [](Expr* p, Expr* q) { return mkF(OP_FMUL, 64, p, q); };
    Expr* dn = mkF(OP_FADD, 64, M(x[2], x[2]), M(x[3], x[3]));
    setRet2((const void*)&__sxm_divdc3, mkF(OP_FDIV, 64, mkF(OP_FADD, 64, M(x[0], x[2]), M(x[1], x[3])), dn), mkF(OP_FDIV, 64, mkF(OP_FSUB, 64, M(x[1], x[2]), M(x[0], x[3])), dn)); } else __sx_retfn = nullptr;
  return {re, im};
}

// ---- harness API
static unsigned bitsFor(uint64_t n) { unsigned b = 1; while (b < 64 && n >> b) ++b; return b; }
static Expr* newVar(const char* name, unsigned w, uint64_t dflt) {
  size_t i = g_vars.size(); if (i >= MAXV) { fprintf(stderr, "too many symbolic variables\n"); crashed("too many symbolic variables"); }
  uint64_t v = i < g_item.in.size() ? g_item.in[i] : dflt;
  v &= maskw(w);
  Expr* e = mkRaw(OP_VAR, w, false, i, v); e->vs.set(i); 
  g_vars.push_back({name, w, e});
  return e;
}
static void assume(Expr* c, bool v, uint64_t site);
int64_t __sx_api_int(const char* name, int64_t lo, int64_t hi) {
  Eng g; uint64_t range = (uint64_t)hi - (uint64_t)lo; if (hi <= lo) { setRet((const void*)&__sx_api_int, mkConst((uint64_t)lo, 64, false)); return lo; }
  unsigned w = bitsFor(range); Expr* v = newVar(name, w, 0);
  if (range != maskw(w)) { Expr* c = mkNot(mkInt(OP_ULT, w, mkConst(range, w, false), v)); assume(c, v->cv <= range, siteOf("range", (unsigned)g_vars.size())); }
  Expr* e = mkInt(OP_ADD, 64, mkCast(OP_ZEXT, w, 64, v), mkConst((uint64_t)lo, 64, false));
  setRet((const void*)&__sx_api_int, e); return (int64_t)e->cv;
}
double __sx_api_double(const char* name) { Eng g; Expr* v = newVar(name, 64, 0); Expr* e = mkCast(OP_BV2F, 64, 64, v); setRet((const void*)&__sx_api_double, e); return D(e->cv); }
uint8_t __sx_api_bool(const char* name) { Eng g; Expr* v = newVar(name, 1, 0); Expr* e = mkCast(OP_ZEXT, 1, 8, v); setRet((const void*)&__sx_api_bool, e); return (uint8_t)e->cv; }
int64_t __sx_api_choose(const char* name, int64_t n) {
  Eng g; __sx_retfn = nullptr; if (n <= 1) return 0;
  unsigned w = bitsFor((uint64_t)n - 1); Expr* v = newVar(name, w, 0);
  if ((uint64_t)n - 1 != maskw(w)) assume(mkInt(OP_ULT, w, v, mkConst((uint64_t)n, w, false)), v->cv < (uint64_t)n, siteOf("range", (unsigned)g_vars.size()));
  concretize(v, siteOf("choose", (unsigned)g_vars.size()));
  return (int64_t)v->cv;
}
static void assume(Expr* c, bool v, uint64_t site) {
  if (!v) {
    // the assumption fails on this input: look for an input of the same path on which it holds
    if (isC(c)) finishPath();
    decideRaw(c, false, K_BRANCH, 0, site); finishPath();
  }
  // a flipped prefix entry for this assumption is recorded as a branch
  size_t pos = g_dec.size();
  if (pos < g_item.prefix.size() && g_item.prefix[pos].kind == K_BRANCH && g_item.prefix[pos].site == site) decideRaw(c, true, K_BRANCH, 0, site);
  else decideRaw(c, true, K_ASSUME, 0, site);
}
void __sx_api_assume(bool c) { Expr* s = SXARG(&__sx_api_assume, 0); Eng g; s = chk(s, c); if (!s) { if (!c) finishPath(); return; } assume(s, c, siteOf("assume", 0)); }
static void failNow(const char* msg) {
  Eng g; if (!g_viol) { g_viol = new Violation(); g_viol->msg = msg; g_viol->known = *g_knownKey; for (auto& v : g_vars) g_viol->in.push_back({v.name, v.e->cv}); }
  finishPath();
}
void __sx_api_assert(bool c, const char* msg) {
  Expr* s = SXARG(&__sx_api_assert, 0); Eng g; s = chk(s, c); ++g_asserts;
  if (s && !isC(s)) { ++g_symasserts; decideRaw(s, c, K_ASSERT, 0, siteOf(msg, 0)); }
  if (!c) failNow(msg);
}
void __sx_api_real(int64_t on) { Eng g; g_real = on != 0 && !g_replay; __sx_retfn = nullptr; }
double __sx_api_real_var(const char* name, double lo, double hi, double dflt) {
  Eng g; Expr* v = newVar(name, 64, B(dflt)); Expr* e = mkCast(OP_BV2F, 64, 64, v); double x = D(e->cv);
  if (lo == hi) assume(mkF(OP_FOEQ, 64, e, mkConst(B(lo), 64, true)), x == lo, siteOf("real range", (unsigned)g_vars.size() * 2));
  else { assume(mkF(OP_FOLE, 64, mkConst(B(lo), 64, true), e), lo <= x, siteOf("real range", (unsigned)g_vars.size() * 2)); assume(mkF(OP_FOLE, 64, e, mkConst(B(hi), 64, true)), x <= hi, siteOf("real range", (unsigned)g_vars.size() * 2 + 1)); }
  setRet((const void*)&__sx_api_real_var, e); return x;
}
static bool nearD(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b || std::fabs(a - b) <= 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
void __sx_api_near(double a, double b, const char* msg) {
  Expr *x = SXARG(&__sx_api_near, 0), *y = SXARG(&__sx_api_near, 1); Eng g; x = chk(x, B(a)); y = chk(y, B(b)); ++g_asserts; bool ok = nearD(a, b); __sx_retfn = nullptr;
  if ((x || y) && g_real) { x = orConst(x, B(a), 64, true); y = orConst(y, B(b), 64, true); if (x != y) { ++g_symasserts; decideRaw(mkRaw(OP_RNEAR, 1, false, 0, ok, x, y), ok, K_ASSERT, 0, siteOf(msg, 0)); } }
  if (!ok) failNow(msg);
}
void __sx_api_fail(const char* msg) { failNow(msg); __builtin_unreachable(); }
void __sx_api_reach(const char* l) { Eng g; ++(*g_reach)[l]; }
bool __sx_api_is_symbolic_d(double) { return SXARG(&__sx_api_is_symbolic_d, 0) != nullptr; }
bool __sx_api_is_symbolic_i(int64_t) { return SXARG(&__sx_api_is_symbolic_i, 0) != nullptr; }
void __sx_api_known(const char* k) { Eng g; *g_knownKey = k; }
void __sx_api_note(const char* m) { Eng g; g_notes->insert(m); }
int64_t __sx_api_tier() { __sx_retfn = nullptr; return g_tier; }
int64_t __sx_api_replaying() { __sx_retfn = nullptr; return g_replay; }
static bool g_text = false;
void __sx_api_text(int64_t on) { g_text = on != 0; }
int64_t __sx_api_text_on() { __sx_retfn = nullptr; return g_text && !g_replay; }
void __sx_api_token(int64_t id, char* out) { snprintf(out, 40, "9.87650%08lld", (long long)id); }
int64_t __sx_api_freeze_i(int64_t v) { if (SXARG(&__sx_api_freeze_i, 0)) { Eng g; g_opaque->insert("text of a number"); } __sx_retfn = nullptr; return v; }
double __sx_api_freeze_d(double v) { if (SXARG(&__sx_api_freeze_d, 0)) { Eng g; g_opaque->insert("text of a number"); } __sx_retfn = nullptr; return v; }
void __sx_api_format_i(int64_t v, bool pos, char* out) { if (pos) snprintf(out, 40, "%llu", (unsigned long long)v); else snprintf(out, 40, "%lld", (long long)v); }
int64_t __sx_api_param(const char* n, int64_t d) { Eng g; __sx_retfn = nullptr; auto it = g_params->find(n); return it == g_params->end() ? d : it->second; }
int64_t __sx_api_save_d(double v) { Expr* s = SXARG(&__sx_api_save_d, 0); Eng g; __sx_retfn = nullptr; s = orConst(chk(s, B(v)), B(v), 64, true); g_saved->push_back({s, B(v)}); return (int64_t)g_saved->size() - 1; }
double __sx_api_load_d(int64_t i) { Eng g; setRet((const void*)&__sx_api_load_d, (*g_saved)[(size_t)i].first); return D((*g_saved)[(size_t)i].second); }
int64_t __sx_api_save_i(int64_t v) { Expr* s = SXARG(&__sx_api_save_i, 0); Eng g; __sx_retfn = nullptr; s = orConst(chk(s, (uint64_t)v), (uint64_t)v, 64, false); g_saved->push_back({s, (uint64_t)v}); return (int64_t)g_saved->size() - 1; }
int64_t __sx_api_load_i(int64_t i) { Eng g; setRet((const void*)&__sx_api_load_i, (*g_saved)[(size_t)i].first); return (int64_t)(*g_saved)[(size_t)i].second; }
}  // extern C

// ------------------------------------------------------------------ solving
static Z3_context Z; static uint64_t g_q, g_sat, g_unsat, g_unk, g_hits; static double g_solveS; static uint64_t g_rlimit = 30000000;
static Z3_ast zbv(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); }
static std::map<std::string, Z3_func_decl>* g_uf;
static Z3_ast Zt(Expr* e);
static Z3_ast zt(Expr* e) { if (!e->z) { e->z = Zt(e); } return e->z; }
static Z3_ast Zt(Expr* e) {
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2]; Z3_ast rm = nullptr;
  auto RNE = [&]() { return Z3_mk_fpa_round_nearest_ties_to_even(Z); };
  (void)rm;
  switch (e->op) {
    case OP_CONST: if (e->fp) return Z3_mk_fpa_to_fp_bv(Z, zbv(e->imm, e->w), fsort(e->w)); if (e->w == 1) return e->imm ? Z3_mk_true(Z) : Z3_mk_false(Z); return zbv(e->imm, e->w);
    case OP_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%d", (int)e->imm); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), e->w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, e->w)); }
    case OP_ADD: return Z3_mk_bvadd(Z, zt(a), zt(b)); case OP_SUB: return Z3_mk_bvsub(Z, zt(a), zt(b)); case OP_MUL: return Z3_mk_bvmul(Z, zt(a), zt(b));
    case OP_UDIV: return Z3_mk_bvudiv(Z, zt(a), zt(b)); case OP_SDIV: return Z3_mk_bvsdiv(Z, zt(a), zt(b)); case OP_UREM: return Z3_mk_bvurem(Z, zt(a), zt(b)); case OP_SREM: return Z3_mk_bvsrem(Z, zt(a), zt(b));
    case OP_SHL: return Z3_mk_bvshl(Z, zt(a), zt(b)); case OP_LSHR: return Z3_mk_bvlshr(Z, zt(a), zt(b)); case OP_ASHR: return Z3_mk_bvashr(Z, zt(a), zt(b));
    case OP_AND: { if (e->w == 1) { Z3_ast x[2] = {zt(a), zt(b)}; return Z3_mk_and(Z, 2, x); } return Z3_mk_bvand(Z, zt(a), zt(b)); }
    case OP_OR: { if (e->w == 1) { Z3_ast x[2] = {zt(a), zt(b)}; return Z3_mk_or(Z, 2, x); } return Z3_mk_bvor(Z, zt(a), zt(b)); }
    case OP_XOR: return Z3_mk_bvxor(Z, zt(a), zt(b));
    case OP_EQ: return Z3_mk_eq(Z, zt(a), zt(b)); case OP_ULT: return Z3_mk_bvult(Z, zt(a), zt(b)); case OP_SLT: return Z3_mk_bvslt(Z, zt(a), zt(b));
    case OP_ZEXT: if (a->w == 1) return Z3_mk_ite(Z, zt(a), zbv(1, e->w), zbv(0, e->w)); return Z3_mk_zero_ext(Z, e->w - a->w, zt(a));
    case OP_SEXT: return Z3_mk_sign_ext(Z, e->w - a->w, zt(a));
    case OP_EXTRACT: if (e->w == 1) return a->w == 1 ? zt(a) : Z3_mk_eq(Z, Z3_mk_extract(Z, (unsigned)e->imm, (unsigned)e->imm, zt(a)), zbv(1, 1)); return Z3_mk_extract(Z, (unsigned)e->imm + e->w - 1, (unsigned)e->imm, zt(a));
    case OP_CONCAT: { auto f = [&](Expr* x) { return x->w == 1 ? Z3_mk_ite(Z, zt(x), zbv(1, 1), zbv(0, 1)) : zt(x); }; return Z3_mk_concat(Z, f(a), f(b)); }
    case OP_ITE: return Z3_mk_ite(Z, zt(a), zt(b), zt(c));
    case OP_NOT: return Z3_mk_not(Z, zt(a));
    case OP_FADD: return Z3_mk_fpa_add(Z, RNE(), zt(a), zt(b)); case OP_FSUB: return Z3_mk_fpa_sub(Z, RNE(), zt(a), zt(b)); case OP_FMUL: return Z3_mk_fpa_mul(Z, RNE(), zt(a), zt(b)); case OP_FDIV: return Z3_mk_fpa_div(Z, RNE(), zt(a), zt(b));
    case OP_FNEG: return Z3_mk_fpa_neg(Z, zt(a)); case OP_FABS: return Z3_mk_fpa_abs(Z, zt(a)); case OP_FSQRT: return Z3_mk_fpa_sqrt(Z, RNE(), zt(a));
    case OP_FMIN: return Z3_mk_fpa_min(Z, zt(a), zt(b)); case OP_FMAX: return Z3_mk_fpa_max(Z, zt(a), zt(b));
    case OP_FCOPYSIGN: { Z3_ast bits = zt(mkCast(OP_F2BV, b->w, b->w, b)); Z3_ast neg = Z3_mk_eq(Z, Z3_mk_extract(Z, b->w - 1, b->w - 1, bits), zbv(1, 1)); Z3_ast ab = Z3_mk_fpa_abs(Z, zt(a)); return Z3_mk_ite(Z, neg, Z3_mk_fpa_neg(Z, ab), ab); }
    case OP_FROUND: { Z3_ast m = e->imm == 0 ? Z3_mk_fpa_round_toward_negative(Z) : e->imm == 1 ? Z3_mk_fpa_round_toward_positive(Z) : e->imm == 2 ? Z3_mk_fpa_round_toward_zero(Z) : e->imm == 3 ? RNE() : Z3_mk_fpa_round_nearest_ties_to_away(Z); return Z3_mk_fpa_round_to_integral(Z, m, zt(a)); }
    case OP_FOEQ: return Z3_mk_fpa_eq(Z, zt(a), zt(b)); case OP_FOLT: return Z3_mk_fpa_lt(Z, zt(a), zt(b)); case OP_FOLE: return Z3_mk_fpa_leq(Z, zt(a), zt(b));
    case OP_FUNO: return Z3_mk_fpa_is_nan(Z, zt(a));
    case OP_BV2F: return Z3_mk_fpa_to_fp_bv(Z, zt(a), fsort(e->w));
    case OP_F2BV: return Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, zt(a)), zbv(e->w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL, e->w), Z3_mk_fpa_to_ieee_bv(Z, zt(a)));
    case OP_FEXT: case OP_FTRUNC: return Z3_mk_fpa_to_fp_float(Z, RNE(), zt(a), fsort(e->w));
    case OP_FTOSI: return Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_round_toward_zero(Z), zt(a), e->w); case OP_FTOUI: return Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_round_toward_zero(Z), zt(a), e->w);
    case OP_SITOF: return Z3_mk_fpa_to_fp_signed(Z, RNE(), zt(a), fsort(e->w)); case OP_UITOF: return Z3_mk_fpa_to_fp_unsigned(Z, RNE(), zt(a->w == 1 ? mkCast(OP_ZEXT, 1, 8, a) : a), fsort(e->w));
    case OP_UF: {
      std::string n = std::string("uf_") + UFN[e->imm];
      if (!g_uf) g_uf = new std::map<std::string, Z3_func_decl>();
      auto& d = (*g_uf)[n]; Z3_sort s[2] = {fsort(64), fsort(64)};
      if (!d) { d = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, n.c_str()), e->nk, s, fsort(64)); Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, d)); }
      Z3_ast x[2] = {zt(a), b ? zt(b) : nullptr}; return Z3_mk_app(Z, d, e->nk, x); }
  }
  fprintf(stderr, "untranslatable op %d\n", e->op); abort();
}
static std::string* g_zerr;
static void zerr(Z3_context c, Z3_error_code e) { if (!g_zerr) g_zerr = new std::string(); *g_zerr = Z3_get_error_msg(c, e); }
static void zinit() { if (Z) return; Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr); }

static FILE* g_dump;
// ---- real arithmetic (QF_NRA): used by the harnesses that ask for it
struct RealCtx {
  std::map<Expr*, Frac> m; std::map<Expr*, Z3_ast> mb; std::vector<Z3_ast> side, base; bool bad = false; std::map<Expr*, double> pin;
  std::vector<Z3_ast> zv; std::map<int, unsigned> ofVar;   // polynomial variables
  struct App { int id; Frac a, b, s, c; }; std::vector<App> apps;
  RealCtx() { for (auto& x : g_cosOf) x = -1; g_polyBig = false; }
  Z3_sort R() { return Z3_mk_real_sort(Z); }
  unsigned fv(const char* pre, int k) { if (zv.size() >= NV) { bad = true; return NV - 1; } char n[32]; snprintf(n, sizeof n, "%s%d", pre, k); zv.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), R())); return (unsigned)zv.size() - 1; }
  unsigned fresh() { return fv("f", (int)zv.size()); }
  Q rat(double d) { if (std::isnan(d) || std::isinf(d)) { bad = true; d = 0; } return Q(d); }
  Frac num(double d) { Frac f; f.n = Poly(rat(d)); return f; }
  Frac v(unsigned i) { Frac f; f.n = Poly::var(i); return f; }
  Z3_ast znum(const Q& q) { return Z3_mk_numeral(Z, q.str().c_str(), R()); }
  Z3_ast zp(const Poly& p) {
    if (p.zero()) return znum(0); std::vector<Z3_ast> sum;
    for (auto& x : p.t) { std::vector<Z3_ast> f{znum(x.second)}; for (unsigned i = 0; i < NV; ++i) for (unsigned k = 0; k < x.first[i]; ++k) f.push_back(zv[i]); sum.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(Z, (unsigned)f.size(), f.data())); }
    return sum.size() == 1 ? sum[0] : Z3_mk_add(Z, (unsigned)sum.size(), sum.data()); }
  Z3_ast andv(const std::vector<Z3_ast>& v) { return v.size() == 1 ? v[0] : Z3_mk_and(Z, (unsigned)v.size(), v.data()); } Z3_ast orv(const std::vector<Z3_ast>& v) { return v.size() == 1 ? v[0] : Z3_mk_or(Z, (unsigned)v.size(), v.data()); }
  Z3_ast cmp0(const Frac& a, int k) {  // a == 0, a < 0, a <= 0
    Poly p = a.n; if (k) for (auto& x : a.d) if (x.second & 1) p = pmul(p, x.first);
    if (g_polyBig) { bad = true; return Z3_mk_true(Z); }
    Z3_ast z = zp(p), o = znum(0); return k == 0 ? Z3_mk_eq(Z, z, o) : k == 1 ? Z3_mk_lt(Z, z, o) : Z3_mk_le(Z, z, o); }
  Frac sub(const Frac& a, const Frac& b) { return fadd(a, b, true); }
  int check(const std::vector<Z3_ast>& as, unsigned ms, Z3_model* out) {
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA")); Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, s, p);
    for (auto a : as) Z3_solver_assert(Z, s, a);
    if (g_dump) { fprintf(g_dump, "%s(check-sat)\n(reset)\n", Z3_solver_to_string(Z, s)); fflush(g_dump); }
    double t0 = nowS(); Z3_lbool r = Z3_solver_check(Z, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (g_zerr && !g_zerr->empty()) { g_notes->insert("solver error: " + *g_zerr); res = -1; g_zerr->clear(); }
    if (g_dump) { fprintf(g_dump, "; real: %s %.3f s\n", res == 1 ? "sat" : res == 0 ? "unsat" : "unknown", nowS() - t0); fflush(g_dump); }
    if (res == 1 && out) { *out = Z3_solver_get_model(Z, s); if (*out) Z3_model_inc_ref(Z, *out); }
    Z3_solver_dec_ref(Z, s); return res; }
  static bool tiny(const Frac& d) { if (!d.d.empty()) return false; for (auto& x : d.n.t) if (boost::multiprecision::abs(x.second) > Q(1) / Q(1000000000000)) return false; return true; }  // constants that differ by rounding only (pi/180 against pi divided by 180)
  bool equalReal(const std::vector<std::pair<Frac, Frac>>& ps) {
    std::vector<Z3_ast> ne; for (auto& p : ps) { Frac d = sub(p.first, p.second); if (g_polyBig) { bad = true; return false; } if (d.n.zero() || tiny(d)) continue; if (d.n.isConst()) return false; ne.push_back(Z3_mk_not(Z, cmp0(d, 0))); }
    if (ne.empty()) return true;
    std::vector<Z3_ast> as = base; as.insert(as.end(), side.begin(), side.end()); as.push_back(orv(ne)); return check(as, 1000, nullptr) == 0; }
  Frac uf(int id, const Frac& a, const Frac* b) {
    bool trig = id == 1 || id == 2;
    for (auto& p : apps) { bool same = trig ? (p.id == 1) : p.id == id; if (!same) continue;
      std::vector<std::pair<Frac, Frac>> q; q.push_back({p.a, a}); if (b) q.push_back({p.b, *b});
      if (equalReal(q)) return trig ? (id == 1 ? p.s : p.c) : p.s;
      if (trig && equalReal({{p.a, fneg_(a)}})) return id == 1 ? fneg_(p.s) : p.c; }
    unsigned i = fresh(); Frac f = v(i); App n; n.id = trig ? 1 : id; n.a = a; if (b) n.b = *b; n.s = f;
    if (trig) { unsigned k = fresh(); n.c = v(k); if (!bad) g_cosOf[i] = (int)k; Z3_ast ss[2] = {zv[i], zv[i]}, cc[2] = {zv[k], zv[k]}, sum[2] = {Z3_mk_mul(Z, 2, ss), Z3_mk_mul(Z, 2, cc)}; side.push_back(Z3_mk_eq(Z, Z3_mk_add(Z, 2, sum), znum(1))); }
    else if (id == 6) { side.push_back(Z3_mk_ge(Z, zv[i], znum(0))); side.push_back(cmp0(sub(fmul_(f, f), fadd(fmul_(a, a), fmul_(*b, *b), false)), 0)); }
    else if (id == 0) { side.push_back(Z3_mk_ge(Z, zv[i], znum(0))); side.push_back(cmp0(sub(fmul_(f, f), a), 0)); }
    else if (id == 5) {
      for (auto& p : apps) if (p.id == id) {  // away from the cut the angle is Lipschitz: |y1-y2|,|x1-x2| <= 1e-9 and x1,x2 >= 1 imply |t1-t2| <= 2e-9
        auto within = [&](const Frac& x, double e) { std::vector<Z3_ast> v{cmp0(sub(x, num(e)), 2), cmp0(sub(num(-e), x), 2)}; return andv(v); };
        side.push_back(Z3_mk_implies(Z, andv({within(sub(p.a, a), 1e-9), within(sub(p.b, *b), 1e-9), cmp0(sub(num(1), p.b), 2), cmp0(sub(num(1), *b), 2)}), within(sub(p.s, n.s), 2e-9))); }
      side.push_back(Z3_mk_le(Z, zv[i], znum(Q(315) / 100))); side.push_back(Z3_mk_ge(Z, zv[i], znum(Q(-315) / 100))); }
    apps.push_back(n); return trig ? (id == 1 ? n.s : n.c) : n.s; }
  Frac T(Expr* e) { auto it = m.find(e); if (it != m.end()) return it->second; Frac r = T0(e); if (g_polyBig) { bad = true; r = Frac(); } m[e] = r; return r; }
  Frac T0(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1], *c = e->k[2]; if (bad) return Frac();
    switch (e->op) {
      case OP_CONST: return num(e->w == 64 ? D(e->imm) : FL(e->imm));
      case OP_BV2F: if (a->op == OP_VAR && a->w == 64) { auto p = pin.find(e); if (p != pin.end()) return num(p->second); auto o = ofVar.find((int)a->imm); if (o == ofVar.end()) o = ofVar.insert({(int)a->imm, fv("r", (int)a->imm)}).first; return v(o->second); } break;
      case OP_FADD: return fadd(T(a), T(b), false); case OP_FSUB: return fadd(T(a), T(b), true); case OP_FMUL: return fmul_(T(a), T(b)); case OP_FNEG: return fneg_(T(a));
      case OP_FDIV: { Frac x = T(a), y = T(b); if (bad || y.n.zero()) { bad = true; return x; } if (!y.n.isConst()) side.push_back(Z3_mk_not(Z, Z3_mk_eq(Z, zp(y.n), znum(0)))); return fmul_(x, finv(y)); }
      case OP_FABS: { Frac x = T(a); if (bad) return x; if (x.n.isConst() && x.d.empty()) return x.n.cst() < 0 ? fneg_(x) : x; return ite(cmp0(x, 1), fneg_(x), x); }
      case OP_FSQRT: { Frac x = T(a); return uf(0, x, nullptr); } case OP_UF: { Frac x = T(a); if (!b) return uf((int)e->imm, x, nullptr); Frac y = T(b); return uf((int)e->imm, x, &y); }
      case OP_ITE: { Z3_ast q = TB(a); Frac x = T(b), y = T(c); if (bad) return x; return ite(q, x, y); }
    }
    bad = true; return Frac();
  }
  Frac ite(Z3_ast q, const Frac& x, const Frac& y) { Frac d = sub(x, y); if (d.n.zero()) return x; unsigned i = fresh(); Frac f = v(i); side.push_back(Z3_mk_ite(Z, q, cmp0(sub(f, x), 0), cmp0(sub(f, y), 0))); return f; }
  Z3_ast TB(Expr* e) { auto it = mb.find(e); if (it != mb.end()) return it->second; Z3_ast r = TB0(e); if (bad) return Z3_mk_true(Z); mb[e] = r; return r; }
  Z3_ast TB0(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case OP_FOEQ: return cmp0(sub(T(a), T(b)), 0); case OP_FOLT: return cmp0(sub(T(a), T(b)), 1); case OP_FOLE: return cmp0(sub(T(a), T(b)), 2); case OP_FUNO: return Z3_mk_false(Z);
      case OP_NOT: return Z3_mk_not(Z, TB(a)); case OP_CONST: return e->imm ? Z3_mk_true(Z) : Z3_mk_false(Z);
      case OP_AND: if (e->w == 1) return andv({TB(a), TB(b)}); break; case OP_OR: if (e->w == 1) return orv({TB(a), TB(b)}); break; case OP_EQ: if (a->w == 1) return Z3_mk_eq(Z, TB(a), TB(b)); break;
    }
    bad = true; return Z3_mk_true(Z);
  }
};
static int solveReal(const std::vector<std::pair<Expr*, bool>>& cs, std::vector<std::pair<int, uint64_t>>& model) {
  RealCtx r; Expr *nx = nullptr, *ny = nullptr; VarSet vs; std::vector<Z3_ast> as;
  for (auto& c : cs) { vs |= c.first->vs; if (c.second && c.first->op == OP_FOEQ) { Expr *a = c.first->k[0], *b = c.first->k[1]; if (isC(a)) std::swap(a, b); if (isC(b) && a->op == OP_BV2F && a->k[0]->op == OP_VAR) r.pin[a] = D(b->imm); } }
  // constraints that cannot be encoded are dropped: an unsatisfiable rest stays unsatisfiable with them
  auto put = [&](const std::pair<Expr*, bool>& c, std::vector<Z3_ast>& to) {
    r.bad = false; g_polyBig = false; Z3_ast t = r.TB(c.first); if (r.bad || g_polyBig) { r.m.clear(); r.mb.clear(); r.bad = false; g_polyBig = false; return; }
    t = Z3_simplify(Z, c.second ? t : Z3_mk_not(Z, t)); if (Z3_get_bool_value(Z, t) != Z3_L_TRUE) to.push_back(t); };
  for (auto& c : cs) if (c.first->op == OP_RNEAR) { if (!c.second) { nx = c.first->k[0]; ny = c.first->k[1]; } } else if (!c.first->hasUf && c.first->hasFp) put(c, r.base);
  for (auto& c : cs) if (c.first->hasUf && c.first->op != OP_RNEAR) put(c, as);
  int res; Z3_model m = nullptr; as.insert(as.end(), r.base.begin(), r.base.end());
  if (nx) {
    Frac x = r.T(nx), y = r.T(ny), d = fadd(x, y, true); if (r.bad || g_polyBig) { g_notes->insert("an assertion could not be encoded in real arithmetic"); return -1; }
    as.insert(as.end(), r.side.begin(), r.side.end());
    if (g_dump) { fprintf(g_dump, "; %zu monomials, difference %zu\n", x.n.t.size(), d.n.t.size()); fflush(g_dump); }
    { std::vector<Z3_ast> q = as; q.push_back(Z3_mk_not(Z, r.cmp0(d, 0))); res = r.check(q, 5000, nullptr); }
    if (res != 0) { // not equal as reals (or not shown): ask for a difference beyond the tolerance
      Frac big = r.v(r.fresh()), tb = fmul_(r.num(1e-6), big); std::vector<Z3_ast> q = as;
      for (auto& v : {r.num(1), x, y, fneg_(x), fneg_(y)}) q.push_back(r.cmp0(r.sub(v, big), 2));
      q.push_back(r.orv({r.cmp0(r.sub(tb, d), 1), r.cmp0(fadd(d, tb, false), 1)}));
      if (r.bad) return -1;
      res = r.check(q, 20000, &m); }
  } else { as.insert(as.end(), r.side.begin(), r.side.end()); res = r.check(as, 10000, &m); }
  if (res == 1) {
    for (auto& o : r.ofVar) { Z3_ast out;
      if (!m || !Z3_model_eval(Z, m, r.zv[o.second], true, &out)) continue;
      if (Z3_is_algebraic_number(Z, out)) out = Z3_get_algebraic_number_lower(Z, out, 20);
      model.push_back({o.first, B(strtod(Z3_get_numeral_decimal_string(Z, out, 40), nullptr))}); }
    for (auto& o : r.pin) model.push_back({(int)o.first->k[0]->imm, B(o.second)});
    if (m) Z3_model_dec_ref(Z, m);
  }
  return res;
}

struct CacheEnt { uint64_t h1, h2; uint32_t status, n; struct { uint32_t v; uint64_t x; } m[8]; };
static CacheEnt* g_cache; static const size_t NC = 1 << 18;

static int solve(const std::vector<std::pair<Expr*, bool>>& cs, std::vector<std::pair<int, uint64_t>>& model) {
  // 1 sat, 0 unsat, -1 unknown
  uint64_t h1 = 0, h2 = 0; bool fp = false, uf = false; VarSet vs;
  for (auto& c : cs) { uint64_t h = mixh(c.first->h, c.second); h1 += h; h2 += mixh(h, 0x1234567) * 3; fp |= c.first->hasFp; uf |= c.first->hasUf; vs |= c.first->vs; }
  if (!h1) h1 = 1;
  ++g_q;
  size_t slot = h1 % NC;
  for (int i = 0; i < 4 && g_cache; ++i) {
    CacheEnt& e = g_cache[(slot + i) % NC];
    uint32_t st = __atomic_load_n(&e.status, __ATOMIC_ACQUIRE);
    if (!st) break;
    if (st >= 2 && e.h1 == h1 && e.h2 == h2) { ++g_hits; if (st == 2) { ++g_unsat; return 0; } ++g_sat; for (uint32_t k = 0; k < e.n; ++k) model.push_back({(int)e.m[k].v, e.m[k].x}); return 1; }
  }
  zinit(); double t0 = nowS();
  if (g_zerr) g_zerr->clear();
  int res;
  if (g_real && fp) { res = solveReal(cs, model); if (res == 1) ++g_sat; else if (res == 0) ++g_unsat; else ++g_unk; g_solveS += nowS() - t0; }
  else {
  Z3_solver s = uf ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)g_rlimit); Z3_solver_set_params(Z, s, p);
  for (auto& c : cs) Z3_solver_assert(Z, s, c.second ? zt(c.first) : Z3_mk_not(Z, zt(c.first)));
  if (g_dump) { for (auto& n : *g_notes) fprintf(g_dump, "; note %s\n", n.c_str()); for (auto& c : cs) fprintf(g_dump, "; is %d %.2000s\n", (int)c.second, Z3_ast_to_string(Z, zt(c.first))); fflush(g_dump); }
  Z3_lbool r = Z3_solver_check(Z, s);
  res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (g_zerr && !g_zerr->empty()) { g_notes->insert("solver error: " + *g_zerr); res = -1; }
  if (g_dump) { fprintf(g_dump, "; expect %s\n%s(check-sat)\n(reset)\n", res == 1 ? "sat" : res == 0 ? "unsat" : "unknown", Z3_solver_to_string(Z, s)); fflush(g_dump); }
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    for (size_t i = 0; i < g_vars.size(); ++i) if (vs.test(i)) {
      Z3_ast out; if (!Z3_model_eval(Z, m, zt(g_vars[i].e), true, &out)) continue;
      uint64_t v = 0; if (g_vars[i].w == 1) v = Z3_get_bool_value(Z, out) == Z3_L_TRUE; else Z3_get_numeral_uint64(Z, out, &v);
      model.push_back({(int)i, v});
    }
    Z3_model_dec_ref(Z, m); ++g_sat;
  } else if (res == 0) ++g_unsat; else ++g_unk;
  Z3_solver_dec_ref(Z, s); g_solveS += nowS() - t0;
  }
  if (res >= 0 && g_cache && model.size() <= 8) {
    for (int i = 0; i < 4; ++i) {
      CacheEnt& e = g_cache[(slot + i) % NC]; uint32_t z = 0;
      if (__atomic_compare_exchange_n(&e.status, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_RELAXED)) {
        e.h1 = h1; e.h2 = h2; e.n = (uint32_t)model.size(); for (size_t k = 0; k < model.size(); ++k) { e.m[k].v = (uint32_t)model[k].first; e.m[k].x = model[k].second; }
        __atomic_store_n(&e.status, res == 0 ? 2 : 3, __ATOMIC_RELEASE); break;
      }
    }
  }
  return res;
}

// ------------------------------------------------------------------ path result, child -> parent
struct Out { std::string s; template <class T> void p(const T& v) { s.append((const char*)&v, sizeof v); } void str(const std::string& x) { p((uint32_t)x.size()); s += x; } };
struct In { const char* d; size_t n, i = 0; template <class T> T g() { T v{}; if (i + sizeof v <= n) memcpy(&v, d + i, sizeof v); i += sizeof v; return v; } std::string str() { auto k = g<uint32_t>(); std::string r(d + i, k); i += k; return r; } };

static void emit(std::vector<Item>& items) {
  Out o;
  o.p((uint64_t)g_dec.size()); o.p((uint64_t)(g_dec.size() > g_item.prefix.size() ? g_dec.size() - g_item.prefix.size() : 0)); o.p(g_q); o.p(g_sat); o.p(g_unsat); o.p(g_unk); o.p(g_hits); o.p(g_solveS); o.p(g_stale); o.p(g_mism); o.p(g_asserts); o.p(g_symasserts); o.p((uint64_t)(g_intern ? g_intern->size() : 0)); o.p((uint64_t)g_vars.size());
  o.p((uint8_t)g_diverged); o.str(*g_divMsg);
  auto set = [&](std::set<std::string>& x) { o.p((uint32_t)x.size()); for (auto& k : x) o.str(k); };
  set(*g_opaque); set(*g_unsup); set(*g_notes); set(*g_fns);
  o.p((uint32_t)g_reach->size()); for (auto& k : *g_reach) { o.str(k.first); o.p(k.second); }
  o.p((uint8_t)(g_viol != nullptr)); if (g_viol) { o.str(g_viol->msg); o.str(g_viol->known); o.p((uint32_t)g_viol->in.size()); for (auto& k : g_viol->in) { o.str(k.first); o.p(k.second); } }
  o.p((uint32_t)g_vars.size()); for (auto& v : g_vars) { o.str(v.name); o.p((uint32_t)v.w); o.p(v.e->cv); }
  o.p((uint32_t)items.size());
  for (auto& it : items) { o.p((uint32_t)it.in.size()); o.s.append((const char*)it.in.data(), it.in.size() * 8); o.p((uint32_t)it.prefix.size()); for (auto& d : it.prefix) { o.p(d.site); o.p(d.cval); o.p(d.kind); o.p(d.taken); } }
  uint64_t n = o.s.size(); std::string head((const char*)&n, 8); o.s = head + o.s;
  size_t i = 0; while (i < o.s.size()) { ssize_t k = write(g_outfd, o.s.data() + i, o.s.size() - i); if (k <= 0) { if (errno == EINTR) continue; break; } i += (size_t)k; }
}
static bool g_finishing = false;
static void finishPath() {
  t_engine = true; g_finishing = true; itimerval tv{}; setitimer(ITIMER_PROF, &tv, nullptr);
  if (g_replay) {
    if (g_viol) { printf("REPLAY violated: %s\n", g_viol->msg.c_str()); fflush(stdout); _exit(1); }
    printf("REPLAY passed\n"); fflush(stdout); _exit(0);
  }
  std::vector<Item> items;
  if (!g_diverged) {
    // components of constraints that share variables
    std::vector<int> uf(g_vars.size()); for (size_t i = 0; i < uf.size(); ++i) uf[i] = (int)i;
    std::vector<std::vector<int>> lst(g_vars.size());
    auto find = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
    auto firstVar = [&](Expr* e) { return (int)e->vs._Find_first(); };
    for (size_t j = 0; j < g_dec.size(); ++j) {
      Dec& d = g_dec[j]; int fv = firstVar(d.c); if (fv >= MAXV) continue;
      if (j >= g_item.prefix.size() && d.kind != K_ASSUME) {
        std::vector<std::pair<Expr*, bool>> cs; cs.push_back({d.c, !d.taken});
        std::set<int> comps; for (size_t v = d.c->vs._Find_first(); v < MAXV; v = d.c->vs._Find_next(v)) comps.insert(find((int)v));
        for (int r : comps) for (int k : lst[r]) cs.push_back({g_dec[k].c, (bool)g_dec[k].taken});
        std::vector<std::pair<int, uint64_t>> model;
        if (solve(cs, model) == 1) {
          Item it; it.in.resize(g_vars.size()); for (size_t v = 0; v < g_vars.size(); ++v) it.in[v] = g_vars[v].e->cv;
          for (auto& m : model) it.in[m.first] = m.second;
          it.prefix.reserve(j + 1); for (size_t k = 0; k < j; ++k) it.prefix.push_back({g_dec[k].site, g_dec[k].cval, g_dec[k].kind, g_dec[k].taken});
          it.prefix.push_back({d.site, d.cval, d.kind, (uint8_t)!d.taken});
          items.push_back(std::move(it));
        }
      }
      int root = find(fv);
      for (size_t v = d.c->vs._Find_next((size_t)fv); v < MAXV; v = d.c->vs._Find_next(v)) { int r = find((int)v); if (r != root) { if (lst[r].size() > lst[root].size()) std::swap(r, root); uf[r] = root; lst[root].insert(lst[root].end(), lst[r].begin(), lst[r].end()); lst[r].clear(); } }
      lst[root].push_back((int)j);
    }
  }
  emit(items);
  _exit(0);
}
static void crashed(const char* why) {
  t_engine = true;
  if (!g_run || g_finishing) { fprintf(stderr, "engine failure: %s\n", why); _exit(99); }
  g_run = false; failNow((std::string("crash: ") + why).c_str()); _exit(99);
}
static void onSignal(int sig) { crashed(sig == SIGSEGV ? "invalid memory access (SIGSEGV)" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic exception (SIGFPE)" : sig == SIGPROF ? "does not terminate (CPU limit)" : sig == SIGBUS ? "SIGBUS" : "signal"); }
static void signals() {
  static char stk[1 << 17]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
}
static void runHarness(SxHarness* h) {
  initPath(); g_pages = new std::unordered_map<uint64_t, Page*>(); g_filter = (uint8_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  signals(); itimerval tv{}; tv.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &tv, nullptr);
  g_run = true; __sx_callee = nullptr;
  try { h->fn(); }
  catch (const std::exception& e) { t_engine = true; int st; char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); failNow((std::string("uncaught exception ") + (d ? d : "?") + ": " + e.what()).c_str()); }
  catch (...) { failNow("uncaught exception of unknown type"); }
  finishPath();
}

// ------------------------------------------------------------------ explorer (parent)
static SxHarness* g_h; void sx_register(SxHarness* h) { h->next = g_h; g_h = h; }
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static std::string dem(const std::string& s) { int st; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); std::string r = d ? d : s; free(d); return r; }

int main(int argc, char** argv) {
  std::string harness, out, replay, inputs, knownArg; double budget = 60; uint64_t maxPaths = 10000000; int workers = 8; bool verbose = false, list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--harness") harness = nx(); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--tier") g_tier = nx() == "thorough"; else if (a == "--known") knownArg = nx(); else if (a == "-v") verbose = true; else if (a == "--list") list = true; else if (a == "--rlimit") g_rlimit = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--dump") g_dump = fopen(nx().c_str(), "a");
    else if (a == "--param") { if (!g_params) g_params = new std::map<std::string, int64_t>(); std::string p = nx(); auto e = p.find('='); (*g_params)[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
  }
  if (list) { for (auto* h = g_h; h; h = h->next) printf("%s\n", h->name); return 0; }
  SxHarness* H = nullptr; for (auto* h = g_h; h; h = h->next) if (harness == h->name) H = h;
  if (!H) { fprintf(stderr, "no harness %s\n", harness.c_str()); return 2; }
  g_ar = (char*)mmap((void*)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (g_ar == MAP_FAILED) { perror("mmap"); return 2; }
  g_arCur = g_ar; g_arEnd = g_ar + ARENA;
  if (!replay.empty()) {
    g_replay = true; FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    char line[4096]; while (fgets(line, sizeof line, f)) { unsigned long long v; char nm[2048]; if (sscanf(line, "input %llu %2047s", &v, nm) >= 1) { g_item.in.push_back(v); printf("input %s = %lld (as double %.17g)\n", nm, (long long)v, D(v)); } }
    fclose(f); fflush(stdout); runHarness(H);
  }
  std::set<std::string> known; { std::string c; for (char ch : knownArg + ",") if (ch == ',') { if (!c.empty()) known.insert(c); c.clear(); } else c += ch; }
  g_cache = (CacheEnt*)mmap(nullptr, NC * sizeof(CacheEnt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = nowS();
  std::deque<Item> q; q.push_back(Item());
  struct Ch { pid_t pid; int fd; std::string buf; double start; };
  std::vector<Ch> ch;
  uint64_t paths = 0, decs = 0, nodes = 0, qn = 0, sat = 0, unsat = 0, unk = 0, hits = 0, stale = 0, mism = 0, asserts = 0, symasserts = 0, maxDec = 0, maxVars = 0, divs = 0, died = 0, exprs = 0; double solveS = 0; std::string divMsg;
  std::set<std::string> opaque, unsup, notes, fns; std::map<std::string, uint64_t> reach; std::vector<Violation> viols; std::map<std::string, std::pair<uint64_t, std::string>> kn; std::vector<std::string> samples;
  bool stop = false; std::string stopWhy;
  while (true) {
    if (!stop && nowS() - t0 > budget) { stop = true; stopWhy = "time budget"; }
    if (!stop && paths >= maxPaths) { stop = true; stopWhy = "path budget"; }
    if (!stop && !viols.empty()) { stop = true; stopWhy = "violation"; }
    while (!stop && !q.empty() && (int)ch.size() < workers) {
      Item it = std::move(q.back()); q.pop_back();
      int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); return 2; }
      if (pid == 0) { close(p[0]); for (auto& c : ch) close(c.fd); g_outfd = p[1]; g_item = std::move(it); runHarness(H); }
      close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK); ch.push_back({pid, p[0], "", nowS()});
    }
    if (ch.empty()) break;
    std::vector<pollfd> pf; for (auto& c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < ch.size();) {
      Ch& c = ch[i]; char b[65536]; bool eof = false; ssize_t k;
      while ((k = read(c.fd, b, sizeof b)) > 0) c.buf.append(b, (size_t)k);
      if (k == 0) eof = true;
      if (!eof && stop && stopWhy != "violation" && nowS() - t0 > budget + 20) { kill(c.pid, SIGKILL); }
      if (!eof && stop && stopWhy == "violation") { kill(c.pid, SIGKILL); }
      if (!eof) { ++i; continue; }
      int st; waitpid(c.pid, &st, 0); close(c.fd);
      uint64_t n = 0; if (c.buf.size() >= 8) memcpy(&n, c.buf.data(), 8);
      if (c.buf.size() < 8 || c.buf.size() < n + 8) { if (!(stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && (stopWhy == "violation"))) { ++died; notes.insert("a path was lost (status " + std::to_string(st) + ")"); } }
      else {
        In in{c.buf.data() + 8, (size_t)n}; ++paths;
        uint64_t nd = in.g<uint64_t>(); decs += nd; maxDec = std::max(maxDec, nd); nodes += in.g<uint64_t>(); qn += in.g<uint64_t>(); sat += in.g<uint64_t>(); unsat += in.g<uint64_t>(); unk += in.g<uint64_t>(); hits += in.g<uint64_t>(); solveS += in.g<double>(); stale += in.g<uint64_t>(); mism += in.g<uint64_t>(); asserts += in.g<uint64_t>(); symasserts += in.g<uint64_t>(); exprs += in.g<uint64_t>(); maxVars = std::max(maxVars, in.g<uint64_t>());
        bool dv = in.g<uint8_t>(); std::string dm = in.str(); if (dv) { ++divs; divMsg = dm; }
        for (auto* s : {&opaque, &unsup, &notes, &fns}) { auto m = in.g<uint32_t>(); for (uint32_t j = 0; j < m; ++j) s->insert(in.str()); }
        auto m = in.g<uint32_t>(); for (uint32_t j = 0; j < m; ++j) { std::string l = in.str(); reach[l] += in.g<uint64_t>(); }
        if (in.g<uint8_t>()) { Violation v; v.msg = in.str(); v.known = in.str(); auto vn = in.g<uint32_t>(); for (uint32_t j = 0; j < vn; ++j) { std::string nm = in.str(); v.in.push_back({nm, in.g<uint64_t>()}); }
          if (!v.known.empty() && known.count(v.known)) { auto& e = kn[v.known]; ++e.first; e.second = v.msg; } else viols.push_back(v); }
        m = in.g<uint32_t>(); std::string smp; for (uint32_t j = 0; j < m; ++j) { std::string nm = in.str(); auto w = in.g<uint32_t>(); auto v = in.g<uint64_t>(); char bb[64]; if (w == 64) snprintf(bb, sizeof bb, "%.6g", D(v)); else snprintf(bb, sizeof bb, "%llu", (unsigned long long)v); if (j < 24) smp += (j ? "," : "") + nm + "=" + bb; }
        if (samples.size() < 6 && (paths % 7 == 1)) samples.push_back(smp);
        m = in.g<uint32_t>();
        for (uint32_t j = 0; j < m; ++j) { Item it; auto a = in.g<uint32_t>(); for (uint32_t z = 0; z < a; ++z) it.in.push_back(in.g<uint64_t>()); auto bn = in.g<uint32_t>(); it.prefix.reserve(bn); for (uint32_t z = 0; z < bn; ++z) { PDec d; d.site = in.g<uint64_t>(); d.cval = in.g<uint64_t>(); d.kind = in.g<uint8_t>(); d.taken = in.g<uint8_t>(); it.prefix.push_back(d); } q.push_back(std::move(it)); }
      }
      ch.erase(ch.begin() + (long)i);
    }
    if (verbose && paths % 500 == 0) fprintf(stderr, "[%.1fs] paths %lu queue %zu\n", nowS() - t0, (unsigned long)paths, q.size());
  }
  bool exhausted = !stop && q.empty() && divs == 0 && died == 0 && unk == 0;
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
  auto arr = [&](const std::set<std::string>& s, bool d) { std::string r = "["; bool first = true; for (auto& x : s) { r += (first ? "\"" : ",\"") + jesc(d ? dem(x) : x) + "\""; first = false; } return r + "]"; };
  fprintf(f, "{\"harness\":\"%s\",\"exhausted\":%s,\"stopped\":\"%s\",\"paths\":%lu,\"pending\":%zu,\"decisions\":%lu,\"nodes\":%lu,\"max_decisions\":%lu,\"max_vars\":%lu,\"expressions\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"stale\":%lu,\"mismatch\":%lu,\"asserts\":%lu,\"symbolic_asserts\":%lu,\"divergences\":%lu,\"divergence\":\"%s\",\"lost\":%lu,",
          harness.c_str(), exhausted ? "true" : "false", stopWhy.c_str(), paths, q.size(), decs, nodes, maxDec, maxVars, exprs, qn, sat, unsat, unk, hits, solveS, nowS() - t0, stale, mism, asserts, symasserts, divs, jesc(divMsg).c_str(), died);
  fprintf(f, "\"opaque\":%s,\"unsupported\":%s,\"notes\":%s,\"functions\":%s,", arr(opaque, true).c_str(), arr(unsup, false).c_str(), arr(notes, false).c_str(), arr(fns, true).c_str());
  fprintf(f, "\"reach\":{"); bool first = true; for (auto& r : reach) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(r.first).c_str(), r.second); first = false; } fprintf(f, "},");
  fprintf(f, "\"known\":{"); first = true; for (auto& r : kn) { fprintf(f, "%s\"%s\":{\"n\":%lu,\"msg\":\"%s\"}", first ? "" : ",", jesc(r.first).c_str(), r.second.first, jesc(r.second.second).c_str()); first = false; } fprintf(f, "},");
  fprintf(f, "\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); fprintf(f, "],");
  fprintf(f, "\"violations\":["); first = true;
  for (auto& v : viols) { fprintf(f, "%s{\"msg\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(v.msg).c_str()); first = false; for (size_t i = 0; i < v.in.size(); ++i) fprintf(f, "%s[\"%s\",\"%lu\",\"%.17g\"]", i ? "," : "", jesc(v.in[i].first).c_str(), v.in[i].second, D(v.in[i].second)); fprintf(f, "]}"); }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  return 0;
}
