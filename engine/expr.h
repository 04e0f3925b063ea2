// Hash-consed bit-vector expressions (width 1..128) with unsigned/signed intervals.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, ZEXT, SEXT, EXTRACT, CONCAT,
  EQ, ULT, ULE, SLT, SLE, ITE, CTPOP, CTLZ, CTTZ,
  // floating point placeholders (never sent to a solver)
  FROMINT_U, FROMINT_S, FROOT, FUNK,
  FIV // some double in an interval (its bounds are packed into c), never NaN
};

struct Iv { u128 ul, uh; i128 sl, sh; };

struct Expr {
  Op op; uint8_t w; uint8_t tz; // tz: known trailing zero bits
  uint8_t fp;                   // 1 if a floating point placeholder
  uint32_t id;
  Expr* k[3];
  u128 c;                       // CONST value / VAR index / EXTRACT offset
  Iv iv;                        // static interval
  uint64_t vm[2];               // variable mask (index mod 128)
};

struct VarInfo { std::string name; int w; u128 lo, hi; Expr* e; bool havoc; };
extern std::vector<VarInfo> g_vars;
extern size_t g_nexpr;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sxt(u128 v, int w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if (v >> (w - 1)) return (i128)(v | ~maskw(w));
  return (i128)v;
}
inline i128 smaxw(int w) { return (i128)(maskw(w) >> 1); }
inline i128 sminw(int w) { return -smaxw(w) - 1; }

Expr* mkConst(u128 v, int w);
Expr* mkVar(const std::string& name, int w, u128 lo, u128 hi, bool havoc = false);
extern bool g_poly; // multiply out products of sums
Expr* mk(Op op, int w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u128 imm = 0);
Expr* mkNot(Expr* a);                    // width 1
Expr* mkExtract(Expr* a, int off, int w);
Expr* mkFp(Op op, Expr* a, u128 imm, int w); // fp placeholder
inline bool isC(Expr* e) { return e->op == CONST; }
inline bool isTrue(Expr* e) { return e->op == CONST && e->c == 1; }
inline bool isFalse(Expr* e) { return e->op == CONST && e->c == 0; }

u128 evalOp(Op op, int w, u128 a, int wa, u128 b, int wb, u128 c, u128 imm);
typedef std::unordered_map<Expr*, u128> EvalMemo;
// evaluate under an assignment of variables (index -> value)
u128 evalExpr(Expr* e, const std::vector<u128>& model, EvalMemo& memo);
Iv ivOp(Expr* e, const Iv* a, const Iv* b, const Iv* c);
Iv fullIv(int w);
void ivNorm(Iv& v, int w);
Iv ivMeet(const Iv& a, const Iv& b, int w, bool& empty);
std::string u128s(u128 v);
std::string dump(Expr* e, int depth = 6);
