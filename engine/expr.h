// Hash-consed bit-vector / IEEE expressions.  Widths 1..64.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

enum Op : uint8_t {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_UMULO, O_SMULO,
  // floating point: operands and results are bit patterns of width 32/64
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FREMAINDER, O_FSQRT, O_FRINT, // FRINT: aux = rounding mode
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPCVT, // FPCVT: 32<->64
  O_NUM
};
enum { RM_RNE = 0, RM_RNA = 1, RM_RTP = 2, RM_RTN = 3, RM_RTZ = 4 };

typedef std::vector<uint32_t> SymSet;

struct Expr {
  Op op; uint8_t w; uint8_t undef; uint8_t fp; // fp: contains a floating-point operation
  uint32_t id; uint32_t hash;
  uint64_t aux;               // constant value / symbol id / extract low bit / rounding mode
  const Expr *a, *b, *c;
  const SymSet *syms;
  mutable uint64_t mVal; mutable uint32_t mEpoch; mutable uint32_t depth;
  mutable void *z3;           // Z3_ast (bit-vector or, for width 1, bool)
  mutable void *z3f, *z3a;          // Z3_ast of floating-point sort
};
typedef const Expr *E;

struct SymInfo { std::string name; uint8_t w; bool undef; };
extern std::vector<SymInfo> gSyms;
extern uint64_t gNumExprs;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

E mkConst(uint64_t v, unsigned w);
E mkSym(const std::string &name, unsigned w, bool undef = false);
E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t aux = 0); // simplifying constructor
inline bool isC(E e) { return e->op == O_CONST; }
E mkNot(E e);                       // width 1
E mkAnd(E a, E b); E mkOr(E a, E b); // width 1
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E e, unsigned w); E mkSext(E e, unsigned w);
uint64_t evalOp(Op op, unsigned w, unsigned wa, uint64_t aux, uint64_t a, uint64_t b, uint64_t c);

struct Model { std::vector<uint64_t> v; uint32_t epoch; };
typedef std::shared_ptr<const Model> ModelP;
ModelP newModel(std::vector<uint64_t> v);
uint64_t evalE(E e, const Model &m);
std::string showE(E e, int depth = 6);

// 256-bit truth mask of a width-1 expression over one symbol of width <= 8
struct Mask256 { uint64_t w[4]; };
const Mask256 &truthMask(E e);
E intern_raw(Op op, unsigned w, E a, E b, E c, uint64_t aux);
E fpConstOperand(E e);
