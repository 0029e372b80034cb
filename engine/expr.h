// Hash-consed bit-vector expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef uint8_t u8;

enum ExOp : u8 {
    X_CONST, X_SYM,
    X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
    X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR,
    X_EQ, X_ULT, X_ULE, X_SLT, X_SLE,
    X_ZEXT, X_SEXT, X_EXTRACT, X_CONCAT, X_ITE,
    // floating point over IEEE bit patterns (RNE); aux = predicate for FCMP
    X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FCMP, X_SITOFP, X_UITOFP, X_FPTOSI, X_FPTOUI, X_FPCVT
};

typedef std::vector<u32> VarSet;
struct Expr {
    ExOp op; uint16_t w; u32 aux;		// aux: extract low bit / symbol id / fcmp predicate
    u32 id;
    const Expr* k[3];
    u128 c;
    mutable const VarSet* vars;
    mutable Z3_ast z;
    mutable u32 ep; mutable u128 ev;
    u32 size;
};
typedef const Expr* E;

struct SymInfo { std::string name; unsigned w; bool uninit; bool hidden; };
typedef std::vector<u64> Model;			// by symbol id; missing = 0
typedef std::shared_ptr<const Model> ModelRef;

static inline u128 maskw (unsigned w) { return w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1); }
static inline s128 sextc (u128 v, unsigned w) { if (w >= 128) return (s128) v; u128 m = ((u128)1) << (w-1); v &= maskw(w); return (s128)((v ^ m) - m); }

extern std::vector<SymInfo> g_syms;
E xConst (u128 v, unsigned w);
E xSym (const std::string& name, unsigned w, bool uninit);
E xBin (ExOp op, E a, E b);
E xCmp (ExOp op, E a, E b);
E xNot (E a);					// w==1
E xZExt (E a, unsigned w);
E xSExt (E a, unsigned w);
E xExtract (E a, unsigned lo, unsigned w);
E xConcat (E hi, E lo);
E xIte (E c, E a, E b);
extern bool g_fpUsed;
E xFp (ExOp op, unsigned w, unsigned aux, E a, E b = nullptr);
static inline bool isC (E e) { return e->op == X_CONST; }
u128 xEval (E e, const ModelRef& m);
const VarSet& xVars (E e);
bool xHasUninit (E e);
Z3_ast xZ3 (E e);
Z3_context z3ctx (void);
std::string xStr (E e, int depth = 6);
size_t xCount (void);
