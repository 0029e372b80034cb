#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <set>
#include <algorithm>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
using std::vector; using std::string;

vector<SymInfo> g_syms;
static vector<E> g_symE;
static std::deque<Expr> g_pool;
struct EH { size_t operator() (E e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0xC2B2AE3D27D4EB4Full + e->aux * 0x165667B19E3779F9ull;
    for (int i = 0; i < 3; ++i) { h ^= (u64)(e->k[i] ? e->k[i]->id + 1 : 0) * 0xFF51AFD7ED558CCDull; h = (h << 23) | (h >> 41); }
    h ^= (u64) e->c * 0x9E3779B97F4A7C15ull; h ^= (u64)(e->c >> 64) * 0xC2B2AE3D27D4EB4Full; h ^= h >> 29;
    return h; } };
struct EQ { bool operator() (E a, E b) const { return a->op == b->op && a->w == b->w && a->aux == b->aux && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c; } };
static std::unordered_set<E,EH,EQ> g_tab;
size_t xCount (void) { return g_pool.size(); }

static E mk (ExOp op, unsigned w, u32 aux, E a, E b, E c3, u128 c)
{
    Expr t; t.op = op; t.w = w; t.aux = aux; t.k[0] = a; t.k[1] = b; t.k[2] = c3; t.c = c;
    t.vars = nullptr; t.z = nullptr; t.ep = 0; t.ev = 0; t.id = g_pool.size();
    auto i = g_tab.find(&t);
    if (i != g_tab.end()) return *i;
    u32 sz = 1; for (int j = 0; j < 3; ++j) if (t.k[j]) sz += t.k[j]->size;
    t.size = sz < 1000000 ? sz : 1000000;
    g_pool.push_back(t);
    E r = &g_pool.back();
    g_tab.insert(r);
    return r;
}
E xConst (u128 v, unsigned w) { return mk(X_CONST, w, 0, 0,0,0, v & maskw(w)); }
E xSym (const string& name, unsigned w, bool uninit)
{
    u32 id = g_syms.size(); g_syms.push_back({name, w, uninit, false});
    E e = mk(X_SYM, w, id, 0,0,0, 0); g_symE.push_back(e); return e;
}
static u128 f2b (double d, unsigned w) { if (w == 32) { float f = (float) d; u32 r; memcpy(&r,&f,4); return r; } u64 r; memcpy(&r,&d,8); return r; }
static double b2f (u128 v, unsigned w) { if (w == 32) { u32 x = (u32) v; float f; memcpy(&f,&x,4); return f; } u64 x = (u64) v; double d; memcpy(&d,&x,8); return d; }

static u128 foldBin (ExOp op, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    switch (op) {
	case X_ADD: return (a + b) & m;
	case X_SUB: return (a - b) & m;
	case X_MUL: return (a * b) & m;
	case X_UDIV: return b ? a / b : m;
	case X_UREM: return b ? a % b : a;
	case X_SDIV: { s128 x = sextc(a,w), y = sextc(b,w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return ((u128)0 - (u128)x) & m; return (u128)(x / y) & m; }
	case X_SREM: { s128 x = sextc(a,w), y = sextc(b,w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
	case X_AND: return a & b;
	case X_OR: return a | b;
	case X_XOR: return a ^ b;
	case X_SHL: return b >= w ? 0 : (a << (unsigned) b) & m;
	case X_LSHR: return b >= w ? 0 : a >> (unsigned) b;
	case X_ASHR: { s128 x = sextc(a,w); return (u128)(x >> (b >= w ? w-1 : (unsigned) b)) & m; }
	case X_EQ: return a == b;
	case X_ULT: return a < b;
	case X_ULE: return a <= b;
	case X_SLT: return sextc(a,w) < sextc(b,w);
	case X_SLE: return sextc(a,w) <= sextc(b,w);
	default: abort();
    }
}
// LLVM fcmp predicate numbering: bit0 = EQ, bit1 = GT, bit2 = LT, bit3 = UNO
static bool foldFcmp (unsigned p, double a, double b)
{
    bool uno = std::isnan(a) || std::isnan(b);
    if (uno) return p & 8;
    return ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b);
}
static u128 foldFp (ExOp op, unsigned w, unsigned aux, u128 a, unsigned aw, u128 b)
{
    switch (op) {
	case X_FADD: if (w == 32) return f2b((float)b2f(a,32)+(float)b2f(b,32),32); return f2b(b2f(a,64)+b2f(b,64),64);
	case X_FSUB: if (w == 32) return f2b((float)b2f(a,32)-(float)b2f(b,32),32); return f2b(b2f(a,64)-b2f(b,64),64);
	case X_FMUL: if (w == 32) return f2b((float)b2f(a,32)*(float)b2f(b,32),32); return f2b(b2f(a,64)*b2f(b,64),64);
	case X_FDIV: if (w == 32) return f2b((float)b2f(a,32)/(float)b2f(b,32),32); return f2b(b2f(a,64)/b2f(b,64),64);
	case X_FCMP: return foldFcmp(aux, b2f(a,aw), b2f(b,aw));
	case X_SITOFP: { s64 v = (s64) sextc(a,aw); if (w == 32) { float f = (float) v; u32 r; memcpy(&r,&f,4); return r; } return f2b((double) v,64); }
	case X_UITOFP: { u64 v = (u64) a; if (w == 32) { float f = (float) v; u32 r; memcpy(&r,&f,4); return r; } return f2b((double) v,64); }
	case X_FPTOSI: { double d = b2f(a,aw); if (aux) d = __builtin_nearbyint(d); if (aux && !(d >= -2147483648.0 && d <= 2147483647.0)) return 0x80000000u; return (u128)(s128)(s64) d & maskw(w); }
	case X_FPTOUI: { double d = b2f(a,aw); return (u128)(u64) d & maskw(w); }
	case X_FPCVT: return f2b(b2f(a,aw), w);
	default: abort();
    }
}
bool g_fpUsed = false;
E xFp (ExOp op, unsigned w, unsigned aux, E a, E b)
{
    if (isC(a) && (!b || isC(b))) return xConst(foldFp(op, w, aux, a->c, a->w, b ? b->c : 0), w);
    if ((op == X_FADD || op == X_FMUL) && b && (isC(b) ? false : isC(a) || b->id < a->id)) std::swap(a,b);	// commute, up to the payload of a NaN
    return mk(op, w, aux, a, b, 0, 0);
}
E xNot (E a)
{
    if (isC(a)) return xConst(!a->c, 1);
    if (a->op == X_XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
    if (a->op == X_ULT) return xCmp(X_ULE, a->k[1], a->k[0]);
    if (a->op == X_ULE) return xCmp(X_ULT, a->k[1], a->k[0]);
    if (a->op == X_SLT) return xCmp(X_SLE, a->k[1], a->k[0]);
    if (a->op == X_SLE) return xCmp(X_SLT, a->k[1], a->k[0]);
    return mk(X_XOR, 1, 0, a, xConst(1,1), 0, 0);
}
E xExtract (E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
	case X_CONST: return xConst(a->c >> lo, w);
	case X_EXTRACT: return xExtract(a->k[0], a->aux + lo, w);
	case X_CONCAT: {
	    unsigned lw = a->k[1]->w;
	    if (lo >= lw) return xExtract(a->k[0], lo - lw, w);
	    if (lo + w <= lw) return xExtract(a->k[1], lo, w);
	    return xConcat(xExtract(a->k[0], 0, lo + w - lw), xExtract(a->k[1], lo, lw - lo));
	}
	case X_ZEXT: {
	    unsigned iw = a->k[0]->w;
	    if (lo >= iw) return xConst(0, w);
	    if (lo + w <= iw) return xExtract(a->k[0], lo, w);
	    return xZExt(xExtract(a->k[0], lo, iw - lo), w);
	}
	case X_SEXT: {
	    unsigned iw = a->k[0]->w;
	    if (lo + w <= iw) return xExtract(a->k[0], lo, w);
	    if (lo == 0) return xSExt(a->k[0], w);
	    break;
	}
	case X_AND: case X_OR: case X_XOR:
	    return xBin(a->op, xExtract(a->k[0],lo,w), xExtract(a->k[1],lo,w));
	case X_ADD: case X_SUB: case X_MUL:
	    if (lo == 0) return xBin(a->op, xExtract(a->k[0],0,w), xExtract(a->k[1],0,w));
	    break;
	case X_ITE:
	    if (isC(a->k[1]) || isC(a->k[2])) return xIte(a->k[0], xExtract(a->k[1],lo,w), xExtract(a->k[2],lo,w));
	    break;
	case X_LSHR:
	    if (isC(a->k[1]) && a->k[1]->c + lo + w <= a->w) return xExtract(a->k[0], lo + (unsigned) a->k[1]->c, w);
	    break;
	case X_SHL:
	    if (isC(a->k[1])) {
		u128 s = a->k[1]->c;
		if (lo >= s) return xExtract(a->k[0], lo - (unsigned) s, w);
		if (lo + w <= s) return xConst(0, w);
	    }
	    break;
	default: break;
    }
    return mk(X_EXTRACT, w, lo, a, 0,0,0);
}
E xConcat (E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return xConst((hi->c << lo->w) | lo->c, w);
    if (hi->op == X_EXTRACT && lo->op == X_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
	return xExtract(hi->k[0], lo->aux, w);
    if (hi->op == X_EXTRACT && hi->aux == lo->w && !isC(lo)) {		// the low part of arithmetic is pushed down by xExtract
	ExOp o = hi->k[0]->op; if ((o == X_ADD || o == X_SUB || o == X_MUL) && xExtract(hi->k[0],0,lo->w) == lo) return xExtract(hi->k[0],0,w);
    }
    if (isC(hi) && hi->c == 0) return xZExt(lo, w);
    // (h . (extract)) fuse: concat(extract(x,..), concat(extract(x,..), r))
    if (lo->op == X_CONCAT && hi->op == X_EXTRACT && lo->k[0]->op == X_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
	return xConcat(xExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    return mk(X_CONCAT, w, 0, hi, lo, 0, 0);
}
E xZExt (E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return xConst(a->c, w);
    if (a->op == X_ZEXT) return xZExt(a->k[0], w);
    if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return xIte(a->k[0], xConst(a->k[1]->c,w), xConst(a->k[2]->c,w));
    return mk(X_ZEXT, w, 0, a, 0,0,0);
}
E xSExt (E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return xConst((u128) sextc(a->c, a->w), w);
    if (a->op == X_SEXT) return xSExt(a->k[0], w);
    if (a->op == X_ZEXT) return xZExt(a->k[0], w);
    if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return xIte(a->k[0], xSExt(a->k[1],w), xSExt(a->k[2],w));
    return mk(X_SEXT, w, 0, a, 0,0,0);
}
E xIte (E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == X_XOR && c->w == 1 && isC(c->k[1])) return xIte(c->k[0], b, a);
    if (a->w == 1) {
	if (isC(a) && isC(b)) return a->c ? c : xNot(c);
	if (isC(a)) return a->c ? xBin(X_OR, c, b) : xBin(X_AND, xNot(c), b);
	if (isC(b)) return b->c ? xBin(X_OR, xNot(c), a) : xBin(X_AND, c, a);
    }
    if (a->op == X_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == X_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return mk(X_ITE, a->w, 0, c, a, b, 0);
}
static bool commut (ExOp op) { return op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ; }
E xBin (ExOp op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "internal: width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return xConst(foldBin(op, a->c, b->c, w), w);
    if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    if (isC(b)) {
	u128 c = b->c;
	switch (op) {
	    case X_ADD: if (!c) return a;
		if (a->op == X_ADD && isC(a->k[1])) return xBin(X_ADD, a->k[0], xConst(a->k[1]->c + c, w));
		if (a->op == X_SUB && isC(a->k[0])) return xBin(X_SUB, xConst(a->k[0]->c + c, w), a->k[1]);
		if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return xIte(a->k[0], xBin(op,a->k[1],b), xBin(op,a->k[2],b));
		break;
	    case X_SUB: return xBin(X_ADD, a, xConst((u128)0 - c, w));
	    case X_MUL: if (!c) return b; if (c == 1) return a;
		if ((c & (c-1)) == 0) { unsigned s = 0; while (!((c >> s) & 1)) ++s; return xBin(X_SHL, a, xConst(s, w)); }
		break;
	    case X_UDIV: if (c == 1) return a; if (c && w <= 64 && a->op == X_UDIV && isC(a->k[1]) && a->k[1]->c) { u128 p = a->k[1]->c * c; return p >> w ? xConst(0,w) : xBin(X_UDIV, a->k[0], xConst(p,w)); } 
		if (c && (c & (c-1)) == 0) { unsigned s = 0; while (!((c >> s) & 1)) ++s; return xBin(X_LSHR, a, xConst(s, w)); }
		break;
	    case X_UREM: if (c == 1) return xConst(0,w);
		if (c && (c & (c-1)) == 0) return xBin(X_AND, a, xConst(c-1, w));
		break;
	    case X_SDIV: if (c == 1) return a; break;
	    case X_AND: if (!c) return b; if (c == m) return a;
		if (a->op == X_AND && isC(a->k[1])) return xBin(X_AND, a->k[0], xConst(a->k[1]->c & c, w));
		if (a->op == X_OR && isC(a->k[1])) return xBin(X_OR, xBin(X_AND, a->k[0], xConst(c & ~a->k[1]->c & m, w)), xConst(a->k[1]->c & c, w));
		if (a->op == X_ZEXT) { unsigned iw = a->k[0]->w; return xZExt(xBin(X_AND, a->k[0], xConst(c, iw)), w); }
		// low mask
		if ((c & (c+1)) == 0) { unsigned n = 0; while ((c >> n) & 1) ++n; return xZExt(xExtract(a,0,n), w); }
		if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return xIte(a->k[0], xBin(op,a->k[1],b), xBin(op,a->k[2],b));
		break;
	    case X_OR: if (!c) return a; if (c == m) return b;
		if (a->op == X_OR && isC(a->k[1])) return xBin(X_OR, a->k[0], xConst(a->k[1]->c | c, w));
		if (a->op == X_AND && isC(a->k[1]) && (a->k[1]->c & c)) return xBin(X_OR, xBin(X_AND, a->k[0], xConst(a->k[1]->c & ~c & m, w)), b);
		break;
	    case X_XOR: if (!c) return a;
		if (a->op == X_XOR && isC(a->k[1])) return xBin(X_XOR, a->k[0], xConst(a->k[1]->c ^ c, w));
		if (w == 1) return xNot(a);
		break;
	    case X_SHL: case X_LSHR: if (!c) return a; if (c >= w) return xConst(0,w);
		if (op == X_LSHR) {	// becomes zext of extract
		    unsigned s = (unsigned) c; return xZExt(xExtract(a, s, w - s), w);
		}
		if (op == X_SHL) { unsigned s = (unsigned) c; return xConcat(xExtract(a, 0, w - s), xConst(0, s)); }
		break;
	    case X_ASHR: if (!c) return a; { unsigned s = c >= w ? w-1 : (unsigned) c; return xSExt(xExtract(a, s, w - s), w); }
	    default: break;
	}
    }
    if (isC(a)) {
	if ((op == X_SHL || op == X_LSHR || op == X_UDIV || op == X_UREM || op == X_SDIV || op == X_SREM) && a->c == 0 && op != X_UDIV && op != X_SDIV) return a;
    }
    if (a == b) switch (op) {
	case X_SUB: case X_XOR: return xConst(0, w);
	case X_AND: case X_OR: return a;
	default: break;
    }
    if (op == X_SUB && a->op == X_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (op == X_SUB && a->op == X_ADD && b->op == X_ADD && a->k[0] == b->k[0]) return xBin(X_SUB, a->k[1], b->k[1]);
    if (op == X_SUB && b->op == X_ZEXT && b->k[0]->op == X_EXTRACT && b->k[0]->aux == 0 && b->k[0]->k[0] == a && b->k[0]->w < w)	// round down to a power of two
	return xConcat(xExtract(a, b->k[0]->w, w - b->k[0]->w), xConst(0, b->k[0]->w));
    if (op == X_SUB && b->op == X_ZEXT && b->k[0]->w < w && !isC(b->k[0]) && a->op == X_ADD) { unsigned n = b->k[0]->w; if (b->k[0] == xExtract(a, 0, n)) return xConcat(xExtract(a, n, w - n), xConst(0, n)); }
    if (op == X_SUB && b->op == X_ADD && b->k[0] == a) return xBin(X_SUB, xConst(0,w), b->k[1]);
    if (op == X_ADD && b->op == X_SUB && b->k[1] == a) return b->k[0];
    if (op == X_ADD && a->op == X_SUB && a->k[1] == b) return a->k[0];
    if (op == X_OR && w > 1) {
	// zext(lo) | concat(hi,0..): merge into concat
	E p = a, q = b;
	for (int t = 0; t < 2; ++t, std::swap(p,q)) {
	    if (p->op == X_CONCAT && isC(p->k[1]) && p->k[1]->c == 0 && q->op == X_ZEXT && q->k[0]->w <= p->k[1]->w)
		return xConcat(p->k[0], xZExt(q->k[0], p->k[1]->w));
	}
    }
    if (w == 1 && (op == X_AND || op == X_OR)) {
	if (xNot(a) == b) return xConst(op == X_OR, 1);
    }
    return mk(op, w, 0, a, b, 0, 0);
}
E xCmp (ExOp op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "internal: cmp width mismatch %u %u\n", a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return xConst(foldBin(op, a->c, b->c, w), 1);
    if (a == b) return xConst(op == X_EQ || op == X_ULE || op == X_SLE, 1);
    if (op == X_EQ) {
	if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a,b);
	if (isC(b)) {
	    if (w == 1) return b->c ? a : xNot(a);
	    switch (a->op) {
		case X_ZEXT: if (b->c >> a->k[0]->w) return xConst(0,1); return xCmp(X_EQ, a->k[0], xConst(b->c, a->k[0]->w));
		case X_SEXT: { u128 t = b->c & maskw(a->k[0]->w); if (((u128) sextc(t, a->k[0]->w) & maskw(w)) != b->c) return xConst(0,1); return xCmp(X_EQ, a->k[0], xConst(t, a->k[0]->w)); }
		case X_ADD: if (isC(a->k[1])) return xCmp(X_EQ, a->k[0], xConst(b->c - a->k[1]->c, w)); break;
		case X_SUB: if (b->c == 0) return xCmp(X_EQ, a->k[0], a->k[1]); if (isC(a->k[0])) return xCmp(X_EQ, a->k[1], xConst(a->k[0]->c - b->c, w)); break;
		case X_UDIV: if (w <= 64 && isC(a->k[1]) && a->k[1]->c) {	// x/c == k: k*c <= x < k*c+c
		    u128 lo = b->c * a->k[1]->c, hi = lo + a->k[1]->c - 1; if (lo >> w) return xConst(0,1); if (hi >> w) hi = maskw(w);
		    return xBin(X_AND, xCmp(X_ULE, xConst(lo,w), a->k[0]), xCmp(X_ULE, a->k[0], xConst(hi,w))); } break;
		case X_XOR: if (isC(a->k[1])) return xCmp(X_EQ, a->k[0], xConst(a->k[1]->c ^ b->c, w)); if (b->c == 0) return xCmp(X_EQ, a->k[0], a->k[1]); break;
		case X_ITE: if (isC(a->k[1]) || isC(a->k[2])) return xIte(a->k[0], xCmp(X_EQ,a->k[1],b), xCmp(X_EQ,a->k[2],b)); break;
		case X_CONCAT: if (isC(a->k[0]) || isC(a->k[1])) {
		    unsigned lw = a->k[1]->w;
		    return xBin(X_AND, xCmp(X_EQ, a->k[0], xConst(b->c >> lw, a->k[0]->w)), xCmp(X_EQ, a->k[1], xConst(b->c, lw))); }
		    break;
		default: break;
	    }
	}
	if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return xCmp(X_EQ, a->k[0], b->k[0]);
	if (a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return xCmp(X_EQ, a->k[0], b->k[0]);
	return mk(X_EQ, 1, 0, a, b, 0, 0);
    }
    if (op == X_ULT) {
	if (isC(b)) { if (b->c == 0) return xConst(0,1); if (b->c == 1) return xCmp(X_EQ, a, xConst(0,w)); }
	if (isC(a) && a->c == maskw(w)) return xConst(0,1);
	if (isC(a) && a->c == 0) return xNot(xCmp(X_EQ, b, a));
    }
    if (op == X_ULE) {
	if (isC(b) && b->c == maskw(w)) return xConst(1,1);
	if (isC(a) && a->c == 0) return xConst(1,1);
	if (isC(b) && b->c == 0) return xCmp(X_EQ, a, b);
    }
    bool uns = op == X_ULT || op == X_ULE;
    if (uns && w <= 64 && a->op == X_UDIV && isC(a->k[1]) && a->k[1]->c && isC(b)) { u128 lim = (b->c + (op == X_ULE)) * a->k[1]->c; return lim >> w ? xConst(1,1) : xCmp(X_ULT, a->k[0], xConst(lim,w)); }
    if (uns && w <= 64 && b->op == X_UDIV && isC(b->k[1]) && b->k[1]->c && isC(a)) { u128 lim = (a->c + (op == X_ULT)) * b->k[1]->c; return lim >> w ? xConst(0,1) : xCmp(X_ULE, xConst(lim,w), b->k[0]); }
    if (a->op == X_ZEXT && isC(b)) {
	unsigned iw = a->k[0]->w;
	if (uns || sextc(b->c, w) >= 0) { if (b->c >> iw) return xConst(1,1); return xCmp(uns ? op : op == X_SLT ? X_ULT : X_ULE, a->k[0], xConst(b->c, iw)); }
	return xConst(0,1);	// signed compare of nonneg with negative: a < neg false
    }
    if (b->op == X_ZEXT && isC(a)) {
	unsigned iw = b->k[0]->w;
	if (uns || sextc(a->c, w) >= 0) { if (a->c >> iw) return xConst(0,1); return xCmp(uns ? op : op == X_SLT ? X_ULT : X_ULE, xConst(a->c, iw), b->k[0]); }
	return xConst(1,1);
    }
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return xCmp(uns ? op : op == X_SLT ? X_ULT : X_ULE, a->k[0], b->k[0]);
    if (!uns && a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return xCmp(op, a->k[0], b->k[0]);
    if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return xIte(a->k[0], xCmp(op,a->k[1],b), xCmp(op,a->k[2],b));
    if (b->op == X_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return xIte(b->k[0], xCmp(op,a,b->k[1]), xCmp(op,a,b->k[2]));
    return mk(op, 1, 0, a, b, 0, 0);
}

static u32 g_ep = 0; static ModelRef g_epModel;
static u128 ev (E e, const Model& m)
{
    if (e->op == X_CONST) return e->c;
    if (e->op == X_SYM) return e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0;
    if (e->ep == g_ep) return e->ev;
    u128 r = 0;
    switch (e->op) {
	case X_ZEXT: r = ev(e->k[0],m); break;
	case X_SEXT: r = (u128) sextc(ev(e->k[0],m), e->k[0]->w) & maskw(e->w); break;
	case X_EXTRACT: r = (ev(e->k[0],m) >> e->aux) & maskw(e->w); break;
	case X_CONCAT: r = (ev(e->k[0],m) << e->k[1]->w) | ev(e->k[1],m); break;
	case X_ITE: r = ev(e->k[0],m) ? ev(e->k[1],m) : ev(e->k[2],m); break;
	case X_FADD: case X_FSUB: case X_FMUL: case X_FDIV: case X_FCMP: case X_SITOFP: case X_UITOFP: case X_FPTOSI: case X_FPTOUI: case X_FPCVT:
	    r = foldFp(e->op, e->w, e->aux, ev(e->k[0],m), e->k[0]->w, e->k[1] ? ev(e->k[1],m) : 0); break;
	default: r = foldBin(e->op, ev(e->k[0],m), ev(e->k[1],m), e->k[0]->w);
    }
    e->ep = g_ep; e->ev = r;
    return r;
}
u128 xEval (E e, const ModelRef& m)
{
    if (isC(e)) return e->c;
    if (m != g_epModel || !g_ep) { ++g_ep; g_epModel = m; }
    return ev(e, *m);
}
static std::set<VarSet> g_vs;
const VarSet& xVars (E e)
{
    if (e->vars) return *e->vars;
    VarSet r;
    if (e->op == X_SYM) r.push_back(e->aux);
    else for (int i = 0; i < 3; ++i) if (e->k[i]) {
	const VarSet& v = xVars(e->k[i]);
	if (r.empty()) r = v;
	else if (!v.empty() && &v != nullptr) { VarSet t; std::set_union(r.begin(),r.end(),v.begin(),v.end(),std::back_inserter(t)); r.swap(t); }
    }
    e->vars = &*g_vs.insert(r).first;
    return *e->vars;
}
bool xHasUninit (E e) { for (u32 v : xVars(e)) if (g_syms[v].uninit) return true; return false; }

static Z3_context g_ctx;
static void zerr (Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c,e)); _exit(3); }
Z3_context z3ctx (void)
{
    if (!g_ctx) { Z3_config cfg = Z3_mk_config(); g_ctx = Z3_mk_context(cfg); Z3_set_error_handler(g_ctx, zerr); Z3_del_config(cfg); }
    return g_ctx;
}
static Z3_ast b2bv (Z3_context c, Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1)), Z3_mk_unsigned_int64(c,0,Z3_mk_bv_sort(c,1))); }
static Z3_ast bv2b (Z3_context c, Z3_ast v) { return Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1))); }
// every w==1 expression is kept as a 1-bit vector
Z3_ast xZ3 (E e)
{
    if (e->z) return e->z;
    Z3_context c = z3ctx();
    Z3_ast r = 0, a[3] = {0,0,0};
    for (int i = 0; i < 3; ++i) if (e->k[i]) a[i] = xZ3(e->k[i]);
    auto fs = [&](unsigned w){ return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); };
    auto fp = [&](Z3_ast x, unsigned w){ return Z3_mk_fpa_to_fp_bv(c, x, fs(w)); };
    switch (e->op) {
	case X_CONST: if (e->w <= 64) r = Z3_mk_unsigned_int64(c, (u64) e->c, Z3_mk_bv_sort(c,e->w));
	    else { Z3_ast lo = Z3_mk_unsigned_int64(c,(u64) e->c,Z3_mk_bv_sort(c,64)), hi = Z3_mk_unsigned_int64(c,(u64)(e->c>>64),Z3_mk_bv_sort(c,e->w-64)); r = Z3_mk_concat(c,hi,lo); }
	    break;
	case X_SYM: { char nm[32]; snprintf(nm,sizeof nm,"v%u",e->aux); r = Z3_mk_const(c, Z3_mk_string_symbol(c,nm), Z3_mk_bv_sort(c,e->w)); break; }
	case X_ADD: r = Z3_mk_bvadd(c,a[0],a[1]); break;
	case X_SUB: r = Z3_mk_bvsub(c,a[0],a[1]); break;
	case X_MUL: r = Z3_mk_bvmul(c,a[0],a[1]); break;
	case X_UDIV: r = Z3_mk_bvudiv(c,a[0],a[1]); break;
	case X_SDIV: r = Z3_mk_bvsdiv(c,a[0],a[1]); break;
	case X_UREM: r = Z3_mk_bvurem(c,a[0],a[1]); break;
	case X_SREM: r = Z3_mk_bvsrem(c,a[0],a[1]); break;
	case X_AND: r = Z3_mk_bvand(c,a[0],a[1]); break;
	case X_OR: r = Z3_mk_bvor(c,a[0],a[1]); break;
	case X_XOR: r = Z3_mk_bvxor(c,a[0],a[1]); break;
	case X_SHL: r = Z3_mk_bvshl(c,a[0],a[1]); break;
	case X_LSHR: r = Z3_mk_bvlshr(c,a[0],a[1]); break;
	case X_ASHR: r = Z3_mk_bvashr(c,a[0],a[1]); break;
	case X_EQ: r = b2bv(c,Z3_mk_eq(c,a[0],a[1])); break;
	case X_ULT: r = b2bv(c,Z3_mk_bvult(c,a[0],a[1])); break;
	case X_ULE: r = b2bv(c,Z3_mk_bvule(c,a[0],a[1])); break;
	case X_SLT: r = b2bv(c,Z3_mk_bvslt(c,a[0],a[1])); break;
	case X_SLE: r = b2bv(c,Z3_mk_bvsle(c,a[0],a[1])); break;
	case X_ZEXT: r = Z3_mk_zero_ext(c,e->w - e->k[0]->w,a[0]); break;
	case X_SEXT: r = Z3_mk_sign_ext(c,e->w - e->k[0]->w,a[0]); break;
	case X_EXTRACT: r = Z3_mk_extract(c,e->aux + e->w - 1,e->aux,a[0]); break;
	case X_CONCAT: r = Z3_mk_concat(c,a[0],a[1]); break;
	case X_ITE: r = Z3_mk_ite(c,bv2b(c,a[0]),a[1],a[2]); break;
	case X_FADD: g_fpUsed = true; r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), fp(a[0],e->w), fp(a[1],e->w))); break;
	case X_FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), fp(a[0],e->w), fp(a[1],e->w))); break;
	case X_FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), fp(a[0],e->w), fp(a[1],e->w))); break;
	case X_FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), fp(a[0],e->w), fp(a[1],e->w))); break;
	case X_FCMP: { g_fpUsed = true;
	    unsigned w = e->k[0]->w; Z3_ast x = fp(a[0],w), y = fp(a[1],w);
	    Z3_ast u[2] = { Z3_mk_fpa_is_nan(c,x), Z3_mk_fpa_is_nan(c,y) };
	    Z3_ast uno = Z3_mk_or(c,2,u), cs[4]; unsigned n = 0;
	    if (e->aux & 1) cs[n++] = Z3_mk_fpa_eq(c,x,y);
	    if (e->aux & 2) cs[n++] = Z3_mk_fpa_gt(c,x,y);
	    if (e->aux & 4) cs[n++] = Z3_mk_fpa_lt(c,x,y);
	    if (e->aux & 8) cs[n++] = uno;
	    r = b2bv(c, n ? Z3_mk_or(c,n,cs) : Z3_mk_false(c)); break; }
	case X_SITOFP: g_fpUsed = true; r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a[0], fs(e->w))); break;
	case X_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a[0], fs(e->w))); break;
	case X_FPTOSI: r = Z3_mk_fpa_to_sbv(c, e->aux ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rtz(c), fp(a[0],e->k[0]->w), e->w); break;
	case X_FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(a[0],e->k[0]->w), e->w); break;
	case X_FPCVT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(a[0],e->k[0]->w), fs(e->w))); break;
    }
    e->z = r;
    return r;
}
static const char* opn[] = {"const","sym","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","zext","sext","extract","concat","ite","fadd","fsub","fmul","fdiv","fcmp","sitofp","uitofp","fptosi","fptoui","fpcvt"};
string xStr (E e, int d)
{
    if (!e) return "null";
    if (isC(e)) return std::to_string((u64) e->c) + ":" + std::to_string(e->w);
    if (e->op == X_SYM) return g_syms[e->aux].name;
    if (!d) return "...";
    string s = string("(") + opn[e->op];
    if (e->op == X_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    for (int i = 0; i < 3; ++i) if (e->k[i]) s += " " + xStr(e->k[i], d-1);
    return s + ")";
}
