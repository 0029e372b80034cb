//@ property=C29 
//@ oracle="the scalar operation applied to each element in wide integer arithmetic; linear algebra sums written out"
//@ entry=h_pack cases=0-119 bound="12 tuple types (2, 4 and 8 elements of 8, 16 and 32 bits, signed and not: the accelerated shapes; 3 of int16, 5 of uint8, 3 of uint32: generic ones) with 10 operations; every element value"
//@ entry=h_pmul cases=0-11 bound="pmul, pdiv, pshl and pshr of every tuple type: factors, divisors and counts from a list, two elements of 6 symbolic bits"
//@ entry=h_pack3 cases=0-8 bound="three operand operations of five tuple types, every element value"
//@ entry=h_tuple cases=0-11 bound="construction, conversion, assignment, swap, comparison and access of 12 tuple types, every element value"
//@ entry=h_tupop cases=0-11 bound="operators between tuples, with scalars and with initializer lists of 0 to N+1 elements: + and - of every element value"
//@ entry=h_tupmul cases=0-11 bound="* and / of two elements of 4 symbolic bits by values from a list"
//@ entry=h_array cases=0-1 bound="array of 3 int32 and 5 uint8: every operation, every element value (* and / from a list)"
//@ entry=h_matrix cases=0-2 bound="int 2x3, 3x3 and 4x4: access, rows, columns, operators, conversions, any elements"
//@ entry=h_linalg cases=0-4 bound="products of int matrices (2x3 by 3x2, 3x3, 1x2 by 2x1) and vectors, elements of 3 symbolic bits at two places of each operand; transposition and identity"
//@ entry=h_mat4f cases=0-3 bound="4x4 float: identity, assignment, transposition, of any 32 bits; products with integer elements, one column and row of 2 symbolic bits"
//@ entry=h_float cases=0-3 bound="packed float operations: + - * / of 8 bit integers, min, max, rounding and saturation from a list of 12 values"
//@ outside="overflow of 32 bit signed arithmetic and of averages of 32 bit integers; sine, cosine, tangent; 3DNow"
#include "uutility.h"
#include "hx.h"
#include "umatrix.h"
#include "ulaalgo.h"
#include "uarray.h"
#include <string.h>
using namespace simd;
typedef tuple<8,uint8_t> T0; typedef tuple<8,int8_t> T1; typedef tuple<4,uint16_t> T2; typedef tuple<4,int16_t> T3; typedef tuple<2,uint32_t> T4; typedef tuple<2,int32_t> T5; typedef tuple<4,uint32_t> T6; typedef tuple<4,int32_t> T7; typedef tuple<3,int16_t> T8; typedef tuple<5,uint8_t> T9; typedef tuple<3,uint32_t> T10; typedef tuple<2,int16_t> T11;
template <typename T> struct shape; template <size_t n, typename E> struct shape<tuple<n,E> > { typedef E el; static const size_t N = n; };
#define EL typedef typename shape<T>::el E; static const size_t N = shape<T>::N;
// elements, and a tuple of its own heap block
template <typename T> struct box { EL; exact x; T& t; E v [N]; box (const char* n) : x (sizeof(T)), t (*(T*) x.p) { for (size_t i = 0; i < N; ++i) { v[i] = E(sym_bits (sizeof(E)*8,n)); t[i] = v[i]; } }
    bool same (void) const { bool ok = true; for (size_t i = 0; i < N; ++i) ok &= t[i] == v[i]; return ok; } };
template <typename E> struct wide { static const bool sg = E(-1) < E(0); static int64_t hi (void) { return sg ? (1ll<<(sizeof(E)*8-1))-1 : (1ll<<(sizeof(E)*8))-1; } static int64_t lo (void) { return sg ? -(1ll<<(sizeof(E)*8-1)) : 0; } };
template <typename E> static E op2 (int op, E a, E b)	// a op b
{
    int64_t x = a, y = b;
    switch (op) {
	case 0: return E(uint64_t(x)+uint64_t(y)); case 1: return E(uint64_t(x)-uint64_t(y)); case 2: return E(x & y); case 3: return E(x | y); case 4: return E(x ^ y);
	case 5: return y < x ? b : a; case 6: return y < x ? a : b; case 7: return E((x+y+1)/2); case 8: { int64_t r = x+y, h = wide<E>::hi(), l = wide<E>::lo(); return E(r > h ? h : r < l ? l : r); }
	default: { int64_t r = x-y, h = wide<E>::hi(), l = wide<E>::lo(); return E(r > h ? h : r < l ? l : r); }
    }
}
template <typename E> static void inRange (int op, E a, E b) { int64_t x = a, y = b; if (sizeof(E) < 4) return; if (wide<E>::sg && op < 2) { int64_t r = op ? x-y : x+y; sym_assume (r == int32_t(r)); } if (op == 7) { int64_t r = x+y+1; sym_assume (r == int64_t(E(x+y+1)) && x+y == int64_t(E(x+y))); } }
static const int NOps = 10;
template <typename T> static void pack (int op)
{
    EL; box<T> a ("a"), b ("b"); E r [N]; for (size_t i = 0; i < N; ++i) { inRange (op, b.v[i], a.v[i]); r[i] = op2 (op, b.v[i], a.v[i]); }
    switch (op) { case 0: padd (a.t,b.t); break; case 1: psub (a.t,b.t); break; case 2: pand (a.t,b.t); break; case 3: por (a.t,b.t); break; case 4: pxor (a.t,b.t); break; case 5: pmin (a.t,b.t); break; case 6: pmax (a.t,b.t); break; case 7: pavg (a.t,b.t); break; case 8: padds (a.t,b.t); break; case 9: psubs (a.t,b.t); break; }
    CHECK(a.same(), "the source is unchanged"); memcpy (b.v, r, sizeof(r)); CHECK(b.same(), "each element"); 
}
template <typename T> static void pack3 (int op)
{
    EL; box<T> a ("a"), b ("b"), c ("c"); E r [N]; for (size_t i = 0; i < N; ++i) { inRange (op, a.v[i], b.v[i]); r[i] = op2 (op, a.v[i], b.v[i]); }
    switch (op) { case 0: padd (a.t,b.t,c.t); break; case 1: psub (a.t,b.t,c.t); break; case 2: pand (a.t,b.t,c.t); break; case 3: por (a.t,b.t,c.t); break; case 4: pxor (a.t,b.t,c.t); break; case 5: pmin (a.t,b.t,c.t); break; case 6: pmax (a.t,b.t,c.t); break; case 8: padds (a.t,b.t,c.t); break; case 9: psubs (a.t,b.t,c.t); break; default: return; }
    CHECK(a.same() && b.same(), "the operands are unchanged"); memcpy (c.v, r, sizeof(r)); CHECK(c.same(), "each element"); 
}
#define EACH(c,f,...) switch (c) { case 0: f<T0> (__VA_ARGS__); break; case 1: f<T1> (__VA_ARGS__); break; case 2: f<T2> (__VA_ARGS__); break; case 3: f<T3> (__VA_ARGS__); break; case 4: f<T4> (__VA_ARGS__); break; case 5: f<T5> (__VA_ARGS__); break; case 6: f<T6> (__VA_ARGS__); break; case 7: f<T7> (__VA_ARGS__); break; case 8: f<T8> (__VA_ARGS__); break; case 9: f<T9> (__VA_ARGS__); break; case 10: f<T10> (__VA_ARGS__); break; case 11: f<T11> (__VA_ARGS__); break; }
extern "C" void h_pack (int c) { int op = c%10; EACH(c/10,pack,op) }
extern "C" void h_pack3 (int c) { static const int O[] = {0,1,2,3,4,5,6,8,9}; int op = O[c]; switch (sym_pick (0,4,"type")) { case 0: pack3<T0>(op); break; case 1: pack3<T3>(op); break; case 2: pack3<T7>(op); break; case 3: pack3<T8>(op); break; case 4: pack3<T4>(op); break; } }
static const int Few [] = {0,1,2,3,5,7,10,16,100,-1,-3,-128};
template <typename E> static E few (const char* n, bool nz = false) { return E(Few[sym_pick (nz,11,n)]); }
template <typename T> static void mulT (int)
{
    EL; exact xa (sizeof(T)), xb (sizeof(T)); T &a = *(T*) xa.p, &b = *(T*) xb.p; E va[N], vb[N], r[N]; size_t i = sym_pick (0,N-1,"at"); int op = sym_pick (0,3,"op"); for (size_t k = 0; k < N; ++k) { va[k] = E(k+1); vb[k] = E(k*3+1); }
    E x = E(sym_bits (6,"x")), f = op < 2 ? few<E> ("f",op==1) : E(sym_pick (0,sizeof(E)*8-1 < 5 ? 5 : 7,"shift")); if (wide<E>::sg && op < 2 && sym_bool ("negative")) x = E(-x); vb[i] = x; va[i] = f;
    for (size_t k = 0; k < N; ++k) { a[k] = va[k]; b[k] = vb[k]; int64_t p = vb[k], q = va[k]; r[k] = E(op == 0 ? p*q : op == 1 ? p/q : op == 2 ? p << (q&31) : p >> (q&31)); }
    if (op == 0) pmul (a,b); else if (op == 1) pdiv (a,b); else if (op == 2) pshl (a,b); else pshr (a,b); bool ok = true; for (size_t k = 0; k < N; ++k) ok &= (b[k] == r[k]) & (a[k] == va[k]); CHECK(ok, "each element");
}
extern "C" void h_pmul (int c) { EACH(c,mulT,0) }
template <typename T> struct other; template <size_t n, typename E> struct other<tuple<n,E> > { typedef typename conditional<(E(-1) < E(0)),typename make_unsigned<E>::type,typename make_signed<E>::type>::type flip; typedef tuple<n,flip> type; typedef tuple<n,int64_t> widen; };
template <typename T> static void cons (int)
{
    EL; box<T> a ("a"), b ("b"); bool ok = true;
    switch (sym_pick (0,9,"what")) {
	case 0: { exact x (sizeof(T)); memset (x.p, 0x55, sizeof(T)); T& t = *new (x.p) T; for (size_t i = 0; i < N; ++i) ok &= t[i] == 0; CHECK(ok, "zeroed"); } break;
	case 1: { T t (a.t); for (size_t i = 0; i < N; ++i) ok &= t[i] == a.v[i]; CHECK(ok && a.same(), "copied"); T u (a.t.begin()); for (size_t i = 0; i < N; ++i) ok &= u[i] == a.v[i]; CHECK(ok, "from elements"); } break;
	case 2: { T t (a.v[0]), u (a.v[0],a.v[1]); for (size_t i = 0; i < N; ++i) ok &= (t[i] == a.v[0]) & (u[i] == a.v[i ? 1 : 0]); CHECK(ok, "filled"); if (N < 3) break; T v (a.v[0],a.v[1],b.v[0]); for (size_t i = 0; i < N; ++i) ok &= v[i] == (i > 1 ? b.v[0] : a.v[i]); CHECK(ok, "filled"); if (N < 4) break; T w (a.v[0],a.v[1],b.v[0],b.v[1]); for (size_t i = 0; i < N; ++i) ok &= w[i] == (i > 2 ? b.v[1] : i == 2 ? b.v[0] : a.v[i]); CHECK(ok, "filled"); } break;
	case 3: { b.t = a.t; memcpy (b.v, a.v, sizeof(a.v)); CHECK(a.same() && b.same(), "assigned"); } break;
	case 4: { E t [N]; a.t.swap (b.t); memcpy (t, a.v, sizeof(t)); memcpy (a.v, b.v, sizeof(t)); memcpy (b.v, t, sizeof(t)); CHECK(a.same() && b.same(), "exchanged"); } break;
	case 5: { typedef typename other<T>::type O; O o (a.t), p; p = a.t; for (size_t i = 0; i < N; ++i) ok &= (o[i] == (typename other<T>::flip) a.v[i]) & (p[i] == (typename other<T>::flip) a.v[i]); T q (o); for (size_t i = 0; i < N; ++i) ok &= q[i] == a.v[i]; CHECK(ok, "converted"); typename other<T>::widen w (a.t); for (size_t i = 0; i < N; ++i) ok &= w[i] == int64_t(a.v[i]); CHECK(ok && a.same(), "widened"); } break;
	case 6: { bool e = true; int l = 0; for (size_t i = N; i--;) { e &= a.v[i] == b.v[i]; l = a.v[i] == b.v[i] ? l : a.v[i] < b.v[i]; } CHECK((a.t == b.t) == e, "=="); CHECK((a.t < b.t) == l, "<"); } break;
	case 7: { CHECK(a.t.size() == N && !a.t.empty() && a.t.end() == a.t.begin()+N && a.t.at(N-1) == a.v[N-1] && *a.t.begin() == a.v[0], "access"); a.t[N-1] = b.v[0]; a.v[N-1] = b.v[0]; CHECK(a.same(), "one element changed"); } break;
	case 8: { T t {}; size_t n = sym_pick (0,3,"list"); E fill [N]; for (size_t i = 0; i < N; ++i) fill[i] = 0; if (n == 0) t = {a.v[0]}; else if (n == 1) t = {a.v[0],a.v[1]}; else if (n == 2) t = {a.v[0],a.v[1],b.v[0]}; else t.assign ({a.v[0],a.v[1],b.v[0],b.v[1],a.v[0],a.v[1],b.v[0],b.v[1],a.v[0],a.v[1]}); E s[10] = {a.v[0],a.v[1],b.v[0],b.v[1],a.v[0],a.v[1],b.v[0],b.v[1],a.v[0],a.v[1]}; size_t k = n == 3 ? 10 : n+1; for (size_t i = 0; i < N; ++i) ok &= t[i] == (i < k ? s[i] : E(0)); CHECK(ok, "from a list"); } break;
	case 9: { passign (a.t,b.t); memcpy (b.v, a.v, sizeof(a.v)); CHECK(a.same() && b.same(), "passign"); T t; ipassign (a.t.begin(), t); for (size_t i = 0; i < N; ++i) ok &= t[i] == a.v[i]; CHECK(ok, "ipassign"); T u; pconvert (a.t, u, fcast<E,E>()); CHECK(u == a.t, "pconvert"); } break;
    }
}
extern "C" void h_tuple (int c) { EACH(c,cons,0) }
template <typename T> static void ops (int)
{
    EL; box<T> a ("a"), b ("b"); int op = sym_pick (0,1,"minus"); bool ok = true; E r[N]; size_t n = 0; E s = b.v[0];
    switch (sym_pick (0,4,"form")) {
	case 0: for (size_t i = 0; i < N; ++i) { inRange (op,a.v[i],b.v[i]); r[i] = op2 (op,a.v[i],b.v[i]); } { if (op) a.t -= b.t; else a.t += b.t; } memcpy (a.v, r, sizeof(r)); CHECK(a.same() && b.same(), "each element"); break;
	case 1: for (size_t i = 0; i < N; ++i) { inRange (op,a.v[i],b.v[i]); r[i] = op2 (op,a.v[i],b.v[i]); } { T t (op ? a.t-b.t : a.t+b.t); for (size_t i = 0; i < N; ++i) ok &= t[i] == r[i]; } CHECK(ok && a.same() && b.same(), "each element"); break;
	case 2: for (size_t i = 0; i < N; ++i) { inRange (op,a.v[i],s); r[i] = op2 (op,a.v[i],s); } { T t (op ? a.t-s : a.t+s); for (size_t i = 0; i < N; ++i) ok &= t[i] == r[i]; CHECK(ok && a.same(), "each element"); if (op) a.t -= s; else a.t += s; memcpy (a.v, r, sizeof(r)); CHECK(a.same(), "each element"); } break;
	case 3: { n = sym_pick (0,2,"list"); size_t k = n == 2 ? 9 : n; if (k > N) k = N; for (size_t i = 0; i < N; ++i) { if (i < k) inRange (op,a.v[i],s); r[i] = i < k ? op2 (op,a.v[i],s) : a.v[i]; } if (n == 0) { if (op) a.t.operator-= (typename T::initlist_t()); else a.t.operator+= (typename T::initlist_t()); } else if (n == 1) { if (op) a.t -= {s}; else a.t += {s}; } else if (op) a.t -= {s,s,s,s,s,s,s,s,s}; else a.t += {s,s,s,s,s,s,s,s,s}; memcpy (a.v, r, sizeof(r)); CHECK(a.same(), "each listed element"); } break;
	case 4: { typedef typename other<T>::widen W; W w; for (size_t i = 0; i < N; ++i) { w[i] = s; inRange (op,a.v[i],s); r[i] = op2 (op,a.v[i],s); } if (op) a.t -= w; else a.t += w; memcpy (a.v, r, sizeof(r)); CHECK(a.same(), "each element, mixed types"); } break;
    }
}
extern "C" void h_tupop (int c) { EACH(c,ops,0) }
template <typename T> static void tmul (int)
{
    EL; T a, b; E va[N], r[N]; int op = sym_pick (0,1,"divide"); E f = few<E> ("f",op==1); for (size_t k = 0; k < N; ++k) { va[k] = E(k+1); b[k] = f; } va[0] = E(sym_bits (4,"x")); va[N-1] = E(sym_bits (4,"y")); if (wide<E>::sg && sym_bool ("negative")) { va[0] = E(-va[0]); }
    for (size_t k = 0; k < N; ++k) { a[k] = va[k]; int64_t p = va[k], q = f; r[k] = E(op ? p/q : p*q); } bool ok = true;
    T t (op ? a/b : a*b), u (op ? a/f : a*f), v (a), w (a), x (a); if (op) { v /= b; w /= f; x /= {f}; } else { v *= b; w *= f; x *= {f}; } for (size_t k = 0; k < N; ++k) ok &= (t[k] == r[k]) & (u[k] == r[k]) & (v[k] == r[k]) & (w[k] == r[k]) & (x[k] == (k ? va[k] : r[k])) & (a[k] == va[k]); CHECK(ok, "each element");
}
extern "C" void h_tupmul (int c) { EACH(c,tmul,0) }
template <typename E, size_t N> static void arr (void)
{
    typedef array<E,N> A; A a, b; E va[N], vb[N]; for (size_t i = 0; i < N; ++i) { a[i] = va[i] = E(sym_bits (sizeof(E)*8,"a")); b.at(i) = vb[i] = E(sym_bits (sizeof(E)*8,"b")); } bool ok = true; E s = vb[0]; const A ca (a); int form = sym_pick (0,8,"form");
    for (int op = 0; op < 2; ++op) { if (form != op+2) continue;
	for (size_t i = 0; i < N; ++i) { inRange (op,va[i],vb[i]); inRange (op,va[i],s); } A t (op ? ca-b : ca+b), u (op ? ca-s : ca+s), v (ca), w (ca), x (ca); if (op) { v -= b; w -= s; } else { v += b; w += s; } for (size_t i = 0; i < N; ++i) { E r = op2 (op,va[i],vb[i]), q = op2 (op,va[i],s); ok &= (t[i] == r) & (v[i] == r) & (u[i] == q) & (w[i] == q); } CHECK(ok, "each element"); }
    for (int op = 0; op < 2; ++op) { if (form != op+4) continue; E f = few<E> ("f",op); A m, g; for (size_t i = 0; i < N; ++i) { m[i] = va[i] = E(sym_bits (4,"m")); g[i] = f; } A t (op ? m/g : m*g), u (op ? m/f : m*f), v (m), w (m); if (op) { v /= g; w /= f; } else { v *= g; w *= f; } for (size_t i = 0; i < N; ++i) { int64_t p = va[i], q = f; E r = E(op ? p/q : p*q); ok &= (t[i] == r) & (u[i] == r) & (v[i] == r) & (w[i] == r); } CHECK(ok, "each element"); return; }
    if (form == 0) { bool e = true; int l = 0; for (size_t i = N; i--;) { e &= va[i] == vb[i]; l = va[i] == vb[i] ? l : va[i] < vb[i]; } CHECK((a == b) == e, "=="); CHECK((a < b) == l, "<"); }
    if (form == 1) { a.swap (b); for (size_t i = 0; i < N; ++i) ok &= (a[i] == vb[i]) & (b[i] == va[i]); CHECK(ok, "exchanged"); a.fill (va[1]); for (size_t i = 0; i < N; ++i) ok &= (a[i] == va[1]) & (b[i] == va[i]); CHECK(ok, "filled"); CHECK(ca.size() == N && ca.max_size() == N && !ca.empty() && ca.end() == ca.begin()+N && ca.begin() == &ca[0] && ca.at(N-1) == va[N-1], "access"); }
    if (form == 6) { static_assert (N == 3 || N == 5, "lists below"); for (size_t i = 0; i < N; ++i) inRange (0,va[i],s); if (N == 3) { a += {s,s,s}; b = ca + typename A::initlist_t {s,s,s}; } else { a += {s,s,s,s,s}; b = ca + typename A::initlist_t {s,s,s,s,s}; } for (size_t i = 0; i < N; ++i) { E r = op2 (0,va[i],s); ok &= (a[i] == r) & (b[i] == r); } CHECK(ok, "with a list"); }
    if (form == 7) { A x (a), y; y = x; for (size_t i = 0; i < N; ++i) ok &= (x[i] == va[i]) & (y[i] == va[i]); CHECK(ok, "copied"); }
    if (form == 8) { for (size_t i = 0; i < N; ++i) inRange (1,va[i],s); if (N == 3) { a -= {s,s,s}; b = ca - typename A::initlist_t {s,s,s}; } else { a -= {s,s,s,s,s}; b = ca - typename A::initlist_t {s,s,s,s,s}; } for (size_t i = 0; i < N; ++i) { E r = op2 (1,va[i],s); ok &= (a[i] == r) & (b[i] == r); } CHECK(ok, "with a list"); }
}
extern "C" void h_array (int c) { if (c) arr<uint8_t,5>(); else arr<int32_t,3>(); }
template <size_t NX, size_t NY> static void mat (void)
{
    typedef matrix<NX,NY,int32_t> M; M a, b; int32_t va[NY][NX]; bool ok = true; for (size_t i = 0; i < NX*NY; ++i) ok &= a.begin()[i] == 0; CHECK(ok, "zeroed"); for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) a[y][x] = va[y][x] = int32_t(sym_u32 ("a"));
    CHECK(a.columns() == NX && a.rows() == NY && a.size() == NX*NY, "dimensions"); const M ca (a); int form = sym_pick (0,3,"form");
    if (form == 0) { for (size_t y = 0; y < NY; ++y) { tuple<NX,int32_t> r (ca.row (y)); for (size_t x = 0; x < NX; ++x) ok &= (r[x] == va[y][x]) & (ca[y][x] == va[y][x]) & (ca.at(y)[x] == va[y][x]); } for (size_t x = 0; x < NX; ++x) { tuple<NY,int32_t> c (ca.column (x)); for (size_t y = 0; y < NY; ++y) ok &= c[y] == va[y][x]; } CHECK(ok, "rows and columns"); }
    else if (form == 1) { b = a; matrix<NX,NY,int64_t> w (a), w2; w2 = a; for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) ok &= (b[y][x] == va[y][x]) & (w[y][x] == va[y][x]) & (w2[y][x] == va[y][x]); CHECK(ok && a == ca, "copied and converted"); }
    else if (form == 2) { int32_t s = sym_u32 ("s"); for (size_t i = 0; i < NX*NY; ++i) { inRange (0,ca.begin()[i],s); inRange (1,ca.begin()[i],s); } a += s; M p (ca+s), m (ca-s); b = ca; b -= s; for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) { int32_t P = op2 (0,va[y][x],s), Q = op2 (1,va[y][x],s); ok &= (a[y][x] == P) & (p[y][x] == P) & (b[y][x] == Q) & (m[y][x] == Q); } CHECK(ok, "with a scalar"); }
    else { for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) a[y][x] = va[y][x] = int(sym_bits (3,"v"))-4; const M cb (a); int32_t s = few<int32_t> ("f",true); M p (cb*s), m (cb/s); a *= s; b = cb; b /= s; for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) ok &= (a[y][x] == va[y][x]*s) & (p[y][x] == va[y][x]*s) & (b[y][x] == va[y][x]/s) & (m[y][x] == va[y][x]/s); CHECK(ok, "scaled"); }
}
extern "C" void h_matrix (int c) { if (c == 0) mat<2,3>(); else if (c == 1) mat<3,3>(); else mat<4,4>(); }
template <size_t NX, size_t NY> static void anyM (matrix<NX,NY,int>& m) { size_t p = sym_pick (0,NX*NY-1,"at"); for (size_t i = 0; i < NX*NY; ++i) m.begin()[i] = int(i*i%11)-4; m.begin()[p] = sym_bits (3,"e"); m.begin()[NX*NY-1] = int(sym_bits (3,"e"))-7; }
template <size_t NX, size_t NY> static void prod (void)
{
    matrix<NX,NY,int> a; matrix<NY,NX,int> b; anyM (a); anyM (b); matrix<NY,NY,int> r (a*b); bool ok = true; for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NY; ++x) { int d = 0; for (size_t k = 0; k < NX; ++k) d += a[y][k]*b[k][x]; ok &= r[y][x] == d; } CHECK(ok, "matrix product");
    tuple<NY,int> t; for (size_t i = 0; i < NY; ++i) t[i] = int(i)*5-3; t[NY/2] = sym_bits (3,"t"); tuple<NX,int> v (t*a); for (size_t x = 0; x < NX; ++x) { int d = 0; for (size_t y = 0; y < NY; ++y) d += t[y]*a[y][x]; ok &= v[x] == d; } CHECK(ok, "vector by matrix");
}
template <size_t N, typename E> static void square (void)
{
    matrix<N,N,E> m; uint32_t v [N][N]; bool ok = true; for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) { v[y][x] = sym_u32 ("m"); memcpy (&m[y][x], &v[y][x], 4); } transpose (m); for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) { uint32_t w; memcpy (&w, &m[x][y], 4); ok &= w == v[y][x]; } CHECK(ok, "transposed");
    matrix<N,N,E> n; load_identity (m); load_identity (n); for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) ok &= (m[y][x] == E(x == y)) & (n[y][x] == E(x == y)); CHECK(ok, "identity");
}
extern "C" void h_linalg (int c) { switch (c) { case 0: prod<2,3>(); break; case 1: prod<3,2>(); break; case 2: prod<3,3>(); break; case 3: prod<1,2>(); break; case 4: square<3,int>(); square<4,int>(); square<2,uint32_t>(); break; } }
static float anyf (const char* n) { uint32_t b = sym_u32 (n); float f; memcpy (&f, &b, 4); return f; }
static uint32_t bits (float f) { uint32_t b; memcpy (&b, &f, 4); return b; }
extern "C" void h_mat4f (int c)
{
    typedef matrix<4,4,float> M; bool ok = true;
    if (c == 0) { square<4,float>(); return; }
    M a, b; for (int i = 0; i < 16; ++i) ok &= bits (a.begin()[i]) == 0; CHECK(ok, "zeroed");
    if (c == 1) { for (int i = 0; i < 16; ++i) a.begin()[i] = anyf ("a"); b = a; M d (a); for (int i = 0; i < 16; ++i) ok &= (bits (b.begin()[i]) == bits (a.begin()[i])) & (bits (d.begin()[i]) == bits (a.begin()[i])); CHECK(ok, "copied"); tuple<4,float> r (a.row(2)), k (a.column(1)); for (int i = 0; i < 4; ++i) ok &= (bits (r[i]) == bits (a[2][i])) & (bits (k[i]) == bits (a[i][1])); CHECK(ok, "row and column"); return; }
    // small integers, so that the order of additions makes no difference
    size_t at = sym_pick (0,3,"symbolic column"); for (int i = 0; i < 16; ++i) { a.begin()[i] = i*5%7-3; b.begin()[i] = i*3%5-2; } for (int i = 0; i < 4; ++i) { a[i][at] = int(sym_bits (2,"a")); b[at][i] = int(sym_bits (2,"b")); }
    if (c == 2) { tuple<4,float> t; for (int i = 0; i < 4; ++i) t[i] = i-2; t[at] = int(sym_bits (2,"t")); tuple<4,float> r (t*b); for (int x = 0; x < 4; ++x) { float p = (t[0]*b[0][x] + t[1]*b[1][x]) + (t[2]*b[2][x] + t[3]*b[3][x]); ok &= bits (r[x]) == bits (p); } CHECK(ok, "vector by matrix"); return; }
    M r (a*b); for (int y = 0; y < 4; ++y) { ok = true; for (int x = 0; x < 4; ++x) { float p = (a[y][0]*b[0][x] + a[y][1]*b[1][x]) + (a[y][2]*b[2][x] + a[y][3]*b[3][x]); ok &= bits (r[y][x]) == bits (p); } CHECK(ok, "matrix product"); }
}
static const float Fl [] = {0, 1, -1, 0.5f, 1.5f, 2.5f, -2.5f, 3.75f, 1e6f, -1e9f, 2e9f, 16777216};
template <size_t N> static void flt (int c)
{
    typedef tuple<N,float> T; T a, b; float va[N], vb[N]; bool ok = true;
    if (c < 2) { for (size_t i = 0; i < N; ++i) { a[i] = va[i] = int(sym_bits (8,"a")); b[i] = vb[i] = int(sym_bits (8,"b"))+1; } T p (b), m (b), u (b), d (b); p += a; m -= a; if (c) { for (size_t i = 0; i < N; ++i) { a[i] = va[i] = int(sym_pick (1,2,"d"))*3; } u *= a; d /= a; for (size_t i = 0; i < N; ++i) ok &= (bits (u[i]) == bits (vb[i]*va[i])) & (bits (d[i]) == bits (vb[i]/va[i])); } else { T q (b+a), r (b-a); for (size_t i = 0; i < N; ++i) ok &= (bits (p[i]) == bits (vb[i]+va[i])) & (bits (m[i]) == bits (vb[i]-va[i])) & (bits (q[i]) == bits (vb[i]+va[i])) & (bits (r[i]) == bits (vb[i]-va[i])); } CHECK(ok, "each element"); return; }
    float x = Fl[sym_pick (0,11,"x")], y = Fl[sym_pick (0,11,"y")]; size_t at = sym_pick (0,N-1,"at"); for (size_t i = 0; i < N; ++i) { va[i] = i; vb[i] = 3; } va[at] = x; vb[at] = y; for (size_t i = 0; i < N; ++i) { a[i] = va[i]; b[i] = vb[i]; }
    if (c == 2) { T mn (b), mx (b), av (b), as (b), ss (b); pmin (a,mn); pmax (a,mx); pavg (a,av); padds (a,as); psubs (a,ss); for (size_t i = 0; i < N; ++i) ok &= (mn[i] == (va[i] < vb[i] ? va[i] : vb[i])) & (mx[i] == (va[i] < vb[i] ? vb[i] : va[i])) & (av[i] == (va[i]+vb[i])/2) & (as[i] == vb[i]+va[i]) & (ss[i] == vb[i]-va[i]); CHECK(ok, "each element"); T sw (a); sw.swap (b); for (size_t i = 0; i < N; ++i) ok &= (sw[i] == vb[i]) & (b[i] == va[i]); CHECK(ok, "exchanged"); return; }
    tuple<N,int32_t> r; pround (a,r); static const int Rl [] = {0, 1, -1, 0, 2, 2, -2, 4, 1000000, -1000000000, 2000000000, 16777216}; for (size_t i = 0; i < N; ++i) { int w = int(i); if (i == at) for (int k = 0; k < 12; ++k) if (Fl[k] == x) w = Rl[k]; ok &= (r[i] == w) & (sround (va[i]) == w); } CHECK(ok, "rounded to nearest even"); CHECK(sround (double (x)) == r[at], "double"); T f; pround (r,f); for (size_t i = 0; i < N; ++i) ok &= f[i] == float (r[i]); CHECK(ok, "to float"); T q; for (size_t i = 0; i < N; ++i) q[i] = (i+2)*(i+2); psqrt (q); for (size_t i = 0; i < N; ++i) ok &= q[i] == i+2; CHECK(ok, "square root"); for (size_t i = 0; i < N; ++i) q[i] = 4; precip (q); for (size_t i = 0; i < N; ++i) ok &= q[i] == 0.25f; CHECK(ok, "reciprocal"); precipsqrt (q); CHECK(q[at] == 2, "reciprocal of the root"); CHECK(ssqrt (9.f) == 3 && srecip (8.f) == 0.125f && srecipsqrt (4.f) == 0.5f, "single"); uint32_t big = fround<float,uint32_t>() (3e9f); CHECK(big == 3000000000u, "unsigned");
}
extern "C" void h_float (int c) { if (sym_bool ("four")) flt<4> (c); else flt<2> (c); }
