//@ property=C31
//@ oracle="the folds as the standard defines them, written out over the same symbolic elements"
//@ entry=h_acc cases=0-5 tcases=20-25 reach=hit bound="accumulate and inner_product with and without operations: all ranges of 0-6 (thorough 10) elements of 8, 32 and 64 bits, initial values wider and narrower than the elements, operations that neither commute nor associate; pointers and random access iterators that are no pointers"
//@ entry=h_psum cases=0-5 tcases=20-25 reach=hit bound="partial_sum with and without operation: all ranges of 0-6 (thorough 10) elements to a separate range, in place, and through back_inserter and an iterator that can only be written"
//@ entry=h_diff cases=0-5 tcases=20-25 reach=hit bound="adjacent_difference likewise"
//@ entry=h_iota cases=0-2 bound="iota over 0-8 elements with all starting values, wrapping included, and a class type that counts its increments"
//@ entry=h_pow cases=0-5 tcases=20-21 bound="power: all byte bases for exponents 0-20, 255 and 256, all 32-bit bases for exponents 0-4; with an operation whose identity is 1: all bases for all exponents with 8 significant bits at any of 4 positions"
//@ entry=h_class cases=0-4 bound="all folds over a class type whose + - * neither commute nor associate, 0-5 elements"
//@ outside="iterators that do not support < (the folds need random access iterators); operations given to power whose identity is not 1"
#include "hx.h"
#include "uvector.h"
#include "unumeric.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
struct Op { u32 m; template <typename A, typename B> u32 operator() (A a, B b) const { return (u32(a) << 1) + (u32(b) ^ m); } };
struct Op2 { u32 m; template <typename A, typename B> u32 operator() (A a, B b) const { return (u32(a) ^ m) - (u32(b) << 2); } };
template <typename T> struct Rng { size_t n; exact m; T* a; Rng (size_t N) : n(sym_pick (0,N,"n")), m(n*sizeof(T)), a((T*) m.p) { for (size_t i = 0; i < n; ++i) a[i] = T(sym_bits (8*sizeof(T), "a")); } };
template <typename T> struct Out	// A pure output iterator
{
    struct Ref { T* p; size_t* w; void operator= (const T& v) { *p = v; ++*w; } };
    T* p; size_t* w; bool spent;
    Out (T* q, size_t* n) : p(q), w(n), spent(false) {}
    Ref operator* (void) { Ref r = { p, w }; return r; }
    Out& operator++ (void) { ++p; return *this; }
    Out operator++ (int) { Out r (*this); ++p; return r; }
};
//--------------------------------------------------------------------
template <typename T, typename A, typename I> static void acc (int c, size_t N)
{
    Rng<T> r (N), s (c < 2 ? 0 : N); if (c >= 2 && s.n < r.n) return; size_t n = r.n; T *a = r.a, *z = s.a; if (n > 2) sym_reach ("hit");
    A i0 = A(sym_bits (8*sizeof(A), "init")); Op o = { sym_u32 ("m") }; Op2 p = { sym_u8 ("k") }; A x = i0;
    switch (c) {
	case 0: { A y = accumulate (I(a), I(a+n), i0); for (size_t i = 0; i < n; ++i) x = A(x + a[i]); CHECK(x == y, "accumulate"); } break;
	case 1: { A y = accumulate (I(a), I(a+n), i0, o); for (size_t i = 0; i < n; ++i) x = A(o (x, a[i])); CHECK(x == y, "accumulate with operation"); } break;
	case 2: { A y = inner_product (I(a), I(a+n), I(z), i0); for (size_t i = 0; i < n; ++i) x = A(x + a[i] * z[i]); CHECK(x == y, "inner_product"); } break;
	case 3: { A y = inner_product (I(a), I(a+n), I(z), i0, o, p); for (size_t i = 0; i < n; ++i) x = A(o (x, p (a[i], z[i]))); CHECK(x == y, "inner_product with operations"); } break;
    }
}
extern "C" void h_acc (int c)
{
    size_t N = c < 20 ? 6 : 10; c %= 20;
    if (c < 4) switch (sym_pick (0,2,"type")) {
	case 0: acc<u8,u32,u8*> (c,N); break;
	case 1: acc<u32,u32,iter<u32> > (c,c == 2 ? 3 : N); break;
	case 2: acc<u32,u8,u32*> (c,c == 2 ? 3 : N); break;
    } else if (c == 4) acc<u64,u64,const u64*> (0,N);
    else acc<int8_t,int64_t,const int8_t*> (2,N);
}
//--------------------------------------------------------------------
// how: 0 separate, 1 in place, 2 back_inserter, 3 pure output, 4 class iterator; el (old, out, i, v) decides element i of the output
template <typename T, typename F, typename G> static void fold (size_t N, F run, G el)
{
    Rng<T> r (N); size_t n = r.n; T* a = r.a; T old [10]; for (size_t i = 0; i < n; ++i) old[i] = a[i];
    if (n > 2) sym_reach ("hit");
    int how = sym_pick (0,4,"how"); bool ok = true, src = true; exact m (n*sizeof(T)); T* d = (T*) m.p; size_t w = 0; vector<T> v; v.push_back (T(7));
    switch (how) {
	case 0: { T* e = run ((const T*) a, (const T*) a+n, d); CHECK(e == d+n, "returns the end of the output"); } break;
	case 1: { T* e = run (a, a+n, a); CHECK(e == a+n, "returns the end of the output"); d = a; } break;
	case 2: run (a, a+n, back_inserter (v)); CHECK(v.size() == n+1 && v[0] == T(7), "as many outputs as inputs"); d = v.begin()+1; break;
	case 3: { Out<T> e = run (a, a+n, Out<T> (d,&w)); CHECK(e.p == d+n && w == n, "each output is written once and the end returned"); } break;
	case 4: { iter<T> e = run (iter<T> (a), iter<T> (a+n), iter<T> (d)); CHECK(e - iter<T> (d) == ptrdiff_t(n), "returns the end of the output"); } break;
    }
    for (size_t i = 0; i < n; ++i) ok &= d[i] == el (old, d, i), src &= how == 1 || a[i] == old[i];
    CHECK(ok, "output values"); CHECK(src, "the source is unchanged");
}
struct PS { template <typename I, typename I2, typename O> O operator() (I f, I2 l, O o) const { return partial_sum (f,l,o); } };
template <typename P> struct PSO { P p; template <typename I, typename I2, typename O> O operator() (I f, I2 l, O o) const { return partial_sum (f,l,o,p); } };
struct AD { template <typename I, typename I2, typename O> O operator() (I f, I2 l, O o) const { return adjacent_difference (f,l,o); } };
template <typename P> struct ADO { P p; template <typename I, typename I2, typename O> O operator() (I f, I2 l, O o) const { return adjacent_difference (f,l,o,p); } };
template <typename T> static void psum (bool op, size_t N)
{
    Op o = { sym_u8 ("m") }; PSO<Op> q = { o };
    if (op) fold<T> (N, q, [&] (const T* a, const T* x, size_t i) { return i ? T(o (x[i-1], a[i])) : a[i]; });
    else fold<T> (N, PS(), [] (const T* a, const T* x, size_t i) { return i ? T(x[i-1] + a[i]) : a[i]; });
}
template <typename T> static void diff (bool op, size_t N)
{
    Op2 o = { sym_u8 ("m") }; ADO<Op2> q = { o };
    if (op) fold<T> (N, q, [&] (const T* a, const T*, size_t i) { return i ? T(o (a[i], a[i-1])) : a[i]; });
    else fold<T> (N, AD(), [] (const T* a, const T*, size_t i) { return i ? T(a[i] - a[i-1]) : a[i]; });
}
extern "C" void h_psum (int c) { size_t N = c < 20 ? 6 : 10; c %= 20; switch (c/2) { case 0: psum<u8> (c&1,N); break; case 1: psum<u32> (c&1,N); break; case 2: psum<u64> (c&1,N); break; } }
extern "C" void h_diff (int c) { size_t N = c < 20 ? 6 : 10; c %= 20; switch (c/2) { case 0: diff<u8> (c&1,N); break; case 1: diff<u32> (c&1,N); break; case 2: diff<u64> (c&1,N); break; } }
//--------------------------------------------------------------------
struct Cnt { u32 v; u32 k; Cnt (void) : v(0),k(0) {} Cnt (u32 x) : v(x),k(0) {} Cnt operator++ (int) { Cnt r (*this); ++v; ++k; return r; } Cnt& operator++ (void) { ++v; ++k; return *this; } };
extern "C" void h_iota (int c)
{
    size_t n = sym_pick (0,8,"n"); bool ok = true;
    switch (c) {
	case 0: { exact m (n); u8 *a = (u8*) m.p, v = sym_u8 ("v"); iota (a, a+n, v); for (size_t i = 0; i < n; ++i) ok &= a[i] == u8(v+i); } break;
	case 1: { exact m (n*4); u32 *a = (u32*) m.p, v = sym_u32 ("v"); iota (iter<u32> (a), iter<u32> (a+n), v); for (size_t i = 0; i < n; ++i) ok &= a[i] == u32(v+i); } break;
	case 2: { exact m (n*sizeof(Cnt)); Cnt* a = (Cnt*) m.p; u32 v = sym_u32 ("v"); iota (a, a+n, Cnt (v)); for (size_t i = 0; i < n; ++i) ok &= a[i].v == u32(v+i) && a[i].k == i; } break;
    }
    CHECK(ok, "iota counts up from the value");
}
//--------------------------------------------------------------------
struct AddOne { u32 operator() (u32 a, u32 b) const { return a + b - 1; } };	// identity 1
struct Xor1 { u32 operator() (u32 a, u32 b) const { return a ^ b ^ 1; } };	// identity 1
extern "C" void h_pow (int c)
{
    if (c < 2) {
	unsigned n = c ? sym_pick (11,20,"n") : sym_pick (0,10,"n"); u8 x = sym_u8 ("x"), y = 1; for (unsigned i = 0; i < n; ++i) y *= x; CHECK(power (x,n) == y, "power of a byte");
    } else if (c == 2) {
	unsigned n = sym_pick (0,4,"n"); u32 x = sym_u32 ("x"); u32 y = n == 0 ? 1 : n == 1 ? x : n == 2 ? x*x : n == 3 ? (x*x)*x : (x*x)*(x*x); u32 r = power (x,n); CHECK(r == y, "power of a word");
    } else if (c == 3) {
	unsigned n = sym_pick (255,256,"n"); u8 x = sym_u8 ("x"); sym_concretize (x); u8 y = 1; for (unsigned i = 0; i < n; ++i) y *= x; CHECK(power (x,n) == y, "power of a byte");
    } else if (c == 4 || c == 20) {
	unsigned n = sym_pick (0,255,"n") << 8*sym_pick (0,3,"at"); u32 x = sym_u32 ("x"); u32 y = n * (x - 1) + 1; CHECK(power (x,n,AddOne()) == y, "power with an operation");
    } else { unsigned n = sym_pick (0,255,"n") << 8*sym_pick (0,3,"at"); u32 x = sym_u32 ("x"); u32 y = n & 1 ? x : 1; CHECK(power (x,n,Xor1()) == y, "power with an operation"); }
}
//--------------------------------------------------------------------
struct N2 { u32 v; N2 (u32 x = 0) : v(x) {}
    N2 operator+ (const N2& b) const { return N2 ((v << 1) ^ b.v); } N2 operator- (const N2& b) const { return N2 ((v << 2) + b.v); } N2 operator* (const N2& b) const { return N2 ((v << 3) - b.v); }
    N2& operator+= (const N2& b) { v = (v << 1) ^ b.v; return *this; } bool operator== (const N2& b) const { return v == b.v; } };
extern "C" void h_class (int c)
{
    size_t n = sym_pick (0,5,"n"); exact m (n*4), k (n*4); N2 *a = (N2*) m.p, *z = (N2*) k.p; for (size_t i = 0; i < n; ++i) { a[i].v = sym_u32 ("a"); z[i].v = sym_u32 ("z"); }
    N2 x (sym_u32 ("init")), i0 (x), o [5]; bool ok = true; for (size_t i = 0; i < n; ++i) o[i] = a[i];
    switch (c) {
	case 0: for (size_t i = 0; i < n; ++i) x = x + a[i]; CHECK(accumulate (a,a+n,i0) == x, "accumulate"); break;
	case 1: for (size_t i = 0; i < n; ++i) x = x + a[i]*z[i]; CHECK(inner_product (a,a+n,z,i0) == x, "inner_product"); break;
	case 2: { bool in = sym_pick (0,1,"in place"); N2* d = in ? a : z; N2* e = partial_sum (a,a+n,d); for (size_t i = 0; i < n; ++i) { x = i ? x + o[i] : o[i]; ok &= d[i] == x; } CHECK(ok && e == d+n, "partial_sum"); } break;
	case 3: { bool in = sym_pick (0,1,"in place"); N2* d = in ? a : z; N2* e = adjacent_difference (a,a+n,d); for (size_t i = 0; i < n; ++i) ok &= d[i] == (i ? o[i] - o[i-1] : o[i]); CHECK(ok && e == d+n, "adjacent_difference"); } break;
	case 4: { vector<N2> v (a,a+n), w (n); N2* e = partial_sum (v.begin(), v.end(), w.begin()); for (size_t i = 0; i < n; ++i) { x = i ? x + o[i] : o[i]; ok &= w[i] == x; } CHECK(ok && e == w.end(), "partial_sum of vectors"); } break;
    }
}
