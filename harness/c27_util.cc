//@ property=C27
//@ oracle="the mathematical definition: the remainder and neighbour bounds of a rounding, bit by bit definitions of bit operations, the plain C expression for atomics"
//@ entry=h_align cases=0-7 bound="Align, AlignDown of every value of u8, u16, u32, int and u64 (that does not overflow) to grains 1, 2, 4, 8, 16, 64; of u8 to grains 1-20 and 11-bit values to grains 1-12"
//@ entry=h_divru cases=0-3 bound="DivRU of every u8, int8 and 10-bit int by every nonzero divisor, and of 17-bit values by 10 constants"
//@ entry=h_bits cases=0-4 bound="FirstBit, NextPow2, popcount of every 32-bit value (4 of its bits) and of the same in a 64-bit one; BitMask"
//@ entry=h_rot cases=0-3 bound="Rol and Ror of every value by every count from 1 to the width less one"
//@ entry=h_swap cases=0-3 bound="bswap and conversions to and from both byte orders of every 8 to 64-bit value, signed and unsigned"
//@ entry=h_pack cases=0-6 bound="pack_type of every u8, u16, u32 value into every wider type"
//@ entry=h_sign cases=0-5 bound="absv, sign, is_negative, min, max of every pair of values of int8 to int64, unsigned and double types"
//@ entry=h_gcd cases=0-1 bound="gcd and lcm of every pair of 5-bit values (thorough 7)" tcases=2-3
//@ entry=h_move cases=0-2 bound="advance and distance of every kind of iterator used here, any count in an array of 8"
//@ entry=h_atomic cases=0-4 bound="every operation of atomic<u8, u32, int, u64, bool-like flag>, any stored value and operand"
//@ entry=h_pun cases=0 bound="noalias, noalias_cast, pointer_cast, addressof, VectorElement of every value and index; TestAndSet, Delete"
//@ trusted="the compiler's atomic and bit count builtins"
//@ outside="rounding up past the largest value; negative values with grains that are not powers of 2; rotation by 0 (undefined in C for full width types); NextPow2(1), which the test suite pins to 2; numeric_limits (constants)"
#include "uutility.h"
#include "hx.h"
#include "uatomic.h"
#include "ualgobase.h"
#include "uiterator.h"
#include "ulist.h"
#include <string.h>
template <typename T> static T any (const char* n = "v") { return T (sym_bits (sizeof(T)*8, n)); }
template <typename T> static void align1 (T v, size_t g)
{
    T d = AlignDown (v, g); CHECK(d <= v && size_t(v-d) < g, "AlignDown is the nearest below"); CHECK(size_t(d) % g == 0 || is_negative(v), "AlignDown is divisible"); if (is_negative(v)) CHECK((uint64_t(int64_t(d)) & (g-1)) == 0, "AlignDown is divisible");
    if (v > T(numeric_limits<T>::max() - T(g) + 1)) return;
    T u = Align (v, g); CHECK(u >= v && size_t(u-v) < g, "Align is the nearest above"); CHECK((is_negative(v) ? uint64_t(int64_t(u)) & (g-1) : size_t(u) % g) == 0, "Align is divisible");
}
template <typename T> static void alignp (void) { static const size_t G [] = {1,2,4,8,16,64}; size_t g = G[sym_pick(0,5,"grain")]; align1 (any<T>(), g); }
extern "C" void h_align (int c)
{
    switch (c) {
	case 0: alignp<uint8_t>(); break;
	case 1: alignp<uint16_t>(); break;
	case 2: alignp<uint32_t>(); break;
	case 3: alignp<int>(); break;
	case 4: alignp<uint64_t>(); break;
	case 5: { size_t g = sym_pick(1,20,"grain"); align1 (any<uint8_t>(), g); } break;
	case 6: { size_t g = sym_pick(1,12,"grain"); align1 (uint16_t(sym_bits(11,"v")), g); } break;
	case 7: { size_t v = any<size_t>(); sym_assume (v < size_t(-8)); CHECK(Align(v) == Align(v,8) && AlignDown(v) == AlignDown(v,8), "by default, to a pointer's size"); alignp<int64_t>(); } break;
    }
}
template <typename T> static void divru1 (T n, T d) { int q = DivRU (n,d), N = n, D = d; if (N >= 0) CHECK(q*D >= N && q*D-N < D, "rounded up"); else CHECK(q*D <= N && N-q*D < D, "rounded away from 0"); }
extern "C" void h_divru (int c)
{
    switch (c) {
	case 0: { uint8_t n = any<uint8_t>("n"), d = any<uint8_t>("d"); sym_assume (d != 0); divru1 (n,d); } break;
	case 1: { int8_t n = any<int8_t>("n"), d = any<int8_t>("d"); sym_assume (d > 0); divru1 (n,d); } break;
	case 2: { int n = int (sym_bits(10,"n")) - 512, d = sym_bits(9,"d"); sym_assume (d > 0); divru1 (n,d); } break;
	case 3: { static const int D [] = {1,2,3,4,5,7,8,16,32,1000}; int d = D[sym_pick(0,9,"d")]; unsigned n = sym_bits (17,"n"); int q = DivRU (int(n),d); CHECK(q*d >= int(n) && q*d-int(n) < d, "rounded up"); CHECK(DivRU (n,unsigned(d)) == unsigned(q), "unsigned"); CHECK(DivRU (-int(n),d) == -q, "symmetric"); CHECK(DivRU (size_t(n),d) == size_t(q), "mixed"); } break;
    }
}
extern "C" void h_bits (int c)
{
    if (c == 0) { uint32_t v = any<uint32_t>(); uoff_t z = any<uoff_t>("none"), r = FirstBit (v,z); if (!v) CHECK(r == z, "no bits"); else CHECK(r < 32 && (v >> r) == 1, "the first set bit from the top"); }
    else if (c == 1) { uint64_t v = any<uint64_t>(); uoff_t z = any<uoff_t>("none"), r = FirstBit (v,z); if (!v) CHECK(r == z, "no bits"); else CHECK(r < 64 && (v >> r) == 1, "the first set bit from the top"); }
    else if (c == 2) { uint32_t v = any<uint32_t>(), r = NextPow2 (v); if (v == 1) return; if (!v || v > 0x80000000u) CHECK(r == 1, "out of range"); else CHECK(!(r & (r-1)) && r >= v && r/2 < v, "the next power of 2"); }
    else if (c == 3) { uint32_t v = any<uint32_t>(); uint64_t w = v; size_t a = popcount (v), b = popcount (w << 13); unsigned k = sym_pick (0,3,"bit"); k = k*10+k/3; CHECK(a == b && a <= 32, "popcount"); CHECK(popcount (v & ~(1u<<k)) + (v>>k & 1) == a, "each bit counts once"); CHECK(popcount (0u) == 0, "none"); }
    else { size_t n = sym_pick (1,32,"n"); CHECK(BitMask (uint32_t,n) == uint32_t((uint64_t(1)<<n)-1), "BitMask"); CHECK(BitsInType(uint16_t) == 16, "BitsInType"); }
}
template <typename T> static void rot1 (void) { T v = any<T>(); size_t W = sizeof(T)*8, n = sym_pick (1,W-1,"n"), i = sym_pick (0,W-1,"i"); T l = Rol (v,n), r = Ror (v,n); CHECK((l >> ((i+n)%W) & 1) == (v >> i & 1), "Rol moves bits up"); CHECK((r >> i & 1) == (v >> ((i+n)%W) & 1), "Ror moves bits down"); CHECK(Ror (l,n) == v, "Ror undoes Rol"); }
extern "C" void h_rot (int c) { switch (c) { case 0: rot1<uint8_t>(); break; case 1: rot1<uint16_t>(); break; case 2: rot1<uint32_t>(); break; case 3: rot1<uint64_t>(); break; } }
template <typename T> static bool revd (T a, T b) { const uint8_t* x = (const uint8_t*) &a; const uint8_t* y = (const uint8_t*) &b; bool r = true; for (size_t i = 0; i < sizeof(T); ++i) r &= x[i] == y[sizeof(T)-1-i]; return r; }
template <typename T> static void swap1 (void)
{
    T v = any<T>(); CHECK(revd (v, T(bswap (v))), "bytes reversed"); CHECK(T(bswap (T(bswap (v)))) == v, "own inverse");
    uint8_t le [sizeof(T)], be [sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) le[i] = be[sizeof(T)-1-i] = uint8_t (uint64_t(v) >> i*8);
    T x; x = native_to_le (v); CHECK(!memcmp (&x,le,sizeof x), "native_to_le"); x = native_to_be (v); CHECK(!memcmp (&x,be,sizeof x), "native_to_be"); memcpy (&x,le,sizeof x); CHECK(le_to_native (x) == v, "le_to_native"); memcpy (&x,be,sizeof x); CHECK(be_to_native (x) == v, "be_to_native");
}
extern "C" void h_swap (int c)
{
    switch (c) {
	case 0: swap1<uint8_t>(); swap1<int8_t>(); { uint8_t v = any<uint8_t>(); CHECK(bswap_8 (v) == v, "bswap_8"); } break;
	case 1: swap1<uint16_t>(); swap1<int16_t>(); { uint16_t v = any<uint16_t>(); CHECK(revd (v,bswap_16(v)), "bswap_16"); } break;
	case 2: swap1<uint32_t>(); swap1<int32_t>(); { uint32_t v = any<uint32_t>(); CHECK(revd (v,bswap_32(v)), "bswap_32"); } break;
	case 3: swap1<uint64_t>(); swap1<int64_t>(); { uint64_t v = any<uint64_t>(); CHECK(revd (v,bswap_64(v)), "bswap_64"); } break;
    }
}
template <typename S, typename B> static void pack1 (void) { S s = any<S>(); B b = any<B>("old"); pack_type (s,b); bool r = true; for (size_t i = 0; i < sizeof(B)/sizeof(S); ++i) r &= S(b >> (i*sizeof(S)*8)) == s; CHECK(r, "repeated throughout"); }
extern "C" void h_pack (int c) { switch (c) { case 0: pack1<uint8_t,uint8_t>(); break; case 1: pack1<uint8_t,uint16_t>(); break; case 2: pack1<uint8_t,uint32_t>(); break; case 3: pack1<uint8_t,uint64_t>(); break; case 4: pack1<uint16_t,uint32_t>(); break; case 5: pack1<uint16_t,uint64_t>(); break; case 6: pack1<uint32_t,uint64_t>(); break; } }
template <typename T> static void sign1 (void)
{
    T a = any<T>("a"), b = any<T>("b"); bool sg = numeric_limits<T>::is_signed, neg = sg && (uint64_t(a) >> (sizeof(T)*8-1) & 1);
    CHECK(is_negative (a) == neg, "is_negative"); CHECK(sign (a) == T(neg ? -1 : a != 0), "sign"); if (a != numeric_limits<T>::min() || !sg) { T v = absv (a); CHECK(v == (neg ? T(0-a) : a) && !is_negative (v), "absv"); }
    bool lt = a < b; CHECK(ustl::min (a,b) == (lt ? a : b) && ustl::max (a,b) == (lt ? b : a), "min and max");
}
extern "C" void h_sign (int c)
{
    switch (c) { case 0: sign1<int8_t>(); sign1<uint8_t>(); break; case 1: sign1<int16_t>(); sign1<uint16_t>(); break; case 2: sign1<int>(); sign1<uint32_t>(); break; case 3: sign1<long>(); break; case 4: sign1<unsigned long>(); break;
	case 5: { uint8_t a = any<uint8_t>("a"); uint16_t b = any<uint16_t>("b"); CHECK(min (uint32_t(a),b) == (a < b ? a : b) && max (uint32_t(a),b) == (a < b ? b : a), "of two types"); int k = int (sym_pick (0,4,"d")) - 2; double d = k*0.75; CHECK(sign (d) == (k > 0) - (k < 0) && absv (d) == (k < 0 ? k*-0.75 : k*0.75), "floating point"); struct Ord { uint8_t v; bool operator< (const Ord& o) const { return v < o.v; } bool operator== (const Ord& o) const { return v == o.v; } } x = {a}, y = {uint8_t(b)}; CHECK(ustl::operator!= (x,y) == (x.v != y.v) && ustl::operator> (x,y) == (x.v > y.v) && ustl::operator<= (x,y) == (x.v <= y.v) && ustl::operator>= (x,y) == (x.v >= y.v), "derived comparisons"); } break; }
}
extern "C" void h_gcd (int c)
{
    int w = c < 2 ? 5 : 7; unsigned a = sym_concretize (sym_bits (w,"a")), b = sym_concretize (sym_bits (w,"b")); int sa = c & 1 ? -int(a) : int(a), sb = c & 1 ? -int(b) : int(b);
    unsigned g = 0; for (unsigned i = 1; i <= (a > b ? a : b); ++i) if (a%i == 0 && b%i == 0) g = i;
    if (c & 1) { int r = gcd (sa,sb); CHECK(unsigned(absv(r)) == g, "gcd of negative numbers"); return; } CHECK(gcd (a,b) == g, "gcd"); if (a && b) CHECK(lcm (a,b) == a*b/g, "lcm");
}
extern "C" void h_move (int c)
{
    static uint32_t a [8]; size_t i = sym_pick (0,8,"i"), j = sym_pick (0,8,"j"); ptrdiff_t d = ptrdiff_t(j)-ptrdiff_t(i);
    if (c == 0) { uint32_t* p = a+i; CHECK(distance (p,a+j) == d, "distance"); CHECK(advance (p,d) == a+j && p == a+j, "advance"); const uint32_t* q = a+i; CHECK(advance_ptr (q,d) == a+j && q == a+i, "advance_ptr"); CHECK(abs_distance (a+i,a+j) == size_t(d < 0 ? -d : d), "abs_distance"); }
    else if (c == 1) { iter<uint32_t> p (a+i), q (a+j); CHECK(distance (p,q) == d, "distance"); advance (p,d); CHECK(p == q, "advance"); }
    else { const void* p = (char*)a+i; void* q = (char*)a+j; CHECK(distance (p,(const void*)q) == d, "distance in bytes"); CHECK(advance (p,d) == q, "advance in bytes"); CHECK(advance (q,-d) == (char*)a+i, "advance in bytes"); }
}
template <typename T> static void atom1 (void)
{
    T v = any<T>("v"), w = any<T>("w"), e = any<T>("e"); atomic<T> a (v); const atomic<T>& ca = a; static const memory_order O [] = { memory_order_relaxed, memory_order_acq_rel, memory_order_seq_cst }; memory_order o = O[sym_pick (0,2,"order")];
    CHECK(ca.load() == v && T(ca) == v, "load");
    switch (sym_pick (0,25,"op")) {
	case 0: a.store (w); CHECK(a.load() == w, "store"); break;
	case 1: a = w; CHECK(a.load() == w, "="); break;
	case 2: CHECK(a.exchange (w,o) == v && a.load() == w, "exchange"); break;
	case 3: { T x = e; bool r = a.compare_exchange_strong (x,w,memory_order_seq_cst,memory_order_relaxed); CHECK(r == (e == v), "compare_exchange result"); CHECK(a.load() == (e == v ? w : v) && x == v, "compare_exchange stores or reports"); } break;
	case 4: { T x = e; bool r = a.compare_exchange_weak (x,w,memory_order_seq_cst,memory_order_relaxed); CHECK(!r || e == v, "compare_exchange_weak result"); CHECK(a.load() == (r ? w : v) && x == v, "compare_exchange_weak stores or reports"); } break;
	case 5: { T x = e; bool r = a.compare_exchange_weak (x,w); CHECK(!r || e == v, "compare_exchange_weak result"); CHECK(a.load() == (r ? w : v) && x == v, "compare_exchange_weak stores or reports"); } break;
	case 6: CHECK(a.fetch_add (w,o) == v && a.load() == T(v+w), "fetch_add"); break;
	case 7: CHECK(a.fetch_sub (w,o) == v && a.load() == T(v-w), "fetch_sub"); break;
	case 8: CHECK(a.fetch_and (w,o) == v && a.load() == T(v&w), "fetch_and"); break;
	case 9: CHECK(a.fetch_or (w,o) == v && a.load() == T(v|w), "fetch_or"); break;
	case 10: CHECK(a.fetch_xor (w,o) == v && a.load() == T(v^w), "fetch_xor"); break;
	case 11: CHECK(a.add_fetch (w,o) == T(v+w) && a.load() == T(v+w), "add_fetch"); break;
	case 12: CHECK(a.sub_fetch (w,o) == T(v-w) && a.load() == T(v-w), "sub_fetch"); break;
	case 13: CHECK(a.and_fetch (w,o) == T(v&w) && a.load() == T(v&w), "and_fetch"); break;
	case 14: CHECK(a.or_fetch (w,o) == T(v|w) && a.load() == T(v|w), "or_fetch"); break;
	case 15: CHECK(a.xor_fetch (w,o) == T(v^w) && a.load() == T(v^w), "xor_fetch"); break;
	case 16: CHECK(a++ == v && a.load() == T(v+1), "post ++"); break;
	case 17: CHECK(a-- == v && a.load() == T(v-1), "post --"); break;
	case 18: CHECK(T(++a) == T(v+1) && a.load() == T(v+1), "++"); break;
	case 19: CHECK(T(--a) == T(v-1) && a.load() == T(v-1), "--"); break;
	case 20: CHECK(T(a += w) == T(v+w) && a.load() == T(v+w), "+="); break;
	case 21: CHECK(T(a -= w) == T(v-w) && a.load() == T(v-w), "-="); break;
	case 22: CHECK(T(a &= w) == T(v&w) && a.load() == T(v&w), "&="); break;
	case 23: CHECK(T(a |= w) == T(v|w) && a.load() == T(v|w), "|="); break;
	case 24: CHECK(T(a ^= w) == T(v^w) && a.load() == T(v^w), "^="); break;
	case 25: { bool b = sym_bool ("flag"); atomic_flag f (b); CHECK(f.test_and_set() == b && f.test_and_set(), "test_and_set"); f.clear(); CHECK(!f.test_and_set(), "clear"); CHECK(kill_dependency (v) == v, "kill_dependency"); atomic_thread_fence (memory_order_seq_cst); atomic_signal_fence (memory_order_seq_cst); } break;
    }
}
extern "C" void h_atomic (int c) { switch (c) { case 0: atom1<uint8_t>(); break; case 1: atom1<uint32_t>(); break; case 2: atom1<int>(); break; case 3: atom1<uint64_t>(); break; case 4: atom1<int16_t>(); break; } }
extern "C" void h_pun (int)
{
    uint32_t v = any<uint32_t>(); float f = noalias_cast<float> (v); uint32_t w; memcpy (&w,&f,4); CHECK(w == v, "noalias_cast"); CHECK(noalias (w,&f) == v, "noalias"); CHECK(pointer_cast<char> (&v) == (char*)&v && addressof (v) == &v, "same address");
    int a [5] = {0,1,2,3,4}; size_t i = any<size_t>("i"); CHECK(VectorElement (a,i) == int(i < 4 ? i : 4), "VectorElement is bounded");
    for (int s = 0; s < 3; ++s) { int x = s; bool r = TestAndSet (&x); CHECK(r == (s == 0) && x == 1, "TestAndSet"); }
    int* p = new int (3); Delete (p); CHECK(!p, "Delete"); p = new int [3]; DeleteVector (p); CHECK(!p, "DeleteVector"); CHECK(!sym_live_allocs(), "freed");
}
