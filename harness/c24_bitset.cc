//@ property=C24
//@ oracle="an array of capacity() booleans: bit i of the set, least significant bit of the first word first"
//@ entry=h_bit cases=0-9 reach=hit bound="set, reset, flip, test, [], at and whole-set set, reset, clear, flip, ~ at every index of every bit pattern, sizes 1, 7, 30, 31, 32, 33, 64, 70, 96 and 256"
//@ entry=h_query cases=0-9 reach=hit bound="count, any, none, to_value, size, capacity, begin/end, stream_size, copying, == and != of every pair of patterns, same sizes (count at size 256: one word at a time)"
//@ entry=h_word cases=0-9 reach=hit bound="&, |, ^, &=, |=, ^=, ~ of every pair of patterns, same sizes"
//@ entry=h_range cases=0-3 reach=hit bound="set(first,last,v) and at(first,last): every documented range (1 to 31 bits within one word), every pattern and value, sizes 7, 32, 33, 70"
//@ entry=h_string cases=0-4 tcases=20-24 reach=hit bound="to_string of every pattern (sizes 3 and 7; 2^6 patterns that differ in the first, last and word boundary bits for 31, 33 and 40), construction from every text of 0 to Size+1 (7: Size-1; 31, 33, 40: 3) characters"
//@ entry=h_text cases=0-2 bound="text written and read back, sizes 3, 7 and 33"
//@ entry=h_hist cases=0-1 tcases=2-3 bound="histories of 3 (thorough 4) operations from any pattern, sizes 3 and 35"
//@ outside="ranges that cross a word or are a whole word, indices beyond size (both asserted against); hiding the padding bits of sizes that are no multiple of 32: set(), flip() and ~ act on all capacity() bits and count, any and == see them (the existing test pins this)"
#include "strm.h"
#include "sistream.h"
#include "sostream.h"
typedef uint32_t w32;
template <size_t S> struct M { static const size_t W = (S+31)/32, C = W*32; w32 w [W]; bitset<S> b; M (void) { for (size_t i = 0; i < W; ++i) b.begin()[i] = w[i] = sym_u32 ("w"); } explicit M (int) { for (size_t i = 0; i < W; ++i) w[i] = 0; } bool get (size_t i) const { return (w[i/32] >> (i%32)) & 1; } void put (size_t i, bool v) { w[i/32] = (w[i/32] & ~(w32(1) << (i%32))) | (w32(v) << (i%32)); } bool same (const bitset<S>& x) const { bool ok = true; for (size_t i = 0; i < W; ++i) ok &= x.begin()[i] == w[i]; return ok; } bool same (void) const { return same (b); } };
#define BY_SIZE(f) switch (c) { case 0: f<1>(); break; case 1: f<7>(); break; case 2: f<30>(); break; case 3: f<31>(); break; case 4: f<32>(); break; case 5: f<33>(); break; case 6: f<64>(); break; case 7: f<70>(); break; case 8: f<96>(); break; case 9: f<256>(); break; }
template <size_t S> static void bit (void)
{
    M<S> m; bitset<S>& b = m.b; const bitset<S>& k = b; size_t i = sym_pick (0,S-1,"i"); if (i == S-1) sym_reach ("hit");
    switch (sym_pick (0,9,"operation")) {
	case 0: { bool v = sym_bits (1,"v"); b.set (i,v); m.put (i,v); } break;
	case 1: b.set (i); m.put (i,true); break;
	case 2: b.reset (i); m.put (i,false); break;
	case 3: b.flip (i); m.put (i,!m.get (i)); break;
	case 4: CHECK((k.test (i) == m.get (i)) & (k[i] == m.get (i)) & (k.at (i) == w32 (m.get (i))), "test"); OBS(k[i]); break;
	case 5: if (i) return; b.set(); for (auto& x : m.w) x = ~w32(0); break;
	case 6: if (i) return; b.reset(); for (auto& x : m.w) x = 0; break;
	case 7: if (i) return; b.clear(); for (auto& x : m.w) x = 0; break;
	case 8: if (i) return; b.flip(); for (auto& x : m.w) x = ~x; break;
	case 9: { if (i) return; w32 v = sym_u32 ("v"); bitset<S> n (v); for (auto& x : m.w) x = 0; m.w[0] = v; CHECK(m.same (n), "construction from a value"); b = v; bitset<S> z; for (size_t j = 0; j < S; ++j) CHECK(!z[j], "a new set is empty"); } break;
    }
    CHECK(m.same(), "exactly the named bits change");
}
extern "C" void h_bit (int c) { BY_SIZE(bit) }
template <size_t S> static void query (void)
{
    M<S> m; const bitset<S>& b = m.b; M<S> o; sym_reach ("hit");
    switch (sym_pick (0,2,"query")) {
	case 0: { if (S > 96) { size_t q = sym_pick (0,M<S>::W-1,"word"); for (size_t i = 0; i < M<S>::W; ++i) if (i != q) m.w[i] = m.b.begin()[i] = 1u << i; } size_t n = 0; for (size_t i = 0; i < M<S>::W; ++i) { w32 x = m.w[i]; x = x - ((x >> 1) & 0x55555555); x = (x & 0x33333333) + ((x >> 2) & 0x33333333); x = (x + (x >> 4)) & 0x0f0f0f0f; n += (x * 0x01010101) >> 24; } CHECK(b.count() == n, "count"); OBS(b.count()); } break;
	case 1: { w32 s = 0; for (size_t i = 0; i < M<S>::W; ++i) s |= m.w[i]; CHECK((b.any() == (s != 0)) & (b.none() == (s == 0)), "any and none"); CHECK(b.to_value() == m.w[0] && b.size() == S && b.capacity() == M<S>::C && b.end()-b.begin() == M<S>::W && b.stream_size() == M<S>::W*4 && sizeof(b) == M<S>::W*4, "size"); } break;
	case 2: { bool e = true; for (size_t i = 0; i < M<S>::W; ++i) e &= m.w[i] == o.w[i]; CHECK(((b == o.b) == e) & ((b != o.b) == !e), "equality"); bitset<S> d (b); CHECK(m.same (d) && d == b, "copy"); d = o.b; CHECK(o.same (d), "assignment"); swap (m.b,o.b); CHECK(m.same (o.b) && o.same (m.b), "swap"); } return;
    }
    CHECK(m.same() && o.same(), "nothing changes");
}
extern "C" void h_query (int c) { BY_SIZE(query) }
template <size_t S> static void word (void)
{
    M<S> a, b; sym_reach ("hit"); M<S> r (0); size_t o = sym_pick (0,3,"operator"); for (size_t i = 0; i < M<S>::W; ++i) r.w[i] = o == 0 ? a.w[i] & b.w[i] : o == 1 ? a.w[i] | b.w[i] : o == 2 ? a.w[i] ^ b.w[i] : ~a.w[i];
    const bitset<S>& x = a.b; bitset<S> y = o == 0 ? x & b.b : o == 1 ? x | b.b : o == 2 ? x ^ b.b : ~x; CHECK(r.same (y), "binary operation"); CHECK(a.same() && b.same(), "operands are kept"); if (o < 3) { const bitset<S>& z = o == 0 ? (a.b &= b.b) : o == 1 ? (a.b |= b.b) : (a.b ^= b.b); CHECK(&z == &a.b && r.same (z) && b.same(), "assignment operation"); a.b = y; y = o == 0 ? (y &= y) : o == 1 ? (y |= y) : (y ^= y); for (size_t i = 0; i < M<S>::W; ++i) if (o == 2) r.w[i] = 0; CHECK(r.same (y), "with itself"); }
}
extern "C" void h_word (int c) { BY_SIZE(word) }
template <size_t S> static void range (void)
{
    M<S> m; const bitset<S>& k = m.b; size_t f = sym_pick (0,S-1,"first"); size_t top = (f/32)*32+31; if (top > S) top = S; if (f >= top) return; size_t l = sym_pick (f+1,top,"last"), n = l-f; if (n > 4 || S < 8) sym_reach ("hit"); w32 mask = (w32(1) << n)-1;
    CHECK(k.at (f,l) == ((m.w[f/32] >> (f%32)) & mask), "at"); OBS(k.at (f,l)); CHECK(m.same(), "at changes nothing");
    w32 v = sym_u32 ("v") & mask; m.b.set (f,l,v); for (size_t i = f; i < l; ++i) m.put (i,(v >> (i-f)) & 1); CHECK(m.same(), "set changes exactly the range"); CHECK(k.at (f,l) == v, "reads back");
}
extern "C" void h_range (int c) { switch (c) { case 0: range<7>(); break; case 1: range<32>(); break; case 2: range<33>(); break; case 3: range<70>(); break; } }
template <size_t S> static void str (size_t lo, size_t hi)
{
    M<S> m; sym_reach ("hit"); if (S > 8) { const size_t at [6] = { 0, 1, S/2, 30, S-2, S-1 }; for (size_t i = 0; i < M<S>::W; ++i) m.w[i] = 0x35a6c791u; for (size_t j = 0; j < 6; ++j) m.put (at[j],sym_bits (1,"bit")); for (size_t i = 0; i < M<S>::W; ++i) m.b.begin()[i] = m.w[i]; } string t = m.b.to_string(); bool ok = t.size() == S; for (size_t i = 0; ok && i < S; ++i) ok &= t[S-1-i] == (m.get (i) ? '1' : '0'); CHECK(ok && m.same(), "to_string: most significant first"); bitset<S> back (t); for (size_t i = 0; ok && i < S; ++i) ok &= back[i] == m.get (i); CHECK(ok, "and back");
    size_t n = sym_pick (lo,hi,"length"); string s (n,'0'); M<S> r (0); for (size_t i = 0; i < n; ++i) { char ch = (char) sym_u8 ("c"); s[n-1-i] = ch; if (i < M<S>::C) r.put (i,ch != '0'); } bitset<S> x (s); CHECK(r.same (x), "construction from text");
}
extern "C" void h_string (int c) { bool t = c >= 20; switch (c%20) { case 0: str<3> (0,t?5:4); break; case 1: str<7> (0,t?8:6); break; case 2: str<31> (t?6:3,t?6:3); break; case 3: str<33> (t?6:3,t?6:3); break; case 4: str<40> (t?6:2,t?6:2); break; } }
template <size_t S> static void text (void) { bitset<S> b; size_t n = S < 8 ? S : 4; for (size_t i = 0; i < n; ++i) b.set (S < 8 ? i : i*10, sym_bool ("bit")); ostringstream os; os << b << ' ' << b; string t = os.str(); CHECK(t.size() == S*2+1, "text size"); istringstream is (t); bitset<S> x, y; x.set(); is >> x >> y; CHECK(y == b, "read back"); bool ok = true; for (size_t i = 0; i < S; ++i) ok &= x[i] == b[i]; CHECK(ok, "read back over other contents"); }
extern "C" void h_text (int c) { switch (c) { case 0: text<3>(); break; case 1: text<7>(); break; case 2: text<33>(); break; } }
template <size_t S> static void hist (unsigned steps)
{
    M<S> m, o; bitset<S>& b = m.b;
    while (steps--) switch (sym_pick (0,8,"op")) {
	case 0: { size_t i = sym_pick (0,2,"i") * (S/3); bool v = sym_bits (1,"v"); b.set (i,v); m.put (i,v); } break;
	case 1: { size_t i = sym_pick (0,2,"i") * (S/3); b.flip (i); m.put (i,!m.get (i)); } break;
	case 2: b.flip(); for (auto& x : m.w) x = ~x; break;
	case 3: b = ~b; for (auto& x : m.w) x = ~x; break;
	case 4: b &= o.b; for (size_t i = 0; i < M<S>::W; ++i) m.w[i] &= o.w[i]; break;
	case 5: b = b | o.b; for (size_t i = 0; i < M<S>::W; ++i) m.w[i] |= o.w[i]; break;
	case 6: b ^= o.b; for (size_t i = 0; i < M<S>::W; ++i) m.w[i] ^= o.w[i]; break;
	case 7: { w32 v = sym_bits (2,"v"); b.set (S-3,S-1,v); m.put (S-3,v&1); m.put (S-2,v>>1); } break;
	case 8: b.set(); for (auto& x : m.w) x = ~w32(0); break;
    }
    CHECK(m.same() && o.same(), "the bits of the model"); for (size_t i = 0; i < S; ++i) CHECK(b[i] == m.get (i), "bit");
}
extern "C" void h_hist (int c) { if (c&1) hist<35> (c < 2 ? 3 : 4); else hist<3> (c < 2 ? 3 : 4); }
