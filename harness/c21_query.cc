//@ property=C21
//@ oracle="branch-free transcriptions of the standard definitions over the same symbolic contents"
//@ entry=h_one cases=0-11 tcases=20-31 reach=hit bound="find, find_if, adjacent_find, count, count_if, for_each, min_element, max_element, minmax_element, is_sorted and their predicate forms: all ranges of 0-6 (thorough 8) bytes, all values, all equivalences a&m==b&m, all unary predicates on the low 3 bits; pointers, a random access iterator that is no pointer, vectors and container forms"
//@ entry=h_two cases=0-8 tcases=20-28 reach=hit bound="mismatch, equal, lexicographical_compare, search, find_end, find_first_of and predicate forms: all ranges of 0-5 (thorough 6) and 0-4 bytes, longer patterns included"
//@ entry=h_searchn cases=0-1 bound="search_n for counts 0-4 in all ranges of 0-6 bytes"
//@ entry=h_pair cases=0-4 bound="min, max, clamp, minmax of all byte and int values, with and without comparator; minmax of lists of 1-4"
//@ entry=h_const cases=0 bound="the container forms on constant vectors and strings of 0-4"
//@ outside="forward and input iterators; for_each with a throwing function"
#include "hx.h"
#include "uvector.h"
#include "ustring.h"
#include "uctralgo.h"
typedef uint8_t u8;
struct Pred { u8 t; bool operator() (u8 v) const { return (t >> (v & 7)) & 1; } };
struct Eqv { u8 m; bool operator() (u8 a, u8 b) const { return (a & m) == (b & m); } };
struct Ord { u8 m; bool operator() (u8 a, u8 b) const { return (a & m) < (b & m); } };
struct Rng { size_t n; exact m; u8* a; Rng (size_t N) : n(sym_pick (0,N,"n")), m(n), a((u8*) m.p) { for (size_t i = 0; i < n; ++i) a[i] = sym_u8 ("a"); } };
// smallest index in [0,n) for which f holds, or n
template <typename F> static size_t first (size_t n, F f) { size_t r = n; for (size_t i = n; i-- > 0;) { bool h = f (i); r = h ? i : r; } return r; }
template <typename I> static I it (u8* p) { return I(p); }
#define SAME(r,e,msg) do { size_t r_ = (r), e_ = (e); CHECK(r_ == e_, msg); OBS(r_); } while (0)
template <typename I> static void one (int c, size_t N)
{
    Rng r (N); u8* a = r.a; size_t n = r.n; u8 v = sym_u8 ("v"); I b (a), e (a+n); Pred p = { v }; Eqv q = { v }; Ord o = { v }; if (n > 2) sym_reach ("hit");
    switch (c) {
	case 0: SAME(find (b,e,v) - b, first (n, [&] (size_t i) { return a[i] == v; }), "find"); break;
	case 1: SAME(find_if (b,e,p) - b, first (n, [&] (size_t i) { return p (a[i]); }), "find_if"); break;
	case 2: { size_t x = n ? first (n-1, [&] (size_t i) { return a[i] == a[i+1]; }) : 0; if (n) x = x == n-1 ? n : x; SAME(adjacent_find (b,e) - b, x, "adjacent_find"); } break;
	case 3: { size_t x = n ? first (n-1, [&] (size_t i) { return q (a[i], a[i+1]); }) : 0; if (n) x = x == n-1 ? n : x; SAME(adjacent_find (b,e,q) - b, x, "adjacent_find with predicate"); } break;
	case 4: { size_t k = 0; for (size_t i = 0; i < n; ++i) k += a[i] == v; SAME(count (b,e,v), k, "count"); } break;
	case 5: { size_t k = 0; for (size_t i = 0; i < n; ++i) k += p (a[i]); SAME(count_if (b,e,p), k, "count_if"); } break;
	case 6: { struct Sum { unsigned s, k; void operator() (u8 x) { s = (s << 4) ^ x; ++k; } } f = { 0,0 }; Sum g = for_each (b,e,f); unsigned s = 0; for (size_t i = 0; i < n; ++i) s = (s << 4) ^ a[i]; CHECK(g.s == s && g.k == n, "for_each"); struct Inc { void operator() (u8& x) { ++x; } }; u8 old [8]; for (size_t i = 0; i < n; ++i) old[i] = a[i]; for_each (b,e,Inc()); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= a[i] == u8 (old[i]+1); CHECK(ok, "for_each in place"); } break;
	case 7: { size_t x = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= a[j] >= a[i]; return h; }), y = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= a[j] <= a[i]; return h; }); SAME(min_element (b,e) - b, x, "min_element"); SAME(max_element (b,e) - b, y, "max_element"); } break;
	case 8: { size_t x = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= !o (a[j],a[i]); return h; }), y = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= !o (a[i],a[j]); return h; }); SAME(min_element (b,e,o) - b, x, "min_element by comparator"); SAME(max_element (b,e,o) - b, y, "max_element by comparator"); } break;
	case 9: { size_t x = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= a[j] >= a[i]; return h; }), y = n; for (size_t i = 0; i < n; ++i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= a[j] <= a[i]; y = h ? i : y; } auto m = minmax_element (b,e); SAME(m.first - b, x, "minmax_element: first smallest"); SAME(m.second - b, y, "minmax_element: last greatest"); } break;
	case 10: { size_t x = first (n, [&] (size_t i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= !o (a[j],a[i]); return h; }), y = n; for (size_t i = 0; i < n; ++i) { bool h = true; for (size_t j = 0; j < n; ++j) h &= !o (a[i],a[j]); y = h ? i : y; } auto m = minmax_element (b,e,o); SAME(m.first - b, x, "minmax_element: first smallest"); SAME(m.second - b, y, "minmax_element: last greatest"); } break;
	case 11: { bool x = true, y = true; for (size_t i = 1; i < n; ++i) { x &= a[i-1] <= a[i]; y &= !o (a[i],a[i-1]); } SAME(is_sorted (b,e), x, "is_sorted"); SAME(is_sorted (b,e,o), y, "is_sorted by comparator"); } break;
    }
}
extern "C" void h_one (int c) { size_t N = c < 20 ? 6 : 8; switch (sym_pick (0,1,"iterator")) { case 0: one<u8*> (c%20,N); break; case 1: one<iter<u8> > (c%20,N); break; } }
template <typename I> static void two (int c, size_t N)
{
    Rng r (N), s (4); u8 *a = r.a, *z = s.a; size_t n = r.n, k = s.n; u8 v = sym_u8 ("v"); I b (a), e (a+n), f (z), l (z+k); Eqv q = { v }; Ord o = { v }; if (n == 3 && k == 3) sym_reach ("hit");
    auto match = [&] (size_t i, bool pr) { if (i + k > n) return false; bool h = true; for (size_t j = 0; j < k; ++j) h &= pr ? q (a[i+j], z[j]) : a[i+j] == z[j]; return h; };
    switch (c) {
	case 0: if (k < n) break; { size_t x = first (n, [&] (size_t i) { return a[i] != z[i]; }); auto m = mismatch (b,e,f); SAME(m.first - b, x, "mismatch"); CHECK(size_t (m.second - f) == x, "mismatch, second"); SAME(equal (b,e,f), x == n, "equal"); } break;
	case 1: if (k < n) break; { size_t x = first (n, [&] (size_t i) { return !q (a[i],z[i]); }); auto m = mismatch (b,e,f,q); SAME(m.first - b, x, "mismatch"); CHECK(size_t (m.second - f) == x, "mismatch, second"); SAME(equal (b,e,f,q), x == n, "equal"); } break;
	case 2: { size_t w = n < k ? n : k; bool x = n < k; for (size_t i = w; i-- > 0;) x = a[i] == z[i] ? x : a[i] < z[i]; SAME(lexicographical_compare (b,e,f,l), x, "lexicographical_compare"); } break;
	case 3: { size_t w = n < k ? n : k; bool x = n < k; for (size_t i = w; i-- > 0;) x = o (a[i],z[i]) ? true : o (z[i],a[i]) ? false : x; SAME(lexicographical_compare (b,e,f,l,o), x, "lexicographical_compare by comparator"); } break;
	case 4: { size_t x = k ? first (n, [&] (size_t i) { return match (i,false); }) : 0; SAME(search (b,e,f,l) - b, x, "search"); } break;
	case 5: { size_t x = k ? first (n, [&] (size_t i) { return match (i,true); }) : 0; SAME(search (b,e,f,l,q) - b, x, "search by predicate"); } break;
	case 6: { size_t x = n; for (size_t i = 0; k && i < n; ++i) { bool h = match (i,false); x = h ? i : x; } SAME(find_end (b,e,f,l) - b, x, "find_end"); } break;
	case 7: { size_t x = n; for (size_t i = 0; k && i < n; ++i) { bool h = match (i,true); x = h ? i : x; } SAME(find_end (b,e,f,l,q) - b, x, "find_end by predicate"); } break;
	case 8: { size_t x = first (n, [&] (size_t i) { bool h = false; for (size_t j = 0; j < k; ++j) h |= a[i] == z[j]; return h; }), y = first (n, [&] (size_t i) { bool h = false; for (size_t j = 0; j < k; ++j) h |= q (a[i],z[j]); return h; }); SAME(find_first_of (b,e,f,l) - b, x, "find_first_of"); SAME(find_first_of (b,e,f,l,q) - b, y, "find_first_of by predicate"); } break;
    }
}
extern "C" void h_two (int c) { size_t N = c < 20 ? 5 : 6; switch (sym_pick (0,1,"iterator")) { case 0: two<u8*> (c%20,N); break; case 1: two<iter<u8> > (c%20,N); break; } }
extern "C" void h_searchn (int c)
{
    Rng r (6); u8* a = r.a; size_t n = r.n, k = sym_pick (0,4,"count"); u8 v = sym_u8 ("v"), m = c ? sym_u8 ("m") : 0xff; Eqv q = { m };
    size_t x = k ? first (n, [&] (size_t i) { if (i + k > n) return false; bool h = true; for (size_t j = 0; j < k; ++j) h &= q (a[i+j], v); return h; }) : 0; SAME((c ? search_n (a,a+n,k,v,q) : search_n (a,a+n,k,v)) - a, x, "search_n");
}
extern "C" void h_pair (int c)
{
    switch (c) {
	case 0: { int a = (int) sym_u32 ("a"), b = (int) sym_u32 ("b"); CHECK(ustl::min (a,b) == (b < a ? b : a) && ustl::max (a,b) == (a < b ? b : a), "min and max"); short x = (short) sym_u16 ("x"); CHECK(ustl::min (a,x) == (x < a ? x : a) && ustl::max (a,x) == (x < a ? a : x), "min and max of two types"); } break;
	case 1: { u8 v = sym_u8 ("v"), l = sym_u8 ("l"), h = sym_u8 ("h"); sym_assume (l <= h); u8 x = clamp (v,l,h); CHECK(x == (v < l ? l : v > h ? h : v), "clamp"); int w = (int) sym_u32 ("w"); CHECK(clamp (w,-5,1000) == (w < -5 ? -5 : w > 1000 ? 1000 : w), "clamp of int"); } break;
	case 2: { u8 v = sym_u8 ("v"), l = sym_u8 ("l"), h = sym_u8 ("h"); Ord o = { 0x0f }; sym_assume (!o (h,l)); u8 x = clamp (v,l,h,o); CHECK(x == (o (v,l) ? l : o (h,v) ? h : v), "clamp by comparator"); } break;
	case 3: { const int a = (int) sym_u32 ("a"), b = (int) sym_u32 ("b"); auto p = minmax (a,b); CHECK(p.first == (a < b ? a : b) && p.second == (a < b ? b : a), "minmax"); int x = a, y = b; auto r = minmax (x,y); CHECK(r.first == p.first && r.second == p.second, "minmax of variables"); Ord o = { 0x0f }; const u8 g = sym_u8 ("g"), h = sym_u8 ("h"); auto w = minmax (g,h,o); bool ok = !o (w.second,w.first) & ((w.first == g & w.second == h) | (w.first == h & w.second == g)); CHECK(ok, "minmax by comparator"); } break;
	case 4: { u8 a[4]; for (int i = 0; i < 4; ++i) a[i] = sym_u8 ("a"); u8 lo = a[0], hi = a[0]; for (int i = 1; i < 4; ++i) { lo = a[i] < lo ? a[i] : lo; hi = a[i] > hi ? a[i] : hi; } auto p = minmax ({a[0],a[1],a[2],a[3]}); CHECK(p.first == lo && p.second == hi, "minmax of a list"); Ord o = { 0xf0 }; auto w = minmax ({a[0],a[1],a[2]},o); bool ok = true; for (int i = 0; i < 3; ++i) ok &= !o (a[i],w.first) & !o (w.second,a[i]); CHECK(ok, "minmax of a list by comparator"); } break;
    }
}
extern "C" void h_const (int)
{
    Rng r (4); u8 v = sym_u8 ("v"); vector<u8> w (r.a, r.a+r.n); const vector<u8>& k = w; Pred p = { v }; size_t x = first (r.n, [&] (size_t i) { return r.a[i] == v; }), y = first (r.n, [&] (size_t i) { return p (r.a[i]); }); SAME(find (k,v) - k.begin(), x, "find"); SAME(find (w,v) - w.begin(), x, "find"); SAME(find_if (k,p) - k.begin(), y, "find_if"); SAME(find_if (w,p) - w.begin(), y, "find_if"); size_t n = 0, m = 0; for (size_t i = 0; i < r.n; ++i) { n += r.a[i] == v; m += p (r.a[i]); } SAME(count (k,v), n, "count"); SAME(count_if (k,p), m, "count_if"); struct F { unsigned k; void operator() (u8) { ++k; } }; F f = { 0 }; CHECK(for_each (k,f).k == r.n && for_each (w,f).k == r.n, "for_each");
    bool same = w.size() == r.n; for (size_t i = 0; i < r.n; ++i) same &= w[i] == r.a[i]; CHECK(same, "unmodified");
}
