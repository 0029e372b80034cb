//@ property=C23 wraps=qsort
//@ oracle="definitions: sorted, a permutation (every tagged record once), stable (tags ascend among equivalent keys), rank arithmetic for the set operations"
//@ entry=h_sort cases=0-9 tcases=20-29 reach=hit bound="sort, stable_sort, partial_sort, nth_element (default and custom order), all ranges of 0-5 (thorough 6) records with byte keys"
//@ entry=h_psc cases=0-1 tcases=20-21 bound="partial_sort_copy of 0-5 (thorough 6) records into 0-4 places"
//@ entry=h_merge cases=0-1 tcases=20-21 reach=hit bound="merge and inplace_merge of two sorted ranges of byte keys, 0-4 (thorough 5) records each"
//@ entry=h_set cases=0-9 tcases=20-29 reach=hit bound="includes, set_union, set_intersection, set_difference, set_symmetric_difference of sorted ranges of 0-3 (thorough 4) records with repeated keys, default and custom order; keys 0-7, which realise every order and equivalence of up to 8 records under <"
//@ entry=h_bound cases=0-5 tcases=20-25 reach=hit bound="lower_bound, upper_bound, equal_range, binary_search in sorted ranges of 0-10 (thorough 14) bytes, any value, default and custom order, pointers, a random access iterator that is no pointer, container forms"
//@ entry=h_perm cases=0-2 tcases=20-22 reach=hit bound="next_permutation and prev_permutation of 0-4 (thorough 5) bytes, repeated values included, default and custom order: the immediate neighbour in lexicographic order"
//@ entry=h_types cases=0-4 bound="sort of 0-4 int16_t, int32_t and string and 0-3 int64_t and (5 kinds of) double elements"
//@ trusted="qsort is replaced by a sort that obeys ISO C (replays use the real one)"
//@ outside="comparators with state for sort and nth_element (documented restriction), input iterators, sequences of more than these bounds"
#include "hx.h"
#include "qsort.h"
#include "uvector.h"
#include "ustring.h"
#include "uctralgo.h"
typedef uint8_t u8;
struct Rec { u8 k, id; Rec (u8 a = 0, u8 b = 0) : k(a), id(b) {} bool operator< (const Rec& r) const { return k < r.k; } bool operator== (const Rec& r) const { return k == r.k; } };
struct Less { bool operator() (const Rec& a, const Rec& b) const { return a.k < b.k; } bool operator() (u8 a, u8 b) const { return a < b; } };
struct Great { bool operator() (const Rec& a, const Rec& b) const { return b.k < a.k; } bool operator() (u8 a, u8 b) const { return b < a; } };
struct Low { bool operator() (const Rec& a, const Rec& b) const { return (a.k & 3) < (b.k & 3); } bool operator() (u8 a, u8 b) const { return (a & 3) < (b & 3); } };
struct In { size_t n; u8 k [8]; exact m; Rec* a; In (size_t N, u8 t = 0, unsigned bits = 8) : n(sym_pick (0,N,"n")), m(n*sizeof(Rec)), a((Rec*) m.p) { for (size_t i = 0; i < n; ++i) { k[i] = sym_bits (bits,"k"); new (a+i) Rec (k[i],i+t); } } template <typename C> void sorted (C c) { bool ok = true; for (size_t i = 1; i < n; ++i) ok &= !c (a[i],a[i-1]); sym_assume (ok); } };
static bool perm (const Rec* a, size_t n, const u8* k) { bool ok = true; unsigned m = 0; for (size_t i = 0; i < n; ++i) { unsigned id = sym_concretize (a[i].id); if (id >= n) return false; m |= 1u << id; ok &= a[i].k == k[id]; } return ok & (m == (1u << n)-1); }
template <typename C> static bool ordered (const Rec* a, size_t n, C c, bool stable) { bool ok = true; for (size_t i = 1; i < n; ++i) { ok &= !c (a[i],a[i-1]); if (stable) ok &= c (a[i-1],a[i]) | (a[i-1].id < a[i].id); } return ok; }
template <typename C> static void srt (int c, C l, bool dflt, size_t N)
{
    In i (N); Rec *b = i.a, *e = b+i.n, *m = b + (i.n ? sym_pick (0,i.n,"middle") : 0); size_t k = m-b; if (i.n > 2) sym_reach ("hit");
    switch (c) {
	case 0: if (dflt) sort (b,e); else sort (b,e,l); CHECK(ordered (b,i.n,l,false), "sorted"); break;
	case 1: if (dflt) stable_sort (b,e); else stable_sort (b,e,l); CHECK(ordered (b,i.n,l,true), "sorted and stable"); break;
	case 2: if (dflt) partial_sort (b,m,e); else partial_sort (b,m,e,l); { bool ok = ordered (b,k,l,false); for (size_t j = k; j < i.n; ++j) ok &= !k || !l (b[j],b[k-1]); CHECK(ok, "the first places hold the least in order"); } break;
	case 3: if (m == e) break; if (dflt) nth_element (b,m,e); else nth_element (b,m,e,l); { bool ok = true; for (size_t j = 0; j < i.n; ++j) ok &= j < k ? !l (b[k],b[j]) : !l (b[j],b[k]); CHECK(ok, "nth_element"); } break;
	case 4: { iter<Rec> x (b), y (e); if (dflt) stable_sort (x,y); else stable_sort (x,y,l); CHECK(ordered (b,i.n,l,true), "sorted and stable"); } break;
    }
    CHECK(perm (b,i.n,i.k), "permutation");
}
extern "C" void h_sort (int c) { size_t N = c < 20 ? 5 : 6; c %= 20; if (c < 5) srt (c,Less(),true,N); else if (sym_bool ("great")) srt (c-5,Great(),false,N); else srt (c-5,Low(),false,N); }
template <typename C> static void psc (C l, bool dflt, size_t N)
{
    In i (N); size_t w = sym_pick (0,4,"places"); exact m (w*sizeof(Rec)); Rec* r = (Rec*) m.p; for (size_t j = 0; j < w; ++j) new (r+j) Rec (0x5a,99); Rec* e = dflt ? partial_sort_copy (i.a,i.a+i.n,r,r+w) : partial_sort_copy (i.a,i.a+i.n,r,r+w,l); size_t k = w < i.n ? w : i.n; CHECK(size_t (e-r) == k, "end"); bool ok = ordered (r,k,l,false); unsigned got = 0; for (size_t j = 0; j < k; ++j) { unsigned id = sym_concretize (r[j].id); CHECK(id < i.n && !((got >> id) & 1), "each source element once"); got |= 1u << id; ok &= r[j].k == i.k[id]; } for (size_t j = 0; j < i.n; ++j) if (k && !((got >> j) & 1)) ok &= !l (i.a[j],r[k-1]); CHECK(ok, "the least in order"); ok = true; for (size_t j = 0; j < i.n; ++j) ok &= (i.a[j].id == j) & (i.a[j].k == i.k[j]); for (size_t j = k; j < w; ++j) ok &= r[j].id == 99; CHECK(ok, "nothing else touched");
}
extern "C" void h_psc (int c) { size_t N = c < 20 ? 5 : 6; if (c%20 == 0) psc (Less(),true,N); else psc (Great(),false,N); }
extern "C" void h_merge (int c)
{
    size_t N = c < 20 ? 4 : 5; Less l;
    if (c%20 == 0) {
	In i (N), j (N,8); i.sorted (l); j.sorted (l); if (i.n > 1 && j.n > 1) sym_reach ("hit"); size_t n = i.n+j.n; exact m (n*sizeof(Rec)); Rec* r = (Rec*) m.p; Rec* e = sym_bool ("iter") ? merge (iter<Rec> (i.a),iter<Rec> (i.a+i.n),iter<Rec> (j.a),iter<Rec> (j.a+j.n),iter<Rec> (r)).p : merge (i.a,i.a+i.n,j.a,j.a+j.n,r); CHECK(size_t (e-r) == n, "end"); bool ok = ordered (r,n,l,true); unsigned got = 0; for (size_t x = 0; x < n; ++x) { unsigned id = sym_concretize (r[x].id); bool s = id >= 8; CHECK((s ? id-8 < j.n : id < i.n) && !((got >> id) & 1), "each element once"); got |= 1u << id; ok &= r[x].k == (s ? j.k[id-8] : i.k[id]); } CHECK(ok, "merged, stable");
    } else {
	size_t n = sym_pick (0,2*N,"n"), k = sym_pick (0,n,"middle"); if (k > N || n-k > N) return; if (k > 1 && n-k > 1) sym_reach ("hit"); exact m (n*sizeof(Rec)); Rec* r = (Rec*) m.p; u8 key [16]; for (size_t x = 0; x < n; ++x) { key[x] = sym_u8 ("k"); new (r+x) Rec (key[x],x); } sym_assume (ordered (r,k,l,false) & ordered (r+k,n-k,l,false)); if (sym_bool ("iter")) inplace_merge (iter<Rec> (r),iter<Rec> (r+k),iter<Rec> (r+n)); else inplace_merge (r,r+k,r+n); CHECK(ordered (r,n,l,true), "merged, stable"); CHECK(perm (r,n,key), "permutation");
    }
}
template <typename C> static void setop (int c, C l, bool dflt, size_t N)
{
    In i (N,0,3), j (N,8,3); i.sorted (l); j.sorted (l); if (i.n > 1 && j.n > 1) sym_reach ("hit"); Rec *a = i.a, *ae = a+i.n, *b = j.a, *be = b+j.n; exact m ((i.n+j.n)*sizeof(Rec)); Rec* r = (Rec*) m.p; Rec* e = r; bool inc = false;
    switch (c) {
	case 0: inc = dflt ? includes (a,ae,b,be) : includes (a,ae,b,be,l); break;
	case 1: e = dflt ? set_union (a,ae,b,be,r) : set_union (a,ae,b,be,r,l); break;
	case 2: e = dflt ? set_intersection (a,ae,b,be,r) : set_intersection (a,ae,b,be,r,l); break;
	case 3: e = dflt ? set_difference (a,ae,b,be,r) : set_difference (a,ae,b,be,r,l); break;
	case 4: e = dflt ? set_symmetric_difference (a,ae,b,be,r) : set_symmetric_difference (a,ae,b,be,r,l); break;
    }
    // multiplicities: the r-th of the equivalent elements of one range is matched exactly when the other range has more than r of them
    bool all = true, ok = true; u8 ra [8], rb [8], ina [8], inb [8];
    for (size_t x = 0; x < i.n; ++x) ra[x] = x && !l (a[x-1],a[x]) ? ra[x-1]+1 : 0;
    for (size_t x = 0; x < j.n; ++x) rb[x] = x && !l (b[x-1],b[x]) ? rb[x-1]+1 : 0;
    for (size_t x = 0; x < i.n; ++x) { u8 has = 0; for (size_t y = 0; y < j.n; ++y) has |= u8 (!l (a[x],b[y]) & !l (b[y],a[x]) & (rb[y] == ra[x])); ina[x] = c == 1 ? 1 : c == 2 ? has : !has; }
    for (size_t x = 0; x < j.n; ++x) { u8 has = 0; for (size_t y = 0; y < i.n; ++y) has |= u8 (!l (b[x],a[y]) & !l (a[y],b[x]) & (ra[y] == rb[x])); inb[x] = (c == 1 || c == 4) & !has; all &= has; }
    if (c == 0) { CHECK(inc == all, "includes"); OBS(inc); return; }
    size_t n = e-r; unsigned seen = 0;
    for (size_t x = 0; x < n; ++x) { unsigned id = sym_concretize (r[x].id); bool s = id >= 8; CHECK((s ? id-8 < j.n : id < i.n) && !((seen >> id) & 1), "each element once"); seen |= 1u << id; ok &= s ? (r[x].k == j.k[id-8]) : (r[x].k == i.k[id]); }
    for (size_t x = 0; x < i.n; ++x) ok &= ina[x] == ((seen >> x) & 1);
    for (size_t x = 0; x < j.n; ++x) ok &= inb[x] == ((seen >> (x+8)) & 1);
    CHECK(ok, "exactly the standard's elements"); CHECK(ordered (r,n,l,false), "sorted"); OBS(n);
}
extern "C" void h_set (int c) { size_t N = c < 20 ? 3 : 4; c %= 20; if (c < 5) setop (c,Less(),true,N); else if (sym_bool ("great")) setop (c-5,Great(),false,N); else setop (c-5,Low(),false,N); }
template <typename I, typename C> static void bound (C l, bool dflt, size_t N)
{
    size_t n = sym_pick (0,N,"n"); exact m (n); u8* a = (u8*) m.p; for (size_t i = 0; i < n; ++i) a[i] = sym_u8 ("a"); bool ok = true; for (size_t i = 1; i < n; ++i) ok &= !l (a[i],a[i-1]); sym_assume (ok); u8 v = sym_u8 ("v"); if (n > 3) sym_reach ("hit");
    I b (a), e (a+n); vector<u8> d (a,a+n); const vector<u8>& k = d; size_t x = n+1, y = n+1; bool f = false;
    // in a sorted range a lower (upper) bound is fixed by its two neighbours
    #define LO(x) ((x <= n) & (x == 0 || l (a[x-1],v)) & (x == n || !l (a[x],v)))
    #define HI(y) ((y <= n) & (y == 0 || !l (v,a[y-1])) & (y == n || l (v,a[y])))
    switch (sym_pick (0,dflt?7:3,"operation")) {
	case 0: x = (dflt ? lower_bound (b,e,v) : lower_bound (b,e,v,l)) - b; CHECK(LO(x), "lower_bound"); break;
	case 1: y = (dflt ? upper_bound (b,e,v) : upper_bound (b,e,v,l)) - b; CHECK(HI(y), "upper_bound"); break;
	case 2: { pair<I,I> p = dflt ? equal_range (b,e,v) : equal_range (b,e,v,l); x = p.first-b; y = p.second-b; CHECK(LO(x), "equal_range, lower"); CHECK(HI(y), "equal_range, upper"); } break;
	case 3: { f = dflt ? binary_search (b,e,v) : binary_search (b,e,v,l); bool in = false; for (size_t i = 0; i < n; ++i) in |= !l (a[i],v) & !l (v,a[i]); CHECK(f == in, "binary_search"); } break;
	case 4: x = lower_bound (d,v) - d.begin(); y = upper_bound (d,v) - d.begin(); CHECK(LO(x) & HI(y), "container forms"); break;
	case 5: x = lower_bound (k,v) - k.begin(); y = upper_bound (k,v) - k.begin(); CHECK(LO(x) & HI(y), "constant container forms"); break;
	case 6: { auto p = equal_range (k,v); auto q = equal_range (d,v); x = p.first - k.begin(); y = p.second - k.begin(); CHECK(LO(x) & HI(y) & (size_t (q.first - d.begin()) == x) & (size_t (q.second - d.begin()) == y), "container equal_range"); } break;
	case 7: { bool g = binary_search (k,v); f = binary_search (d,v); bool in = false; for (size_t i = 0; i < n; ++i) in |= a[i] == v; CHECK((f == in) & (g == in), "container binary_search"); } break;
    }
    OBS(x); OBS(y); OBS(f);
}
extern "C" void h_bound (int c) { size_t N = c < 20 ? 10 : 14; switch (c%20) { case 0: bound<u8*> (Less(),true,N); break; case 1: bound<iter<u8> > (Less(),true,N); break; case 2: bound<u8*> (Great(),false,N); break; case 3: bound<iter<u8> > (Great(),false,N); break; case 4: bound<u8*> (Low(),false,N); break; case 5: bound<iter<u8> > (Low(),false,N); break; } }
template <typename C> static bool lex (const u8* a, const u8* b, size_t n, C l) { bool r = false; for (size_t i = n; i-- > 0;) r = l (a[i],b[i]) | (!l (b[i],a[i]) & r); return r; }
template <typename C> static void prm (C l, bool dflt, size_t N)
{
    size_t n = sym_pick (0,N,"n"); bool next = sym_bool ("next"); exact m (n); u8* a = (u8*) m.p; u8 o [8]; for (size_t i = 0; i < n; ++i) o[i] = a[i] = sym_u8 ("a"); if (n > 2) sym_reach ("hit");
    bool r = next ? (dflt ? next_permutation (a,a+n) : next_permutation (a,a+n,l)) : (dflt ? prev_permutation (a,a+n) : prev_permutation (a,a+n,l));
    u8 x = sym_u8 ("x"); unsigned s = 0, t = 0; for (size_t i = 0; i < n; ++i) { s += a[i] == x; t += o[i] == x; } CHECK(s == t, "a permutation"); OBS(r);
    bool fwd = next ? lex (o,a,n,l) : lex (a,o,n,l), back = next ? lex (a,o,n,l) : lex (o,a,n,l); CHECK(r ? fwd : !fwd, "moves forward exactly when it returns true");
    // no permutation lies strictly between (or, when wrapping, beyond either end)
    size_t f = 1; for (size_t i = 2; i <= n; ++i) f *= i; bool ok = true; for (size_t q = 0; q < f; ++q) { u8 w [8]; bool used [8] = {}; size_t z = q; for (size_t i = 0; i < n; ++i) { size_t d = z % (n-i), k = 0; z /= n-i; for (;; ++k) if (!used[k] && !d--) break; used[k] = true; w[i] = o[k]; } bool go = next ? lex (o,w,n,l) : lex (w,o,n,l), wa = next ? lex (w,a,n,l) : lex (a,w,n,l); ok &= r ? !(go & wa) : !(go | wa); }
    CHECK(ok, "the immediate neighbour, or the first one after the last"); (void) back;
}
extern "C" void h_perm (int c) { size_t N = c < 20 ? 4 : 5; if (c%20 == 0) prm (Less(),true,N); else if (c%20 == 1) prm (Great(),false,N); else { prm (Less(),false,N); } }
template <typename T> static void types (T (*mk)(void))
{
    size_t n = sym_pick (0,sizeof(T) == 8 ? 3 : 4,"n"); vector<T> d; T o [4]; for (size_t i = 0; i < n; ++i) { o[i] = mk(); d.push_back (o[i]); } sort (d); bool ok = d.size() == n; for (size_t i = 1; i < n; ++i) ok &= !(d[i] < d[i-1]); CHECK(ok, "sorted"); vector<T> e (o,o+n); stable_sort (e); ok = e.size() == n; for (size_t i = 0; ok && i < n; ++i) ok &= e[i] == d[i]; CHECK(ok, "sort and stable_sort agree"); sort (d,greater<T>()); for (size_t i = 0; i < n; ++i) ok &= d[n-1-i] == e[i]; CHECK(ok, "greater");
    for (size_t i = 0; i < n; ++i) { size_t s = 0, t = 0; for (size_t j = 0; j < n; ++j) { s += o[j] == o[i]; t += e[j] == o[i]; } CHECK(s == t, "permutation"); }
}
static int16_t mk16 (void) { return (int16_t) sym_u16 ("v"); } static int32_t mk32 (void) { return (int32_t) sym_u32 ("v"); } static int64_t mk64 (void) { return (int64_t) sym_u64 ("v"); } static double mkd (void) { static const double D[] = {0.25,-2.5,1e300,-__builtin_inf(),0.0}; return D[sym_pick (0,4,"v")]; } static string mks (void) { char c [2]; c[0] = (char) sym_u8 ("c"); c[1] = 'x'; size_t n = sym_pick (0,2,"len"); return string (c,n); }
extern "C" void h_types (int c) { switch (c) { case 0: types (mk16); break; case 1: types (mk32); break; case 2: types (mk64); break; case 3: types (mkd); break; case 4: types (mks); break; } }
