//@ property=C22 wraps=rand
//@ oracle="the standard definition of each algorithm applied to a copy of the same symbolic contents, and blocks of exactly the needed size: any stray access is an error"
//@ entry=h_mut cases=0-13 tcases=20-33 reach=hit bound="transform, replace(_if), replace_copy(_if), generate(_n), remove(_if), remove_copy(_if), copy_if, unique(_copy), reverse(_copy), rotate(_copy), swap_ranges, iter_swap, partition, stable_partition, random_shuffle: all ranges of 0-8 (thorough 11) bytes (random_shuffle 4 and 5), all values, all predicates on the low 3 bits, all equivalences a&m==b&m, pointers and a random access iterator that is no pointer, in place and into another range"
//@ entry=h_ctr cases=0-7 tcases=20-27 bound="the container forms on vectors of 0-6 (thorough 8) bytes, removal by sorted iterator lists and rotation by every offset included"
//@ entry=h_own cases=0-4 bound="remove_if, unique, reverse, rotate, stable_partition and random_shuffle of 0-6 elements that own memory: no element is lost or released twice"
//@ trusted="rand is replaced by every value 0-11, each call independently (every residue that matters for the sizes used)"
//@ outside="forward and input iterators; predicates that throw; uniformity of random_shuffle"
#include "res.h"
#include "uvector.h"
#include "ustring.h"
#include "uctralgo.h"
typedef uint8_t u8; typedef Seq<u8,16> Q;
extern "C" int __real_rand (void);
static bool s_rand; 
extern "C" int __wrap_rand (void) { return s_rand ? (int) sym_pick (0,11,"rand") : __real_rand(); }
struct Pred { u8 t; bool operator() (u8 v) const { return (t >> (v & 7)) & 1; } };
struct Eqv { u8 m; bool operator() (u8 a, u8 b) const { return (a & m) == (b & m); } };
struct Rng { size_t n; exact m; u8* a; Q o; Rng (size_t N, size_t lo = 0) : n(sym_pick (lo,N,"n")), m(n), a((u8*) m.p) { for (size_t i = 0; i < n; ++i) o.push (a[i] = sym_u8 ("a")); } bool same (void) const { return is (o); } bool is (const Q& q) const { bool ok = q.n <= n; for (size_t i = 0; ok && i < q.n; ++i) ok &= a[i] == q.v[i]; return ok; } };
static bool eq (const u8* p, const Q& q) { bool ok = true; for (size_t i = 0; i < q.n; ++i) ok &= p[i] == q.v[i]; return ok; }
// result of an out-of-place algorithm: exactly q in a block of exactly q.n, source unchanged
#define OUT(call,msg) do { exact x_ (q.n); I x (R_(x_.p)); I y_ = (call); CHECK((size_t (y_ - x) == q.n) & eq ((u8*) x_.p, q) & r.same(), msg); } while (0)
#define R_(p) ((u8*) (p))
// result of an in-place algorithm that returns the new end
#define IN(call,msg) do { I y_ = (call); CHECK((size_t (y_ - b) == q.n) & r.is (q), msg); OBS(q.n); } while (0)
template <typename I> static void mut (int c, size_t N)
{
    Rng r (N); size_t n = r.n; u8* a = r.a; I b (a), e (a+n); u8 v = sym_u8 ("v"), w = sym_u8 ("w"); Pred p = { v }; Eqv g = { v }; Q q; if (n > 2) sym_reach ("hit");
    const Q o = r.o;
    switch (c) {
	case 0: { struct F { u8 m, k; u8 operator() (u8 x) const { return (x ^ m) + k; } } f = { v,w }; for (size_t i = 0; i < n; ++i) q.push (f (o.v[i])); OUT(transform (b,e,x,f), "transform"); IN(transform (b,e,b,f), "transform in place"); } break;
	case 1: { exact z (n); for (size_t i = 0; i < n; ++i) z.p[i] = sym_u8 ("b"); I zb ((u8*) z.p); struct F { u8 k; u8 operator() (u8 x, u8 y) const { return x - y + k; } } f = { v }; for (size_t i = 0; i < n; ++i) q.push (f (o.v[i], z.p[i])); OUT(transform (b,e,zb,x,f), "transform of two"); IN(transform (b,e,zb,b,f), "transform of two in place"); } break;
	case 2: for (size_t i = 0; i < n; ++i) q.push (o.v[i] == v ? w : o.v[i]); OUT(replace_copy (b,e,x,v,w), "replace_copy"); replace (b,e,v,w); CHECK(r.is (q), "replace"); break;
	case 3: for (size_t i = 0; i < n; ++i) q.push (p (o.v[i]) ? w : o.v[i]); OUT(replace_copy_if (b,e,x,p,w), "replace_copy_if"); replace_if (b,e,p,w); CHECK(r.is (q), "replace_if"); break;
	case 4: { struct G { u8 s, d; u8 operator() (void) { u8 x = s; s += d; return x; } } f = { v,w }; for (size_t i = 0; i < n; ++i) q.push (u8 (v + i*w)); generate (b,e,f); CHECK(r.is (q), "generate"); size_t k = sym_pick (0,n,"k"); exact z (k); I zb ((u8*) z.p); I ze = generate_n (zb,k,f); q.n = k; CHECK(size_t (ze - zb) == k && eq ((u8*) z.p,q), "generate_n"); } break;
	case 5: { I f = remove_copy (b,e,b,v); size_t k = f - b; for (size_t i = 0; i < n; ++i) if (o.v[i] != v) q.push (o.v[i]); CHECK((k == q.n) & r.is (q), "remove_copy in place"); for (size_t i = 0; i < n; ++i) a[i] = o.v[i]; OUT(remove_copy (b,e,x,v), "remove_copy"); IN(remove (b,e,v), "remove"); } break;
	case 6: { for (size_t i = 0; i < n; ++i) if (!p (o.v[i])) q.push (o.v[i]); OUT(remove_copy_if (b,e,x,p), "remove_copy_if"); { Q keep = q; q.n = 0; for (size_t i = 0; i < n; ++i) if (p (o.v[i])) q.push (o.v[i]); OUT(copy_if (b,e,x,p), "copy_if"); q = keep; } IN(remove_if (b,e,p), "remove_if"); } break;
	case 7: { for (size_t i = 0; i < n; ++i) if (!i || o.v[i] != o.v[i-1]) q.push (o.v[i]); OUT(unique_copy (b,e,x), "unique_copy"); IN(unique (b,e), "unique"); } break;
	case 8: { for (size_t i = 0; i < n; ++i) if (!i || !g (o.v[i-1],o.v[i])) q.push (o.v[i]); OUT(unique_copy (b,e,x,g), "unique_copy by predicate"); IN(unique (b,e,g), "unique by predicate"); } break;
	case 9: { for (size_t i = n; i-- > 0;) q.push (o.v[i]); OUT(reverse_copy (b,e,x), "reverse_copy"); reverse (b,e); CHECK(r.is (q), "reverse"); } break;
	case 10: { size_t k = sym_pick (0,n,"middle"); for (size_t i = 0; i < n; ++i) q.push (o.v[(i+k)%n]); OUT(rotate_copy (b,b+k,e,x), "rotate_copy"); I m = rotate (b,b+k,e); CHECK(r.is (q), "rotate"); CHECK(size_t (m - b) == n-k, "rotate returns the new place of the first element"); } break;
	case 11: { exact z (n); for (size_t i = 0; i < n; ++i) q.push (z.p[i] = sym_u8 ("b")); I zb ((u8*) z.p); I ze = swap_ranges (b,e,zb); CHECK(size_t (ze - zb) == n && r.is (q) && eq ((u8*) z.p,o), "swap_ranges"); if (n < 2) break; size_t i = sym_pick (0,n-1,"i"); iter_swap (b,b+i); u8 t = q.v[0]; q.v[0] = q.v[i]; q.v[i] = t; CHECK(r.is (q), "iter_swap"); } break;
	case 12: { size_t k = 0; for (size_t i = 0; i < n; ++i) if (p (o.v[i])) { q.push (o.v[i]); ++k; } for (size_t i = 0; i < n; ++i) if (!p (o.v[i])) q.push (o.v[i]); bool st = sym_bool ("stable"); I m = st ? stable_partition (b,e,p) : partition (b,e,p); CHECK(size_t (m - b) == k, "partition point"); if (st) CHECK(r.is (q), "stable_partition"); else { bool ok = true; for (size_t i = 0; i < n; ++i) ok &= p (a[i]) == (i < k); unsigned s = 0, t = 0; u8 x = sym_u8 ("x"); for (size_t i = 0; i < n; ++i) { s += a[i] == x; t += o.v[i] == x; } CHECK(ok & (s == t), "partition"); } } break;
	case 13: { s_rand = true; random_shuffle (b,e); s_rand = false; u8 x = sym_u8 ("x"); unsigned s = 0, t = 0; for (size_t i = 0; i < n; ++i) { s += a[i] == x; t += o.v[i] == x; } CHECK(s == t, "random_shuffle permutes"); } break;
    }
}
extern "C" void h_mut (int c) { size_t N = c < 20 ? 8 : 11; if (c%20 == 13) N = c < 20 ? 4 : 5; switch (sym_pick (0,1,"iterator")) { case 0: mut<u8*> (c%20,N); break; case 1: mut<iter<u8> > (c%20,N); break; } }
static bool is (const vector<u8>& v, const Q& q) { return v.size() == q.n && eq (v.begin(), q); }
extern "C" void h_ctr (int c)
{
    size_t N = c < 20 ? 6 : 8; Rng r (N); size_t n = r.n; vector<u8> d (r.a,r.a+n); u8 v = sym_u8 ("v"), w = sym_u8 ("w"); Pred p = { v }; Eqv g = { v }; const Q& o = r.o; Q q; exact z (n); u8* x = (u8*) z.p; struct F { u8 m; u8 operator() (u8 y) const { return y ^ m; } } f = { w };
    switch (c%20) {
	case 0: for (size_t i = 0; i < n; ++i) q.push (f (o.v[i])); CHECK(transform (d,x,f) == x+n && eq (x,q) && is (d,o), "transform to elsewhere"); transform (d,f); CHECK(is (d,q), "transform"); { struct B { u8 operator() (u8 i, u8 j) const { return i - j; } } h; Q s; for (size_t i = 0; i < n; ++i) s.push (f (o.v[i]) - o.v[i]); CHECK(transform (d,r.a,x,h) == x+n && eq (x,s), "transform of two"); } break;
	case 1: for (size_t i = 0; i < n; ++i) q.push (o.v[i] == v ? w : o.v[i]); CHECK(replace_copy (d,x,v,w) == x+n && eq (x,q) && is (d,o), "replace_copy"); replace (d,v,w); CHECK(is (d,q), "replace"); break;
	case 2: for (size_t i = 0; i < n; ++i) q.push (p (o.v[i]) ? w : o.v[i]); CHECK(replace_copy_if (d,x,p,w) == x+n && eq (x,q) && is (d,o), "replace_copy_if"); replace_if (d,p,w); CHECK(is (d,q), "replace_if"); fill (d,w); q.n = 0; for (size_t i = 0; i < n; ++i) q.push (w); CHECK(is (d,q), "fill"); { struct G { u8 s; u8 operator() (void) { return s++; } } k = { v }; generate (d,k); q.n = 0; for (size_t i = 0; i < n; ++i) q.push (u8 (v+i)); CHECK(is (d,q), "generate"); } break;
	case 3: { size_t k = remove_copy (d,x,v) - x; for (size_t i = 0; i < n; ++i) if (o.v[i] != v) q.push (o.v[i]); CHECK(k == q.n && eq (x,q) && is (d,o), "remove_copy"); remove (d,v); CHECK(is (d,q), "remove"); } break;
	case 4: { size_t k = remove_copy_if (d,x,p) - x; for (size_t i = 0; i < n; ++i) if (!p (o.v[i])) q.push (o.v[i]); CHECK(k == q.n && eq (x,q) && is (d,o), "remove_copy_if"); Q s; for (size_t i = 0; i < n; ++i) if (p (o.v[i])) s.push (o.v[i]); k = copy_if (d,x,p) - x; CHECK(k == s.n && eq (x,s) && is (d,o), "copy_if"); remove_if (d,p); CHECK(is (d,q), "remove_if"); CHECK(copy (d,x) == x+q.n && eq (x,q), "copy"); } break;
	case 5: { vector<u8> k (d); size_t m = unique_copy (d,x) - x; for (size_t i = 0; i < n; ++i) if (!i || o.v[i] != o.v[i-1]) q.push (o.v[i]); CHECK(m == q.n && eq (x,q) && is (d,o), "unique_copy"); unique (d); CHECK(is (d,q), "unique"); unique (k,g); q.n = 0; for (size_t i = 0; i < n; ++i) if (!i || !g (o.v[i],o.v[i-1])) q.push (o.v[i]); CHECK(is (k,q), "unique by predicate"); } break;
	case 6: { size_t t = sym_pick (0,(1u<<n)-1,"removed"), k = 0; u8* l[16]; for (size_t i = 0; i < n; ++i) { if ((t>>i)&1) l[k++] = d.begin()+i; else q.push (o.v[i]); } CHECK(remove_copy (d.begin(),d.end(),x,l,l+k) == x+q.n && eq (x,q) && is (d,o), "remove_copy of listed iterators"); remove (d,l,l+k); CHECK(is (d,q), "remove of listed iterators"); } break;
	case 7: { if (!n) break; int k = int (sym_pick (0,2*(n-1),"offset")) - int (n-1); rotate (d,k); for (size_t i = 0; i < n; ++i) q.push (o.v[(i + n - k) % n]); CHECK(is (d,q), "rotate: right by a positive offset, left by a negative one"); reverse (d); Q s; for (size_t i = n; i-- > 0;) s.push (q.v[i]); CHECK(is (d,s), "reverse"); s_rand = true; if (n < 4) random_shuffle (d); s_rand = false; u8 y = sym_u8 ("y"); unsigned i1 = 0, i2 = 0; for (size_t i = 0; i < n; ++i) { i1 += d[i] == y; i2 += o.v[i] == y; } CHECK(i1 == i2, "random_shuffle"); } break;
    }
}
extern "C" void h_own (int c)
{
    {
	size_t n = sym_pick (0,6,"n"); vector<R> d; Q o, q; for (size_t i = 0; i < n; ++i) { u8 k = sym_pick (0,1,"k"); o.push (k); d.push_back (R(k)); } struct P { bool operator() (const R& r) const { return *r.p; } } p;
	switch (c) {
	    case 0: for (size_t i = 0; i < n; ++i) if (!o.v[i]) q.push (o.v[i]); remove_if (d,p); break;
	    case 1: for (size_t i = 0; i < n; ++i) if (!i || o.v[i] != o.v[i-1]) q.push (o.v[i]); unique (d); break;
	    case 2: for (size_t i = n; i-- > 0;) q.push (o.v[i]); reverse (d); break;
	    case 3: { size_t k = sym_pick (0,n,"middle"); for (size_t i = 0; i < n; ++i) q.push (o.v[(i+k)%n]); if (sym_bool ("generic")) rotate (iter<R> (d.begin()), iter<R> (d.begin()+k), iter<R> (d.end())); else rotate (d.begin(), d.begin()+k, d.end()); } break;
	    case 4: for (size_t i = 0; i < n; ++i) if (o.v[i]) q.push (1); for (size_t i = 0; i < n; ++i) if (!o.v[i]) q.push (0); stable_partition (d.begin(), d.end(), p); break;
	}
	bool ok = d.size() == q.n; for (size_t i = 0; ok && i < q.n; ++i) ok &= *d[i].p == q.v[i]; CHECK(ok, "contents"); CHECK(res_live == int (q.n), "one live element per place");
    }
    CHECK(res_live == 0, "all released"); CHECK(sym_live_allocs() == 0, "no leak");
}
