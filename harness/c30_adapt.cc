//@ property=C30
//@ oracle="positions, offsets and elements computed on plain indexes of the same symbolic sequence; operations applied directly to the same operands"
//@ entry=h_rev cases=0-4 reach=hit bound="reverse_iterator over pointers, constant pointers, a class iterator, and itself: all byte sequences of 0-5, every position, every offset within the range, every pair of positions; whole traversals both ways, copying, constructing containers from reversed ranges"
//@ entry=h_move cases=0-3 reach=hit bound="move_iterator over pointers and a class iterator: every position, offset and pair in 0-5 elements that record whether they were moved from"
//@ entry=h_ins cases=0-5 reach=hit bound="inserter at every position, back_inserter and front_inserter: vector, string, list and set of 0-4 elements, 0-4 values, each of the three ways to write through and step, with and without spare capacity"
//@ entry=h_insalg cases=0-2 bound="copy, reverse_copy, transform and merge through the three inserters, 0-3 existing and 0-4 new elements"
//@ entry=h_idx cases=0-2 reach=hit bound="index_iterator over 0-4 symbolic indexes into 1-5 elements: every position, offset and pair; indexv_to_iteratorv"
//@ entry=h_util cases=0-4 bound="begin, end, cbegin, cend, rbegin, rend, crbegin, crend, size, empty, data, VectorEnd, VectorSize, VectorRange, foreach, eachfor of arrays, vectors and strings of 0-5; advance, distance and abs_distance of pointers, void pointers and class iterators; unconst and ibyi"
//@ entry=h_fun cases=0-4 bound="every arithmetic, logical, bitwise and comparison functor for all operands of 8-bit signed and unsigned, 32-bit unsigned and 64-bit unsigned types (divides and modulus: 8 bits)"
//@ entry=h_bind cases=0-4 bound="binders, negators, composers, ptr_fun, member function, member variable and dereference adaptors over all 32-bit operands with a function that distinguishes its arguments"
//@ outside="istream_iterator and ostream_iterator (properties C14 and C15 cover the streams); operator-> of index_iterate, which has no object to point to"
#include "uutility.h"
#include "hx.h"
#include "uvector.h"
#include "ustring.h"
#include "ulist.h"
#include "uset.h"
#include "uctralgo.h"
#include "ufunction.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
struct Rng { size_t n; exact m; u8* a; Rng (size_t N, size_t lo = 0) : n(sym_pick (lo,N,"n")), m(n), a((u8*) m.p) { for (size_t i = 0; i < n; ++i) a[i] = sym_u8 ("a"); } };
//--------------------------------------------------------------------
// Checks an iterator r for which "position k" is made by at(k), with elements el(k), positions 0..n
template <typename It, typename At, typename El> static void walk (size_t n, At at, El el)
{
    size_t i = sym_pick (0,n,"i"), j = sym_pick (0,n,"j"); It p (at (i)), q (at (j)); if (n > 2 && i == 1 && j == 2) sym_reach ("hit");
    CHECK((p == q) == (i == j) && (p != q) == (i != j), "equality"); CHECK((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "order");
    CHECK(p - q == ptrdiff_t(i) - ptrdiff_t(j), "difference"); CHECK(distance (q, p) == ptrdiff_t(i) - ptrdiff_t(j), "distance");
    if (j >= i) { CHECK(p + (j-i) == q, "+"); CHECK(q - (j-i) == p, "-"); It t (p); CHECK(&(t += j-i) == &t && t == q, "+="); t = q; CHECK(&(t -= j-i) == &t && t == p, "-="); if (j < n) CHECK(el (p[j-i], j), "[]"); }
    if (i < n) { CHECK(el (*p, i), "*"); It t (p); CHECK(&++t == &t && t == at (i+1), "++"); t = p; It o = t++; CHECK(o == p && t == at (i+1), "postfix ++"); }
    if (i) { It t (p); CHECK(&--t == &t && t == at (i-1), "--"); t = p; It o = t--; CHECK(o == p && t == at (i-1), "postfix --"); }
}
template <typename B> static void rev (Rng& r)
{
    typedef reverse_iterator<B> RI; u8* a = r.a; size_t n = r.n;
    walk<RI> (n, [&] (size_t k) { return RI (B (a + (n - k))); }, [&] (const u8& v, size_t k) { return &v == a + (n-1-k); });
    size_t k = sym_pick (0,n,"k"); RI x (make_reverse_iterator (B (a+k))); CHECK(x.base() == B (a+k), "base"); if (k) CHECK(x.operator->() == a+k-1, "->");
}
extern "C" void h_rev (int c)
{
    Rng r (5); u8* a = r.a; size_t n = r.n; bool ok = true;
    switch (c) {
	case 0: rev<u8*> (r); break;
	case 1: rev<const u8*> (r); break;
	case 2: rev<iter<u8> > (r); break;
	case 3: { typedef reverse_iterator<u8*> RI; typedef reverse_iterator<RI> RR; walk<RR> (n, [&] (size_t k) { return RR (RI (a+k)); }, [&] (const u8& v, size_t k) { return &v == a+k; }); } break;
	case 4: {
	    if (n > 2) sym_reach ("hit"); vector<u8> v (a,a+n); size_t k = 0;
	    for (vector<u8>::reverse_iterator i = v.rbegin(); i < v.rend(); ++i, ++k) ok &= *i == a[n-1-k];
	    CHECK(ok && k == n, "rbegin to rend"); CHECK(v.rend() - v.rbegin() == ptrdiff_t(n) && distance (v.rbegin(), v.rend()) == ptrdiff_t(n), "distance of the reversed range");
	    const vector<u8>& cv = v; k = 0; eachfor (vector<u8>::const_reverse_iterator, i, cv) { ok &= *i == a[n-1-k]; ++k; } CHECK(ok && k == n, "eachfor");
	    k = n; for (vector<u8>::reverse_iterator i = v.rend(); k; --k) { --i; ok &= *i == a[n-k]; } CHECK(ok, "backward");
	    vector<u8> w (n); copy (v.rbegin(), v.rend(), w.begin()); for (size_t i = 0; i < n; ++i) ok &= w[i] == a[n-1-i]; CHECK(ok, "copy of a reversed range");
	    copy (v.begin(), v.end(), w.rbegin()); for (size_t i = 0; i < n; ++i) ok &= w[i] == a[n-1-i]; CHECK(ok, "copy to a reversed range");
	    if (n) { *v.rbegin() = 77; CHECK(v[n-1] == 77, "write through"); }
	} break;
    }
}
//--------------------------------------------------------------------
struct M { u8 v; u8 st; M (u8 x = 0) : v(x),st(0) {} M (const M& m) : v(m.v),st(1) {} M (M&& m) : v(m.v),st(2) { m.st = 3; } M& operator= (const M& m) { v = m.v; st = 1; return *this; } M& operator= (M&& m) { v = m.v; st = 2; m.st = 3; return *this; } };
template <typename B> static void mv (M* a, size_t n)
{
    typedef move_iterator<B> MI;
    walk<MI> (n, [&] (size_t k) { return MI (B (a+k)); }, [&] (M&& v, size_t k) { return &v == a+k; });
    size_t k = sym_pick (0,n,"k"); MI x (make_move_iterator (B (a+k))); CHECK(x.base() == B (a+k), "base");
    if (k < n) { CHECK(x.operator->() == a+k, "->"); M t (*x); CHECK(t.st == 2 && a[k].st == 3 && t.v == a[k].v, "dereferencing moves"); M s (MI (B (a))[k]); CHECK(s.st == 2, "indexing moves"); }
}
extern "C" void h_move (int c)
{
    size_t n = sym_pick (0,5,"n"); exact m (n*sizeof(M)); M* a = (M*) m.p; for (size_t i = 0; i < n; ++i) { a[i].v = sym_u8 ("a"); a[i].st = 0; }
    switch (c) {
	case 0: mv<M*> (a,n); break;
	case 1: mv<iter<M> > (a,n); break;
	case 2: { if (n > 2) sym_reach ("hit"); M d [5]; bool ok = true; M* e = copy (make_move_iterator (a), make_move_iterator (a+n), d); for (size_t i = 0; i < n; ++i) ok &= d[i].v == a[i].v && d[i].st == 2 && a[i].st == 3; CHECK(ok && e == d+n, "copying a move range moves each element"); } break;
	case 3: { if (n > 2) sym_reach ("hit"); typedef reverse_iterator<M*> RI; typedef move_iterator<RI> MR; walk<MR> (n, [&] (size_t k) { return MR (RI (a+(n-k))); }, [&] (M&& v, size_t k) { return &v == a+(n-1-k); }); } break;
    }
}
//--------------------------------------------------------------------
template <typename I> static void put (I& i, u8 v, int how) { switch (how) { case 0: *i++ = v; break; case 1: *i = v; ++i; break; case 2: i = v; break; } }
template <typename C> static bool same (const C& c, const Seq<u8>& s) { if (c.size() != s.n) return false; bool ok = true; for (size_t i = 0; i < s.n; ++i) ok &= u8(c.begin()[i]) == s.v[i]; return ok; }
// front and back through list, which has both
template <typename C> static void ins (int where)
{
    C v; Seq<u8> s; size_t n = sym_pick (0,4,"n"); bool spare = sym_pick (0,1,"spare"); if (spare) v.reserve (16);
    for (size_t i = 0; i < n; ++i) { u8 x = sym_u8 ("a"); v.push_back (typename C::value_type (x)); s.push (x); } if (n > 1) sym_reach ("hit");
    size_t k = sym_pick (0,4,"k"), p = where == 0 ? sym_pick (0,n,"at") : 0; int how = sym_pick (0,2,"how"); u8 x [4]; for (size_t i = 0; i < k; ++i) x[i] = sym_u8 ("x");
    if (where == 0) { auto i = inserter (v, v.begin()+p); for (size_t j = 0; j < k; ++j) { put (i, x[j], how); s.insert (p+j, x[j]); } CHECK(same (v,s), "inserter inserts in order at its position"); }
    else { auto i = back_inserter (v); for (size_t j = 0; j < k; ++j) { put (i, x[j], how); s.push (x[j]); } CHECK(same (v,s), "back_inserter appends in order"); }
}
extern "C" void h_ins (int c)
{
    switch (c) {
	case 0: ins<vector<u8> > (0); break;
	case 1: ins<vector<u8> > (1); break;
	case 2: ins<string> (0); break;
	case 3: ins<string> (1); break;
	case 4: { list<u8> v; Seq<u8> s; size_t n = sym_pick (0,4,"n"); for (size_t i = 0; i < n; ++i) { u8 x = sym_u8 ("a"); v.push_back (x); s.push (x); } if (n > 1) sym_reach ("hit");
	    size_t k = sym_pick (0,4,"k"); int how = sym_pick (0,2,"how"); auto i = front_inserter (v); for (size_t j = 0; j < k; ++j) { u8 x = sym_u8 ("x"); put (i, x, how); s.insert (0, x); } CHECK(same (v,s), "front_inserter inserts at the front"); } break;
	case 5: { set<u8> v; bool in [8]; for (int i = 0; i < 8; ++i) in[i] = false; size_t n = sym_pick (0,2,"n"); for (size_t i = 0; i < n; ++i) { u8 x = sym_pick (0,7,"a"); v.insert (x); in[x] = true; } if (n > 1) sym_reach ("hit");
	    size_t k = sym_pick (0,2,"k"); int how = sym_pick (0,2,"how"); auto i = inserter (v, v.begin()); for (size_t j = 0; j < k; ++j) { u8 x = sym_pick (0,7,"x"); put (i, x, how); in[x] = true; }
	    Seq<u8> s; for (int i = 0; i < 8; ++i) if (in[i]) s.push (i); CHECK(same (v,s), "inserter into a set"); } break;
    }
}
extern "C" void h_insalg (int c)
{
    list<u8> v; Seq<u8> s; size_t n = sym_pick (0,3,"n"); for (size_t i = 0; i < n; ++i) { u8 x = sym_u8 ("a"); v.push_back (x); s.push (x); }
    Rng r (4); u8* a = r.a; size_t k = r.n, p = sym_pick (0,n,"at"); struct F { u8 m; u8 operator() (u8 x) const { return x ^ m; } } f = { sym_u8 ("m") };
    auto run = [&] (int w) {
	switch (w) {
	    case 0: if (c == 0) copy (a, a+k, inserter (v, v.begin()+p)); else if (c == 1) copy (a, a+k, back_inserter (v)); else copy (a, a+k, front_inserter (v)); break;
	    case 1: if (c == 0) reverse_copy (a, a+k, inserter (v, v.begin()+p)); else if (c == 1) reverse_copy (a, a+k, back_inserter (v)); else reverse_copy (a, a+k, front_inserter (v)); break;
	    case 2: if (c == 0) transform (a, a+k, inserter (v, v.begin()+p), f); else if (c == 1) transform (a, a+k, back_inserter (v), f); else transform (a, a+k, front_inserter (v), f); break;
	} };
    int w = sym_pick (0,2,"w"); run (w); for (size_t i = 0; i < k; ++i) { u8 x = w == 0 ? a[i] : w == 1 ? a[k-1-i] : f (a[i]); if (c == 0) s.insert (p+i, x); else if (c == 1) s.push (x); else s.insert (0, x); }
    CHECK(same (v,s), "algorithm output through an inserter");
}
//--------------------------------------------------------------------
extern "C" void h_idx (int c)
{
    Rng r (5,1); u8* a = r.a; size_t n = sym_pick (0,4,"k"); uoff_t x [4]; for (size_t i = 0; i < n; ++i) { x[i] = sym_range (0,r.n-1,"x"); }
    if (c == 0) { typedef index_iterate<u8*,uoff_t*> II; walk<II> (n, [&] (size_t k) { return index_iterator (a, x+k); }, [&] (u8* v, size_t k) { return v == a+x[k]; }); CHECK(II (a,x+n).base() == x+n, "base"); }
    else if (c == 1) { typedef index_iterate<const u8*,iter<uoff_t> > II; walk<II> (n, [&] (size_t k) { return index_iterator ((const u8*) a, iter<uoff_t> (x+k)); }, [&] (const u8* v, size_t k) { return v == a+x[k]; }); }
    else { if (n > 2) sym_reach ("hit"); vector<uoff_t> xv (x,x+n); vector<u8*> iv (2); indexv_to_iteratorv (a, xv, iv); bool ok = iv.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = iv[i] == a+x[i]; CHECK(ok, "indexv_to_iteratorv"); }
}
//--------------------------------------------------------------------
template <typename C> static void ctr (C& v, const u8* a, size_t n)
{
    typedef typename C::value_type T; const C& k = v; bool ok = true; size_t i = 0;
    CHECK(begin (v) == v.begin() && end (v) == v.begin()+n && cbegin (v) == k.begin() && cend (v) == k.begin()+n && begin (k) == k.begin() && end (k) == k.end(), "begin and end");
    CHECK(size (v) == n && empty (v) == !n && (n == 0 || (data (v) == &*v.begin() && data (k) == &*k.begin())), "size, empty, data");
    CHECK(rbegin (v).base() == v.end() && rend (v).base() == v.begin() && crbegin (v).base() == k.end() && crend (v).base() == k.begin() && rbegin (k).base() == k.end() && rend (k).base() == k.begin(), "rbegin and rend");
    foreach (typename C::iterator, p, v) ok &= i < n && T(a[i]) == *p, ++i; CHECK(ok && i == n, "foreach");
    eachfor (typename C::reverse_iterator, p, v) --i, ok &= T(a[i]) == *p; CHECK(ok && !i, "eachfor");
}
extern "C" void h_util (int c)
{
    Rng r (5); u8* a = r.a; size_t n = r.n, i = sym_pick (0,n,"i"), j = sym_pick (0,n,"j");
    switch (c) {
	case 0: { vector<u8> v (a,a+n); ctr (v,a,n); } break;
	case 1: { string s ((const char*) a, n); ctr (s,a,n); } break;
	case 2: {
	    u32 z [3] = { sym_u32 ("z0"), 0, 0 }; z[1] = sym_u32 ("z1"); z[2] = sym_u32 ("z2"); const u32 (&k)[3] = z; u32 s = 0;
	    CHECK(begin (z) == z && end (z) == z+3 && cbegin (z) == z && cend (z) == z+3 && begin (k) == z && end (k) == z+3 && size (z) == 3 && data (z) == z && VectorEnd (z) == z+3 && VectorSize (z) == 3, "array ranges");
	    foreach (u32*, p, z) s = s*2 + *p; CHECK(s == (z[0]*2 + z[1])*2 + z[2], "foreach over an array"); vector<u32> v (VectorRange (z)); CHECK(v.size() == 3 && v[0] == z[0] && v[1] == z[1] && v[2] == z[2], "VectorRange");
	    CHECK(size_of_elements (n, z) == n*4, "size_of_elements");
	} break;
	case 3: {
	    ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i); u8 *p = a+i, *q = a+j; void *vp = p, *vq = q; const void *cp = p, *cq = q; iter<u8> ip (p), iq (q);
	    CHECK(distance (p,q) == d && distance (vp,vq) == d && distance (cp,cq) == d && distance (vp,cq) == d && distance (cp,vq) == d && distance (ip,iq) == d, "distance");
	    size_t ad = d < 0 ? -d : d; CHECK(abs_distance (p,q) == ad && abs_distance (vp,vq) == ad && abs_distance (ip,iq) == ad, "abs_distance");
	    CHECK(advance_ptr (p,d) == q && advance_ptr (vp,d) == vq && advance_ptr (cp,d) == cq, "advance_ptr");
	    CHECK(advance (p,d) == q && p == q && advance (vp,d) == vq && vp == vq && advance (cp,d) == cq && cp == cq && advance (ip,d) == iq && ip == iq, "advance");
	} break;
	case 4: {
	    vector<u8> v (a,a+n); vector<u32> w (n); const vector<u8>& cv = v; const vector<u32>& cw = w; vector<u8>::const_iterator ci = cv.begin()+i; vector<u8>::iterator vi = v.begin()+i;
	    CHECK(unconst (ci, v) == vi, "unconst");
	    CHECK((ibyi<vector<u8>,vector<u32> > (vi, v, w)) == w.begin()+i && (ibyi<vector<u8>,vector<u32> > (ci, cv, cw)) == cw.begin()+i && (ibyi<vector<u8>,vector<u32> > (ci, cv, w)) == w.begin()+i && (ibyi<vector<u8>,vector<u32> > (vi, v, cw)) == cw.begin()+i, "ibyi");
	} break;
    }
}
//--------------------------------------------------------------------
template <typename T> static void fun (bool arith, bool divs)
{
    T a = T(sym_bits (8*sizeof(T),"a")), b = T(sym_bits (8*sizeof(T),"b"));
    if (arith) CHECK(plus<T>() (a,b) == T(a+b) && minus<T>() (a,b) == T(a-b) && negate<T>() (a) == T(-a), "plus, minus, negate");
    if (sizeof(T) < 4) CHECK(multiplies<T>() (a,b) == T(a*b), "multiplies");
    if (divs && b && !(T(-1) < T(0) && b == T(-1))) CHECK(divides<T>() (a,b) == T(a/b) && modulus<T>() (a,b) == T(a%b), "divides, modulus");
    CHECK(logical_and<T>() (a,b) == T(a && b) && logical_or<T>() (a,b) == T(a || b) && logical_not<T>() (a) == T(!a), "logical operations");
    CHECK(bitwise_or<T>() (a,b) == T(a|b) && bitwise_and<T>() (a,b) == T(a&b) && bitwise_xor<T>() (a,b) == T(a^b) && bitwise_not<T>() (a) == T(~a), "bitwise operations");
    CHECK(equal_to<T>() (a,b) == (a == b) && not_equal_to<T>() (a,b) == (a != b) && greater<T>() (a,b) == (a > b) && less<T>() (a,b) == (a < b) && greater_equal<T>() (a,b) == (a >= b) && less_equal<T>() (a,b) == (a <= b), "comparisons");
    CHECK(compare<T>() (a,b) == (a < b ? -1 : a > b ? 1 : 0), "compare"); CHECK(identity<T>() (a) == a && (project1st<T,T>() (a,b)) == a && (project2nd<T,T>() (a,b)) == b, "identity and projections");
}
extern "C" void h_fun (int c)
{
    switch (c) {
	case 0: fun<u8> (true,true); break;
	case 1: fun<int8_t> (true,true); break;
	case 2: fun<u32> (true,false); break;
	case 3: fun<u64> (true,false); break;
	case 4: { u8 a = sym_u8 ("a"); u32 b = sym_u32 ("b"); CHECK((project1st<u8,u32>() (a,b)) == a && (project2nd<u8,u32>() (a,b)) == b, "projections of different types"); fun<int> (false,false); } break;
    }
}
//--------------------------------------------------------------------
struct F2 : public binary_function<u32,u32,u32> { u32 m; F2 (u32 k) : m(k) {} u32 operator() (u32 a, u32 b) const { return (a << 3) - (b ^ m); } };
struct F1 : public unary_function<u32,u32> { u32 m; F1 (u32 k) : m(k) {} u32 operator() (u32 a) const { return (a ^ m) + (a << 1); } };
struct P1 : public unary_function<u32,bool> { u32 m; P1 (u32 k) : m(k) {} bool operator() (u32 a) const { return a & m; } };
struct L2 : public binary_function<u32,u64,bool> { bool operator() (u32 a, u64 b) const { return a < b; } };
static u32 f1 (u32 a) { return a*2 + 1; } static u32 f2 (u32 a, u32 b) { return (a << 2) ^ b; }
struct Obj { u32 v; u8 w; u32 get (void) { return v + 1; } u32 cget (void) const { return v ^ 5; } u32 put (u32 x) { v += x; return v; } u32 cput (u32 x) const { return v - x; } };
struct F1o : public unary_function<u32&,u32> { u32 operator() (u32& a) const { return ++a; } };
struct EqO : public unary_function<Obj,bool> { bool operator() (const Obj& o) const { return o.v == o.w; } };
struct LtO : public binary_function<Obj,Obj,bool> { bool operator() (const Obj& a, const Obj& b) const { return a.v < b.v; } };
extern "C" void h_bind (int c)
{
    u32 a = sym_u32 ("a"), b = sym_u32 ("b"), m = sym_u32 ("m"); F2 f (m); F1 g (m), h (b);
    switch (c) {
	case 0: CHECK(bind1st (f,a) (b) == f (a,b) && bind2nd (f,a) (b) == f (b,a), "binders"); { u64 q = sym_u64 ("q"); CHECK(bind1st (L2(),a) (q) == (a < q) && bind2nd (L2(),q) (a) == (a < q), "binders of different types"); } break;
	case 1: CHECK(unary_negator (P1 (m)) (a) == !(a & m), "negator"); CHECK(compose1 (g,h) (a) == g (h (a)) && compose2 (f,g,h) (a) == f (g (a), h (a)), "composition"); CHECK(ptr_fun (&f1) (a) == f1 (a) && ptr_fun (&f2) (a,b) == f2 (a,b) && bind2nd (ptr_fun (&f2),m) (a) == f2 (a,m), "ptr_fun"); break;
	case 2: { Obj o = { a,1 }; const Obj& k = o; CHECK(mem_fun (&Obj::get) (&o) == a+1 && mem_fun (&Obj::cget) (&k) == (a ^ 5) && mem_fun_ref (&Obj::get) (o) == a+1 && mem_fun_ref (&Obj::cget) (k) == (a ^ 5), "member functions"); CHECK(mem_fun (&k, &Obj::cput) (b) == a-b && mem_fun (&o, &Obj::put) (b) == a+b && o.v == a+b, "member functions of an object"); } break;
	case 3: { Obj o = { a, u8(b) }, p = { b, u8(m) }; const Obj &k = o, &q = p; const u32 Obj::*cv = &Obj::v; u32 Obj::*pv = &Obj::v; const u8 Obj::*cw = &Obj::w;
	    CHECK(mem_var_equal_to (cv, b) (k) == (a == b) && mem_var_less (cv, b) (k) == (a < b) && mem_var_less (cw, u8(m)) (k) == (u8(b) < u8(m)), "member variable against a value");
	    CHECK(mem_var_equal_to (cv) (k,q) == (a == b) && mem_var_less (cv) (k,q) == (a < b), "member variable of two objects"); CHECK(const_mem_var1 (cv, g) (k) == g (a) && const_mem_var2 (cv, f) (k,q) == f (a,b), "member variable functors"); CHECK(mem_var1 (pv, F1o()) (o) == u32(a+1) && o.v == u32(a+1), "member variable by reference"); CHECK(mem_var2 (pv, f) (o,p) == f (u32(a+1),b), "member variables of two objects"); } break;
	case 4: { Obj o = { a, u8(b) }, p = { b, u8(m) }; CHECK(dereference (EqO()) (&o) == (a == u8(b)), "dereference"); CHECK(dereference (LtO()) (&o,&p) == (a < b) && dereference (LtO()) (&p,&o) == (b < a), "dereference of two"); } break;
    }
}
