//@ property=C17
//@ oracle="unordered history of (key, tag, alive) records with symbolic flags; sortedness and counts as formulas over it"
//@ entry=h_set cases=0-2 tcases=3-5 reach=dup bound="set of int, of int with greater, of records ordered by key only: every history of 2 operations out of 14 from sets of 0-1 elements and of 1 (thorough 2) from sets of 2-3, all keys"
//@ entry=h_mset cases=0-2 tcases=3-5 bound="multiset likewise, 13 operations; equal elements stay in insertion order"
//@ entry=h_query cases=0-5 tcases=6-11 bound="find, count, lower_bound, upper_bound, equal_range of every key on every set and multiset of up to 4 (thorough 5) elements"
//@ entry=h_text cases=0 bound="set of strings of 0-2 characters, 3 insertions, all byte values"
//@ outside="set (size_type n), which makes n equal elements by design of the underlying vector; inserting through the inherited vector interface"
#include "hx.h"
#include "uset.h"
#include "umultiset.h"
#include "ustring.h"
struct K { int key, tag; K (int k = 0, int t = 0) : key(k), tag(t) {} bool operator== (const K& o) const { return (key == o.key) & (tag == o.tag); } bool operator< (const K& o) const { return key < o.key; } };
struct ByKey { bool operator() (const K& a, const K& b) const { return a.key < b.key; } };
static int key_of (int v) { return v; } static int key_of (const K& v) { return v.key; }
static int tag_of (int) { return 0; } static int tag_of (const K& v) { return v.tag; }
template <typename T> struct Mk { static T mk (int k, int) { return k; } enum { tagged = 0 }; };
template <> struct Mk<K> { static K mk (int k, int t) { return K(k,t); } enum { tagged = 1 }; };
struct Mod {
    enum { N = 16 }; int key[N], tag[N]; bool al[N]; size_t n; Mod () : n(0) {}
    bool has (int k) const { bool r = false; for (size_t i = 0; i < n; ++i) r |= al[i] & (key[i] == k); return r; }
    bool hasx (int k, int t, bool tagged) const { bool r = false; for (size_t i = 0; i < n; ++i) r |= al[i] & (key[i] == k) & (!tagged | (tag[i] == t)); return r; }
    size_t num (int k) const { size_t r = 0; for (size_t i = 0; i < n; ++i) r += al[i] & (key[i] == k); return r; }
    size_t total (void) const { size_t r = 0; for (size_t i = 0; i < n; ++i) r += al[i]; return r; }
    bool addset (int k, int t) { bool d = has(k); key[n] = k; tag[n] = t; al[n] = !d; ++n; return !d; }
    void settle (void) { for (size_t i = 0; i < n; ++i) al[i] = sym_concretize(al[i]); }	// the path has decided these by now
    void add (int k, int t) { key[n] = k; tag[n] = t; al[n] = true; ++n; }
    size_t drop (int k) { size_t r = num(k); for (size_t i = 0; i < n; ++i) al[i] &= key[i] != k; return r; }
    void drop1 (int k, int t, bool tagged) { bool done = false; for (size_t i = 0; i < n; ++i) { bool h = al[i] & (key[i] == k) & (!tagged | (tag[i] == t)) & !done; al[i] &= !h; done |= h; } }
    void clear (void) { n = 0; }
};
static int gtag;
template <typename C, bool multi> static void verify (const C& s, Mod& m)
{
    m.settle(); typedef typename C::value_type T; size_t n = s.size(); CHECK(n == m.total(), "number of elements"); CHECK(s.empty() == !n && size_t(s.end()-s.begin()) == n, "extent");
    bool ord = true, in = true, cnt = true, st = true;
    for (size_t i = 0; i < n; ++i) {
	const T& e = s.begin()[i]; in &= m.hasx(key_of(e),tag_of(e),Mk<T>::tagged);
	if (i) { const T& d = s.begin()[i-1]; bool lt = s.key_comp()(d,e), gt = s.key_comp()(e,d); ord &= multi ? !gt : lt; if (multi && Mk<T>::tagged) st &= lt | (tag_of(d) < tag_of(e)); }
	if (multi) { size_t c = 0; for (size_t j = 0; j < n; ++j) c += key_of(s.begin()[j]) == key_of(e); cnt &= c == m.num(key_of(e)); }
    }
    CHECK(ord, multi ? "elements are in order" : "elements are in strict order"); CHECK(in, "every element was inserted and not erased"); CHECK(cnt, "multiplicities"); CHECK(st, "equal elements in order of insertion");
}
static bool wide; static int symk (void) { return wide ? (int) sym_u32("key") : sym_u8("key"); }	// order is all that matters: 256 keys have every order of the few in play
template <typename C, bool multi> struct Ops {
    typedef typename C::value_type T; typedef typename C::iterator It;
    static void addm (Mod& m, int k, int t) { if (multi) m.add(k,t); else m.addset(k,t); }
    static It ins (C& s, const T& v, bool fresh, true_type) { It r = s.insert(v); return r; }
    static It ins (C& s, const T& v, bool fresh, false_type) { typename C::insertrv_t r = s.insert(v); CHECK(r.second == fresh, "insert reports whether it inserted"); if (!r.second) sym_reach("dup"); return r.first; }
    static It insm (C& s, T&& v, bool fresh, true_type) { return s.insert(ustl::move(v)); }
    static It insm (C& s, T&& v, bool fresh, false_type) { typename C::insertrv_t r = s.insert(ustl::move(v)); CHECK(r.second == fresh, "insert reports whether it inserted"); return r.first; }
    static It emp (C& s, const T& v, bool fresh, true_type) { return s.emplace(v); }
    static It emp (C& s, const T& v, bool fresh, false_type) { typename C::insertrv_t r = s.emplace(v); CHECK(r.second == fresh, "emplace reports whether it inserted"); return r.first; }
    static size_t era (C& s, const T& v, true_type) { return s.erase(v); }
    static size_t era (C& s, const T& v, false_type) { size_t n = s.size(); s.erase(v); return n-s.size(); }
    typedef integral_constant<bool,multi> mt;
    static void chk (C& s, It r, int k, int t, bool fresh) { CHECK(r >= s.begin() && r < s.end(), "insert returns a place in the set"); CHECK(key_of(*r) == k, "insert returns the element"); if (Mk<T>::tagged) { if (fresh) CHECK(tag_of(*r) == t, "insert returns the new element"); else CHECK(tag_of(*r) != t, "a key already there keeps its element"); } }
    static void step (C& s, Mod& m, C& o, Mod& mo)
    {
	int k = symk(), t = ++gtag; T v = Mk<T>::mk(k,t); size_t n = s.size(), p, q; bool fresh;
	switch (sym_pick(0,13,"op")) {
	    case 0: fresh = multi | !m.has(k); addm(m,k,t); chk(s,ins(s,v,fresh,mt()),k,t,fresh); break;
	    case 1: fresh = multi | !m.has(k); addm(m,k,t); chk(s,insm(s,T(v),fresh,mt()),k,t,fresh); break;
	    case 2: fresh = multi | !m.has(k); addm(m,k,t); chk(s,emp(s,v,fresh,mt()),k,t,fresh); break;
	    case 3: fresh = multi | !m.has(k); addm(m,k,t); p = sym_pick(0,n,"hint"); chk(s,s.insert(s.begin()+p,(const T&)v),k,t,fresh); break;
	    case 4: fresh = multi | !m.has(k); addm(m,k,t); p = sym_pick(0,n,"hint"); chk(s,sym_bool("emp") ? s.emplace_hint(s.begin()+p,v) : s.insert(s.begin()+p,T(v)),k,t,fresh); break;
	    case 5: s.push_back(v); addm(m,k,t); break;
	    case 6: { int k2 = symk(), t2 = ++gtag; T a[2] = { v, Mk<T>::mk(k2,t2) }; if (sym_bool("il")) s.insert({a[0],a[1]}); else s.insert(a,a+2); addm(m,k,t); addm(m,k2,t2); } break;
	    case 7: { size_t d = m.drop(k); CHECK(era(s,v,mt()) == d, "erase by key removes all elements with it"); } break;
	    case 8: if (!n) break; p = sym_pick(0,n-1,"pos"); { T e = s.begin()[p]; It r = s.erase(s.begin()+p); CHECK(r == s.begin()+p, "erase returns the place after"); m.drop1(key_of(e),tag_of(e),Mk<T>::tagged); } break;
	    case 9: p = sym_pick(0,n,"pos"); q = sym_pick(p,n,"end"); for (size_t i = p; i < q; ++i) { T e = s.begin()[i]; m.drop1(key_of(e),tag_of(e),Mk<T>::tagged); } { It r = s.erase(s.begin()+p,s.begin()+q); CHECK(r == s.begin()+p, "erase returns the place after"); } break;
	    case 10: s.clear(); m.clear(); break;
	    case 11: if (sym_bool("copy")) { s = o; m = mo; } else { s.swap(o); Mod x (m); m = mo; mo = x; } break;
	    case 12: { T a[2] = { v, v }; s.assign(a,a+1); m.clear(); addm(m,k,t); C c (s); verify<C,multi>(c,m); c.clear(); } break;
	    case 13: if (sym_bool("move")) { s = ustl::move(o); m = mo; o.clear(); mo.clear(); } else { C c (ustl::move(s)); verify<C,multi>(c,m); s = ustl::move(c); } break;
	}
    }
    static void history (int steps, bool deep)
    {
	gtag = 0; wide = false; C a, b; Mod m, n; size_t na = sym_pick(0,3,"n"); if (!deep && na > 1) steps = 1; for (size_t i = 0; i < na; ++i) { int k = symk(), t = ++gtag; a.insert(Mk<T>::mk(k,t)); addm(m,k,t); }
	b.insert(Mk<T>::mk(5,++gtag)); addm(n,5,gtag); verify<C,multi>(a,m);
	steps = sym_pick(1,steps,"steps"); for (int i = 0; i < steps; ++i) { if (i) m.settle(); step(a,m,b,n); } verify<C,multi>(a,m); if (b.size() != 1) verify<C,multi>(b,n);
	OBS(a.size()); if (a.size()) OBS(key_of(*a.begin()));
    }
    static void query (size_t maxn)
    {
	gtag = 0; C s; Mod m; size_t n = sym_pick(0,maxn,"n"); wide = n < 3; for (size_t i = 0; i < n; ++i) { int k = symk(), t = ++gtag; s.insert(Mk<T>::mk(k,t)); addm(m,k,t); }
	m.settle(); int k = symk(); T v = Mk<T>::mk(k,++gtag); const C& c = s; n = s.size(); size_t lo = 0, hi = 0, num = m.num(k);
	for (size_t i = 0; i < n; ++i) { lo += s.key_comp()(s.begin()[i],v); hi += !s.value_comp()(v,s.begin()[i]); }
	typename C::iterator f = s.find(v); CHECK((f == s.end()) == !num, "find finds exactly the keys inserted"); if (f != s.end()) CHECK(key_of(*f) == k, "find returns the element"); CHECK(c.find(v) == f, "const find");
	CHECK(s.count(v) == num, "count"); CHECK(s.lower_bound(v) == s.begin()+lo && c.lower_bound(v) == s.begin()+lo, "lower_bound"); CHECK(s.upper_bound(v) == s.begin()+hi && c.upper_bound(v) == s.begin()+hi, "upper_bound");
	typename C::range_t r = s.equal_range(v); CHECK(r.first == s.begin()+lo && r.second == s.begin()+hi, "equal_range"); typename C::const_range_t cr = c.equal_range(v); CHECK(cr.first == s.begin()+lo && cr.second == s.begin()+hi, "const equal_range");
	OBS(lo); OBS(hi); OBS(f-s.begin());
    }
};
extern "C" void h_set (int c) { int n = 2; bool d = c >= 3; switch (c%3) { case 0: Ops<set<int>,false>::history(n,d); break; case 1: Ops<set<int,greater<int> >,false>::history(n,d); break; case 2: Ops<set<K,ByKey>,false>::history(n,d); break; } }
extern "C" void h_mset (int c) { int n = 2; bool d = c >= 3; switch (c%3) { case 0: Ops<multiset<int>,true>::history(n,d); break; case 1: Ops<multiset<int,greater<int> >,true>::history(n,d); break; case 2: Ops<multiset<K,ByKey>,true>::history(n,d); break; } }
extern "C" void h_query (int c)
{
    size_t n = c < 6 ? 4 : 5;
    switch (c%6) { case 0: Ops<set<int>,false>::query(n); break; case 1: Ops<set<int,greater<int> >,false>::query(n); break; case 2: Ops<set<K,ByKey>,false>::query(n); break;
	case 3: Ops<multiset<int>,true>::query(n); break; case 4: Ops<multiset<int,greater<int> >,true>::query(n); break; case 5: Ops<multiset<K,ByKey>,true>::query(n); break; }
}
extern "C" void h_text (int c)
{
    set<string> s; string t[3]; for (int i = 0; i < 3; ++i) { size_t n = sym_pick(0,2,"n"); for (size_t j = 0; j < n; ++j) t[i].push_back((char) sym_u8("c")); s.insert(t[i]); }
    size_t d = 1 + !(t[1] == t[0]) + !(t[2] == t[0] || t[2] == t[1]); CHECK(s.size() == d, "distinct texts"); for (int i = 0; i < 3; ++i) CHECK(s.find(t[i]) != s.end() && *s.find(t[i]) == t[i] && s.count(t[i]) == 1, "each is found");
    for (size_t i = 1; i < s.size(); ++i) CHECK(s[i-1] < s[i], "in order"); OBS(d);
}
