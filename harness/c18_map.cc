//@ property=C18
//@ oracle="unordered history of (key, value, tag, alive) records with symbolic flags; order, lookup and counts as formulas over it"
//@ entry=h_map cases=0-2 tcases=3-5 reach=dup bound="map of int, of int with greater, of strings to records: every history of 2 operations out of 15 from maps of 0-1 pairs and of 1 (thorough 2) from maps of 2-3, all keys and values"
//@ entry=h_mmap cases=0-1 tcases=2-3 bound="multimap of int, of int with greater, likewise, 13 operations; pairs with equal keys stay in insertion order"
//@ entry=h_query cases=0-3 tcases=4-7 bound="find, find_data, at, count, lower_bound, upper_bound, equal_range of every key on every map and multimap of up to 4 (thorough 5) pairs"
//@ outside="map (size_type n), which makes n equal keys by design of the underlying vector; at() and the const operator[] of a missing key, which is a documented precondition (asserted)"
#include "hx.h"
#include "umap.h"
#include "umultimap.h"
#include "ustring.h"
static string mkstr (int k) { string s; s.push_back(char(k)); s.push_back('!'); return s; }
template <typename T> struct Kx { static T mk (int k) { return k; } static int of (const T& t) { return t; } };
template <> struct Kx<string> { static string mk (int k) { return mkstr(k); } static int of (const string& s) { return (unsigned char) s[0]; } };
struct Mod {
    enum { N = 16 }; int key[N], val[N]; bool al[N]; size_t n; Mod () : n(0) {}
    bool has (int k) const { bool r = false; for (size_t i = 0; i < n; ++i) r |= al[i] & (key[i] == k); return r; }
    bool hasx (int k, int v) const { bool r = false; for (size_t i = 0; i < n; ++i) r |= al[i] & (key[i] == k) & (val[i] == v); return r; }
    size_t num (int k) const { size_t r = 0; for (size_t i = 0; i < n; ++i) r += al[i] & (key[i] == k); return r; }
    size_t total (void) const { size_t r = 0; for (size_t i = 0; i < n; ++i) r += al[i]; return r; }
    bool addnew (int k, int v) { bool d = has(k); key[n] = k; val[n] = v; al[n] = !d; ++n; return !d; }
    void set (int k, int v) { drop(k); add(k,v); }
    void add (int k, int v) { key[n] = k; val[n] = v; al[n] = true; ++n; }
    size_t drop (int k) { size_t r = num(k); for (size_t i = 0; i < n; ++i) al[i] &= key[i] != k; return r; }
    void drop1 (int k, int v) { bool done = false; for (size_t i = 0; i < n; ++i) { bool h = al[i] & (key[i] == k) & (val[i] == v) & !done; al[i] &= !h; done |= h; } }
    void clear (void) { n = 0; }
    void settle (void) { for (size_t i = 0; i < n; ++i) al[i] = sym_concretize(al[i]); }
};
static bool wide; static int symk (void) { return wide ? (int) sym_u32("key") : sym_u8("key"); }
static int gval; static int newval (void) { return ++gval; }	// distinct values tell the pairs apart
template <typename C, bool multi> struct Ops {
    typedef typename C::value_type P; typedef typename C::key_type T; typedef typename C::iterator It; typedef integral_constant<bool,multi> mt; typedef Kx<T> X;
    static void verify (const C& s, Mod& m)
    {
	m.settle(); size_t n = s.size(); CHECK(n == m.total(), "number of pairs"); CHECK(s.empty() == !n && size_t(s.end()-s.begin()) == n, "extent");
	bool ord = true, in = true, st = true; typename C::key_compare lt;
	for (size_t i = 0; i < n; ++i) { const P& e = s.begin()[i]; in &= m.hasx(X::of(e.first),e.second); if (i) { const P& d = s.begin()[i-1]; bool l = lt(d.first,e.first), g = lt(e.first,d.first); ord &= multi ? !g : l; if (multi) st &= l | (d.second < e.second); } }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) in &= !((s.begin()[i].second == s.begin()[j].second) & (X::of(s.begin()[i].first) == X::of(s.begin()[j].first)));
	CHECK(ord, "pairs are in key order"); CHECK(in, "every pair is the last association of its key"); CHECK(st, "equal keys in order of insertion");
    }
    static void addm (Mod& m, int k, int v) { if (multi) m.add(k,v); else m.addnew(k,v); }
    static void chk (C& s, It r, int k, int v, bool fresh) { CHECK(r >= s.begin() && r < s.end(), "insert returns a place in the map"); CHECK(X::of(r->first) == k, "insert returns the pair"); CHECK(fresh == (r->second == v), "insert returns the new pair, or the one already there"); if (!fresh) sym_reach("dup"); }
    static It un (It r, bool) { return r; }
    static It un (pair<It,bool> r, bool fresh) { CHECK(r.second == fresh, "insert reports whether it inserted"); return r.first; }
    static It hint (C& s, size_t p, const P& e, false_type) { return s.insert(s.begin()+p,e); } static It hint (C& s, size_t, const P& e, true_type) { return s.insert(e); }
    static void sub (C&, Mod&, int, int, true_type) {}
    static void sub (C& s, Mod& m, int k, int v, false_type) {
	size_t n = s.size(); bool had = m.has(k); int old = 0; for (size_t i = 0; i < m.n; ++i) if (m.al[i] & (m.key[i] == k)) old = m.val[i];
	int& r = s[X::mk(k)]; CHECK(r == old, "subscript refers to the value, 0 when new"); CHECK(s.size() == n + !had, "subscript inserts missing keys only"); r = v; m.set(k,v); const C& c = s; CHECK(c[X::mk(k)] == v && c.at(X::mk(k)) == v && &s.at(X::mk(k)) == &s.find(X::mk(k))->second, "subscript and at agree");
    }
    static void step (C& s, Mod& m, C& o, Mod& mo)
    {
	int k = symk(), v = newval(); T kk (X::mk(k)); P e (kk,v); size_t n = s.size(), p, q; bool fresh = multi | !m.has(k);
	switch (sym_pick(0,14,"op")) {
	    case 0: addm(m,k,v); chk(s,un(s.insert(e),fresh),k,v,fresh); CHECK(X::of(e.first) == k, "argument unchanged"); break;
	    case 1: addm(m,k,v); chk(s,un(s.insert(make_pair(T(kk),int(v))),fresh),k,v,fresh); break;
	    case 2: addm(m,k,v); chk(s,un(s.emplace(kk,v),fresh),k,v,fresh); break;
	    case 3: addm(m,k,v); p = sym_pick(0,n,"hint"); chk(s,hint(s,p,e,mt()),k,v,fresh); break;
	    case 4: addm(m,k,v); p = sym_pick(0,n,"hint"); chk(s,sym_bool("emp") ? s.emplace_hint(s.begin()+p,kk,v) : s.insert(s.begin()+p,P(e)),k,v,fresh); break;
	    case 5: if (sym_bool("emplace")) s.emplace_back(kk,v); else s.push_back(e); addm(m,k,v); break;
	    case 6: { int k2 = symk(), v2 = newval(); P a[2] = { e, P(X::mk(k2),v2) }; if (sym_bool("il")) s.insert({a[0],a[1]}); else s.insert((const P*)a,(const P*)a+2); addm(m,k,v); addm(m,k2,v2); } break;
	    case 7: m.drop(k); s.erase(kk); CHECK(s.find(kk) == s.end() && !s.count(kk), "an erased key is gone"); break;
	    case 8: if (!n) break; p = sym_pick(0,n-1,"pos"); { P d = s.begin()[p]; It r = s.erase(s.begin()+p); CHECK(r == s.begin()+p, "erase returns the place after"); m.drop1(X::of(d.first),d.second); } break;
	    case 9: p = sym_pick(0,n,"pos"); q = sym_pick(p,n,"end"); for (size_t i = p; i < q; ++i) { P d = s.begin()[i]; m.drop1(X::of(d.first),d.second); } { It r = s.erase(s.begin()+p,s.begin()+q); CHECK(r == s.begin()+p, "erase returns the place after"); } break;
	    case 10: s.clear(); m.clear(); break;
	    case 11: if (sym_bool("copy")) { s = o; m = mo; } else { s.swap(o); Mod x (m); m = mo; mo = x; } break;
	    case 12: { s.assign(&e,&e+1); m.clear(); addm(m,k,v); C c (s); verify(c,m); c.clear(); } break;
	    case 13: if (sym_bool("move")) { s = ustl::move(o); m = mo; o.clear(); mo.clear(); } else { C c (ustl::move(s)); verify(c,m); s = ustl::move(c); } break;
	    case 14: sub(s,m,k,v,mt()); break;
	}
    }
    static void history (bool deep)
    {
	gval = 0; wide = false; int steps = 2; C a, b; Mod m, n; size_t na = sym_pick(0,3,"n"); if (!deep && na > 1) steps = 1; for (size_t i = 0; i < na; ++i) { int k = symk(), v = newval(); a.insert(P(X::mk(k),v)); addm(m,k,v); }
	m.settle(); { int v = newval(); b.insert(P(X::mk(5),v)); addm(n,5,v); }
	steps = sym_pick(1,steps,"steps"); for (int i = 0; i < steps; ++i) { if (i) m.settle(); step(a,m,b,n); } verify(a,m); if (b.size() != 1) verify(b,n);
	OBS(a.size()); if (a.size()) OBS(X::of(a.begin()->first));
    }
    static void query (size_t maxn)
    {
	gval = 0; C s; Mod m; size_t n = sym_pick(0,maxn,"n"); wide = n < 3; for (size_t i = 0; i < n; ++i) { int k = symk(), v = newval(); s.insert(P(X::mk(k),v)); addm(m,k,v); }
	m.settle(); int k = symk(); T kk (X::mk(k)); const C& c = s; n = s.size(); size_t lo = 0, hi = 0, num = m.num(k); typename C::key_compare lt;
	for (size_t i = 0; i < n; ++i) { lo += lt(s.begin()[i].first,kk); hi += !lt(kk,s.begin()[i].first); }
	It f = s.find(kk); CHECK((f == s.end()) == !num, "find finds exactly the keys inserted"); if (f != s.end()) CHECK(X::of(f->first) == k && m.hasx(k,f->second), "find returns the pair"); CHECK(c.find(kk) == f, "const find");
	CHECK(s.count(kk) == num, "count"); CHECK(s.lower_bound(kk) == s.begin()+lo && c.lower_bound(kk) == s.begin()+lo, "lower_bound"); CHECK(s.upper_bound(kk) == s.begin()+hi && c.upper_bound(kk) == s.begin()+hi, "upper_bound");
	typename C::range_t r = s.equal_range(kk); CHECK(r.first == s.begin()+lo && r.second == s.begin()+hi, "equal_range"); typename C::const_range_t cr = c.equal_range(kk); CHECK(cr.first == s.begin()+lo && cr.second == s.begin()+hi, "const equal_range");
	OBS(lo); OBS(hi); OBS(f-s.begin()); more(s,m,kk,k,mt());
    }
    static void more (C&, Mod&, const T&, int, true_type) {}
    static void more (C& s, Mod& m, const T& kk, int k, false_type)
    {
	const C& c = s; int v = 0; for (size_t i = 0; i < m.n; ++i) if (m.al[i] & (m.key[i] == k)) v = m.val[i];
	if (s.find(kk) != s.end()) CHECK(s.at(kk) == v && c.at(kk) == v && c[kk] == v, "at");
	int w = (int) sym_pick(1,6,"data"); size_t e = 0; while (e < s.size() && s.begin()[e].second != w) ++e; CHECK(s.find_data(w) == s.begin()+e && c.find_data(w) == s.begin()+e, "find_data finds the first pair with that value");
    }
};
extern "C" void h_map (int c) { switch (c%3) { case 0: Ops<map<int,int>,false>::history(c > 2); break; case 1: Ops<map<int,int,greater<int> >,false>::history(c > 2); break; case 2: Ops<map<string,int>,false>::history(c > 2); break; } }
extern "C" void h_mmap (int c) { switch (c%2) { case 0: Ops<multimap<int,int>,true>::history(c > 1); break; case 1: Ops<multimap<int,int,greater<int> >,true>::history(c > 1); break; } }
extern "C" void h_query (int c)
{
    size_t n = c < 4 ? 4 : 5;
    switch (c%4) { case 0: Ops<map<int,int>,false>::query(n); break; case 1: Ops<map<int,int,greater<int> >,false>::query(n); break; case 2: Ops<multimap<int,int>,true>::query(n); break; case 3: Ops<multimap<int,int,greater<int> >,true>::query(n); break; }
}
