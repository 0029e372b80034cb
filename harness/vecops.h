// Model based vector histories, shared by the harnesses.
#pragma once
#include "hx.h"
#include "uvector.h"
#include "ustring.h"
struct P12 { int a; short b; int c; P12 () : a(0), b(0), c(~0) {} explicit P12 (int v) : a(v), b((short)v), c(~v) {} bool operator== (const P12& o) const { return (a == o.a) & (b == o.b) & (c == o.c); } };
// text with an arbitrary character, long enough to tell apart; value kept as int in the model
template <typename T> struct E { static T mk (int v) { return T(v); } static bool is (const T& t, int v) { return t == T(v); } static int sym (void) { return (int) sym_u32("v"); } static int def (void) { return 0; } };
template <> struct E<uint8_t> { typedef uint8_t T; static T mk (int v) { return T(v); } static bool is (const T& t, int v) { return t == T(v); } static int sym (void) { return sym_u8("v"); } static int def (void) { return 0; } };
template <> struct E<P12> { typedef P12 T; static T mk (int v) { return T(v); } static bool is (const T& t, int v) { return t == mk(v); } static int sym (void) { return (int) sym_u32("v"); } static int def (void) { return 0; } };
template <> struct E<string> { typedef string T; static T mk (int v) { string s; if (v != -1) { s.resize(2); s[0] = char(v); s[1] = 'q'; } return s; } static bool is (const T& t, int v) { return v != -1 ? t.size() == 2 && bool((t[0] == char(v)) & (t[1] == 'q')) : t.empty(); } static int sym (void) { return sym_u8("v"); } static int def (void) { return -1; } };
typedef Seq<int,48> M;
template <typename T> static void verify (const vector<T>& v, const M& m)
{
    CHECK(v.size() == m.n && v.empty() == !m.n, "size"); CHECK(v.capacity() >= v.size() || v.is_linked(), "capacity covers size"); CHECK(size_t(v.end()-v.begin()) == m.n, "extent");
    for (size_t i = 0; i < m.n; ++i) CHECK(E<T>::is(v[i],m.v[i]), "elements");
}
template <typename T> static void init (vector<T>& v, M& m, int st)
{
    int k = 0; m.n = 0;
    switch (st) { case 0: break; case 1: k = 1; break; case 2: v.reserve(3,true); k = 3; break; case 3: k = 4; break; case 4: v.reserve(8); k = 5; break; case 5: v.reserve(4); k = 2; break; }
    for (int i = 0; i < k; ++i) { int x = E<T>::sym(); v.push_back(E<T>::mk(x)); m.push(x); }
}
template <typename T> static void step (vector<T>& a, M& m, vector<T>& b, M& n)
{
    typedef typename vector<T>::iterator It; size_t was = a.size(), oc = a.capacity(), p, k; int x = E<T>::sym(); It r; T arr[3] = { E<T>::mk(x), E<T>::mk(x), E<T>::mk(x) }; int av[3] = {x,x,x};
    switch (sym_pick(0,27,"op")) {
	case 0: { const T t (E<T>::mk(x)); a.push_back(t); m.push(x); CHECK(E<T>::is(t,x), "argument unchanged"); } break;
	case 1: a.push_back(E<T>::mk(x)); m.push(x); break;
	case 2: a.emplace_back(E<T>::mk(x)); m.push(x); break;
	case 3: if (was) { a.pop_back(); --m.n; } break;
	case 4: p = sym_pick(0,was,"pos"); { const T t (E<T>::mk(x)); r = a.insert(a.begin()+p,t); } m.insert(p,x); CHECK(r == a.begin()+p, "insert returns the new element"); break;
	case 5: p = sym_pick(0,was,"pos"); k = sym_pick(0,3,"n"); { const T t (E<T>::mk(x)); r = a.insert(a.begin()+p,k,t); } m.insert(p,k,x); CHECK(r == a.begin()+p, "insert returns the first new element"); break;
	case 6: p = sym_pick(0,was,"pos"); k = sym_pick(0,3,"n"); { int y = E<T>::sym(); arr[1] = E<T>::mk(y); av[1] = y; } r = a.insert(a.begin()+p,arr,arr+k); for (size_t i = 0; i < k; ++i) m.insert(p+i,av[i]); CHECK(r == a.begin()+p, "insert returns the first new element"); break;
	case 7: p = sym_pick(0,was,"pos"); { int y = E<T>::sym(); r = a.insert(a.begin()+p,{E<T>::mk(x),E<T>::mk(y)}); m.insert(p,x); m.insert(p+1,y); } CHECK(r == a.begin()+p, "insert returns the first new element"); break;
	case 8: p = sym_pick(0,was,"pos"); r = sym_bool("emplace") ? a.emplace(a.begin()+p,E<T>::mk(x)) : a.insert(a.begin()+p,E<T>::mk(x)); m.insert(p,x); CHECK(r == a.begin()+p, "emplace returns the new element"); break;
	case 9: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); r = a.erase(a.begin()+p,k); m.erase(p,k); CHECK(r == a.begin()+p, "erase returns the place after"); break;
	case 10: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); r = a.erase(a.begin()+p,a.begin()+p+k); m.erase(p,k); CHECK(r == a.begin()+p, "erase returns the place after"); break;
	case 11: if (was) { p = sym_pick(0,was-1,"pos"); r = a.erase(a.begin()+p); m.erase(p); CHECK(r == a.begin()+p, "erase returns the place after"); } break;
	case 12: k = sym_pick(0,9,"n"); a.resize(k); while (m.n < k) m.push(E<T>::def()); m.n = k; break;
	case 13: k = sym_pick(0,9,"n"); { const T t (E<T>::mk(x)); a.resize(k,t); } while (m.n < k) m.push(x); m.n = k; break;
	case 14: k = sym_pick(0,9,"n"); a.reserve(k,sym_bool("exact")); CHECK(a.capacity() >= k && a.capacity() >= oc, "reserve provides and never shrinks"); break;
	case 15: a.clear(); m.n = 0; break;
	case 16: a.shrink_to_fit(); CHECK(a.capacity() <= oc, "shrink_to_fit does not grow"); break;
	case 17: a.deallocate(); m.n = 0; CHECK(!a.capacity(), "deallocate frees"); break;
	case 18: k = sym_pick(0,3,"n"); { int y = E<T>::sym(); arr[2] = E<T>::mk(y); av[2] = y; } a.assign(arr,arr+k); m.n = 0; for (size_t i = 0; i < k; ++i) m.push(av[i]); break;
	case 19: k = sym_pick(0,6,"n"); { const T t (E<T>::mk(x)); a.assign(k,t); } m.n = 0; m.insert(0,k,x); break;
	case 20: a = b; m = n; break;
	case 21: { const vector<T>& s = a; a = s; } break;
	case 22: a.swap(b); { M t (m); m = n; n = t; } break;
	case 23: a = ustl::move(b); m = n; n.n = 0; b.clear(); break;
	case 24: { vector<T> c (a); verify(c,m); if (!c.empty()) { c[0] = E<T>::mk(x); c.pop_back(); } verify(a,m); } break;
	case 25: { vector<T> c (ustl::move(a)); verify(c,m); a = ustl::move(c); } break;
	case 26: { vector<T> c (a.begin(), a.end()); verify(c,m); c.push_back(E<T>::mk(x)); } break;
	case 27: if (was) { p = sym_pick(0,was-1,"pos"); a[p] = E<T>::mk(x); m.v[p] = x; CHECK(&a.at(p) == a.begin()+p && &*a.iat(p) == a.begin()+p, "access"); } break;
    }
}
