// Streamable values of many types, made of symbolic contents and compared member by member.
#pragma once
#include "hx.h"
#include "uspecial.h"
#include "uvector.h"
#include "uset.h"
#include "umultiset.h"
#include "umap.h"
#include "umultimap.h"
#include "ulist.h"
#include "uarray.h"
#include "ubitset.h"
#include "utuple.h"
#include "umatrix.h"
#include "uchrono.h"
#include "mistream.h"
#include "mostream.h"
#include "uctrstrm.h"
#include "ustdxept.h"
#include <string.h>
enum Color { red, green, blue = 200 };
CAST_STREAMABLE (Color, uint16_t)
struct Raw { uint32_t a; uint16_t b, c; bool operator== (const Raw& r) const { return (a == r.a) & (b == r.b) & (c == r.c); } };
INTEGRAL_STREAMABLE (Raw)
struct User {	// a user type after the documentation
    string name; uint16_t n; vector<uint8_t> v; User () : n (0) {}
    void read (istream& is) { is >> name; is.align(4); is >> n; is.align(4); is >> v; }
    void write (ostream& os) const { os << name; os.align(4); os << n; os.align(4); os << v; }
    size_t stream_size (void) const { return Align(stream_size_of(name),4) + 4 + stream_size_of(v); }
    bool operator== (const User& u) const { return (n == u.n) & (name == u.name) & (v == u.v); }
};
namespace ustl {	// found by argument dependent lookup
// contents
static void fillv (uint8_t& v, size_t) { v = sym_u8("b"); }
static void fillv (char& v, size_t) { v = (char) sym_u8("b"); }
static void fillv (int8_t& v, size_t) { v = (int8_t) sym_u8("b"); }
static void fillv (uint16_t& v, size_t) { v = sym_u16("h"); }
static void fillv (int16_t& v, size_t) { v = (int16_t) sym_u16("h"); }
static void fillv (uint32_t& v, size_t) { v = sym_u32("w"); }
static void fillv (int& v, size_t) { v = (int) sym_u32("w"); }
static void fillv (unsigned long& v, size_t) { v = sym_u64("q"); }
static void fillv (long& v, size_t) { v = (long) sym_u64("q"); }
static void fillv (unsigned long long& v, size_t) { v = sym_u64("q"); }
static void fillv (float& v, size_t) { uint32_t t = sym_u32("f"); memcpy (&v, &t, sizeof v); }
static void fillv (double& v, size_t) { uint64_t t = sym_u64("d"); memcpy (&v, &t, sizeof v); }
static void fillv (bool& v, size_t) { v = sym_bool("bool"); }
static void fillv (wchar_t& v, size_t) { v = (wchar_t) sym_u32("wc"); }
static void fillv (Color& v, size_t) { static const Color C[] = {red,green,blue}; v = C[sym_pick(0,2,"color")]; }
static void fillv (Raw& v, size_t) { v.a = sym_u32("a"); v.b = sym_u16("b"); v.c = sym_u16("c"); }
static void fillv (string& v, size_t m) { size_t n = sym_pick(0,m,"len"); v.clear(); while (n--) v.push_back ((char) sym_u8("c")); }
static void fillv (memblock& v, size_t m) { size_t n = sym_pick(0,m,"len"); v.resize(n); for (size_t i = 0; i < n; ++i) v.begin()[i] = (char) sym_u8("c"); }
template <typename T> static void fillv (vector<T>& v, size_t m);
template <typename A, typename B> static void fillv (pair<A,B>& v, size_t m) { fillv (v.first, m); fillv (v.second, m); }
template <typename T> static void fillv (vector<T>& v, size_t m) { size_t n = sym_pick(0,m,"len"); for (size_t i = 0; i < n; ++i) { v.push_back (T()); fillv (v.back(), m > 1 ? m-1 : m); } }
template <typename T> static void fillv (list<T>& v, size_t m) { fillv (static_cast<vector<T>&>(v), m); }
template <typename T, size_t N> static void fillv (array<T,N>& v, size_t m) { for (size_t i = 0; i < N; ++i) fillv (v[i],m); }
template <size_t N, typename T> static void fillv (tuple<N,T>& v, size_t m) { for (size_t i = 0; i < N; ++i) fillv (v[i],m); }
template <size_t N> static void fillv (bitset<N>& v, size_t) { for (size_t i = 0; i < (N+31)/32; ++i) v.begin()[i] = sym_u32("bits") & (N-i*32 < 32 ? (1u<<(N%32))-1 : ~0u); }
template <typename T> static void fillv (set<T>& v, size_t m) { size_t n = sym_pick(0,m,"len"); for (size_t i = 0; i < n; ++i) { T t; fillv (t,m); v.insert(t); } }
template <typename T> static void fillv (multiset<T>& v, size_t m) { size_t n = sym_pick(0,m,"len"); for (size_t i = 0; i < n; ++i) { T t; fillv (t,m); v.insert(t); } }
template <typename K, typename V> static void fillv (map<K,V>& v, size_t m) { size_t n = sym_pick(0,m,"len"); for (size_t i = 0; i < n; ++i) { K t; fillv (t,m); fillv (v[t],m); } }
template <typename K, typename V> static void fillv (multimap<K,V>& v, size_t m) { size_t n = sym_pick(0,m,"len"); for (size_t i = 0; i < n; ++i) { pair<K,V> t; fillv (t,m); v.insert(t); } }
template <typename C> static void fillv (chrono::time_point<C>& v, size_t) { v = chrono::time_point<C> (typename C::duration ((long) sym_u64("t"))); }
template <typename R, typename P> static void fillv (chrono::duration<R,P>& v, size_t) { v = chrono::duration<R,P> ((long) sym_u64("t")); }
// equality
template <typename T> static bool eqv (const T& a, const T& b) { return a == b; }
static bool eqv (const float& a, const float& b) { return !memcmp (&a,&b,sizeof a); }
static bool eqv (const double& a, const double& b) { return !memcmp (&a,&b,sizeof a); }
template <typename T> static bool eqc (const T& a, const T& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= eqv (a.begin()[i], b.begin()[i]); return r; }
template <typename A, typename B> static bool eqv (const pair<A,B>& a, const pair<A,B>& b) { return eqv(a.first,b.first) & eqv(a.second,b.second); }
template <typename T> static bool eqv (const vector<T>& a, const vector<T>& b) { return eqc(a,b); }
template <typename T> static bool eqv (const list<T>& a, const list<T>& b) { return eqc(a,b); }
template <typename T> static bool eqv (const set<T>& a, const set<T>& b) { return eqc(a,b); }
template <typename T> static bool eqv (const multiset<T>& a, const multiset<T>& b) { return eqc(a,b); }
template <typename K, typename V> static bool eqv (const map<K,V>& a, const map<K,V>& b) { return eqc(a,b); }
template <typename K, typename V> static bool eqv (const multimap<K,V>& a, const multimap<K,V>& b) { return eqc(a,b); }
template <size_t N, typename T> static bool eqv (const tuple<N,T>& a, const tuple<N,T>& b) { return eqc(a,b); }
template <typename T, size_t N> static bool eqv (const array<T,N>& a, const array<T,N>& b) { return eqc(a,b); }
} // namespace ustl
static void fillv (User& u, size_t m) { fillv (u.name,m); fillv (u.n,m); fillv (u.v,m); }
