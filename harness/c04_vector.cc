//@ property=C04
//@ oracle="integer sequence model (Seq) edited in parallel"
//@ entry=h_int cases=0-5 tcases=6-11 bound="every history of 2 (thorough 3) operations out of 27 on vectors of 4 byte integers from 6 starting states, all positions and element values, counts 0-3"
//@ entry=h_byte cases=1,4 tcases=0,2,3,5 bound="the same histories of 2 operations on vectors of bytes"
//@ entry=h_pod cases=1,5 tcases=0,2-4 bound="the same histories of 2 operations on vectors of 12 byte structures with constructors"
//@ entry=h_string cases=0-4 bound="the same histories of 2 operations on vectors of strings"
//@ entry=h_alias cases=0-2 bound="insertion, append and resize with an element of the vector itself as argument, from every size 0-5 and spare room, all positions (int, 12 byte structure, string)"
//@ entry=h_ctor cases=0-3 bound="every constructor with 0-5 elements and arbitrary values"
//@ entry=h_compare cases=0-3 bound="equality of all pairs of vectors of 0-3 elements (int, byte, structure, string)"
//@ entry=h_access cases=0 bound="element access and iteration of vectors of 0-6 integers"
//@ entry=h_linked cases=0-1 bound="histories of 2 operations on a vector of integers linked to a borrowed array"
//@ entry=h_grow cases=0-2 bound="appending up to 40 elements one by one, sizes crossing every growth step"
//@ outside="element types with pointers into themselves (documented as unsupported), emplace with references into the vector, self-range insertion (undefined in the standard)"
#include "vecops.h"
template <typename T> static void history (int st, int len)
{
    { vector<T> a, b; M m, n; init(a,m,st); init(b,n,sym_bool("b") ? 1 : 2); verify(a,m);
      for (int i = 0; i < len; ++i) { if (i && sym_bool("other")) step(b,n,a,m); else step(a,m,b,n); verify(a,m); verify(b,n); }
      OBS(a.size()); OBS(a.capacity()); OBS(b.size()); }
    CHECK(!sym_live_allocs(), "all memory is released");
}
extern "C" void h_int (int c) { history<int>(c % 6, c >= 6 ? 3 : 2); }
extern "C" void h_byte (int c) { history<uint8_t>(c,2); }
extern "C" void h_pod (int c) { history<P12>(c,2); }
extern "C" void h_string (int c) { history<string>(c,2); }
template <typename T> static void alias (void)
{
    { vector<T> a; M m; size_t n = sym_pick(1,5,"n"); if (sym_bool("spare")) a.reserve(16); else a.reserve(n,true); for (size_t i = 0; i < n; ++i) { int x = E<T>::sym(); a.push_back(E<T>::mk(x)); m.push(x); }
      size_t k = sym_pick(0,n-1,"k"), p = sym_pick(0,n,"p"); int x = m.v[k];
      switch (sym_pick(0,4,"op")) { case 0: a.push_back(a[k]); m.push(x); break; case 1: a.insert(a.begin()+p,a[k]); m.insert(p,x); break; case 2: a.insert(a.begin()+p,3,a[k]); m.insert(p,3,x); break; case 3: a.resize(n+4,a[k]); m.insert(n,4,x); break; case 4: a.insert(a.begin()+p,1,a[k]); m.insert(p,x); break; }
      verify(a,m); OBS(a.size()); }
    CHECK(!sym_live_allocs(), "all memory is released");
}
extern "C" void h_alias (int c) { if (c == 0) alias<int>(); else if (c == 1) alias<P12>(); else alias<string>(); }
template <typename T> static void ctor (void)
{
    { M m; size_t k = sym_pick(0,5,"n"); int x = E<T>::sym(), y = E<T>::sym(); T arr[5] = { E<T>::mk(x), E<T>::mk(y), E<T>::mk(y), E<T>::mk(x), E<T>::mk(y) }; int av[5] = {x,y,y,x,y};
      { vector<T> v; verify(v,m); }
      { vector<T> v (k); m.insert(0,k,E<T>::def()); verify(v,m); m.n = 0; OBS(v.capacity()); }
      { vector<T> v (k,arr[0]); m.insert(0,k,x); verify(v,m); m.n = 0; }
      { vector<T> v ((const T*)arr, (const T*)arr+k); for (size_t i = 0; i < k; ++i) m.push(av[i]); verify(v,m); vector<T> w (v); w.push_back(arr[1]); verify(v,m); m.push(y); verify(w,m); m.n = k; vector<T> z (ustl::move(v)); verify(z,m); m.n = 0; }
      { vector<T> v {arr[0],arr[1],arr[0]}; m.push(x); m.push(y); m.push(x); verify(v,m); m.n = 0; }
      { vector<T> v = vector<T>(k,arr[1]); m.insert(0,k,y); verify(v,m); } }
    CHECK(!sym_live_allocs(), "all memory is released");
}
extern "C" void h_ctor (int c) { if (c == 0) ctor<int>(); else if (c == 1) ctor<uint8_t>(); else if (c == 2) ctor<P12>(); else ctor<string>(); }
template <typename T> static void compare_ (void)
{
    vector<T> a, b; M m, n; size_t i = sym_pick(0,3,"n"), j = sym_pick(0,3,"m"); bool eq = i == j;
    while (m.n < i) { int x = E<T>::sym(); a.push_back(E<T>::mk(x)); m.push(x); } while (n.n < j) { int x = E<T>::sym(); b.push_back(E<T>::mk(x)); n.push(x); }
    for (size_t k = 0; k < i && k < j; ++k) eq &= E<T>::mk(m.v[k]) == E<T>::mk(n.v[k]);
    CHECK((a == b) == eq, "equality is elementwise"); CHECK((b == a) == eq && a == a, "symmetric and reflexive"); CHECK((a != b) == !eq, "inequality is its negation"); vector<T> c (a); CHECK(c == a, "a copy is equal"); OBS(a == b);
}
extern "C" void h_compare (int c) { if (c == 0) compare_<int>(); else if (c == 1) compare_<uint8_t>(); else if (c == 2) compare_<P12>(); else compare_<string>(); }
extern "C" void h_access (int c)
{
    size_t n = sym_pick(0,6,"n"); vector<int> v; int m[6]; for (size_t i = 0; i < n; ++i) { m[i] = (int) sym_u32("v"); v.push_back(m[i]); } const vector<int>& k = v;
    CHECK(v.begin() == v.data() && k.begin() == k.data() && k.cdata() == k.data() && k.cbegin() == k.begin() && k.cend() == k.end() && v.end() == v.begin()+n, "extent");
    size_t i = 0; for (vector<int>::const_iterator p = k.begin(); p != k.end(); ++p, ++i) CHECK(*p == m[i], "forward"); CHECK(i == n, "visits all");
    for (vector<int>::reverse_iterator p = v.rbegin(); p != v.rend(); ++p) CHECK(*p == m[--i], "backward"); CHECK(!i, "visits all");
    i = n; for (vector<int>::const_reverse_iterator p = k.rbegin(); p != k.rend(); ++p) CHECK(*p == m[--i], "backward"); CHECK(!i && k.crbegin() == k.rbegin() && k.crend() == k.rend(), "visits all");
    for (i = 0; i < n; ++i) CHECK(k[i] == m[i] && k.at(i) == m[i] && *k.iat(i) == m[i], "subscript"); CHECK(k.iat(n) == k.end(), "iat end");
    if (n) { CHECK(k.front() == m[0] && k.back() == m[n-1] && &v.front() == v.begin() && &v.back() == v.end()-1, "ends"); v.back() = 5; v.front() = 6; CHECK(k[0] == 6 && (n == 1 || k[n-1] == 5), "references"); }
    memlink l = v; CHECK(l.size() == n*sizeof(int) && (!n || l.data() == (void*)v.data()), "as a memory link"); cmemlink cl = k; CHECK(cl.size() == n*sizeof(int), "as a constant memory link"); OBS(n);
}
extern "C" void h_linked (int c)
{
    { int src[4], keep[4]; for (int i = 0; i < 4; ++i) keep[i] = src[i] = (int) sym_u32("s"); vector<int> a, b; M m, n; size_t k = sym_pick(0,4,"k");
      if (c) a.link((const int*)src,k); else switch (sym_pick(0,2,"how")) { case 0: a.link(src,k); break; case 1: a.link(src,src+k); break; case 2: { vector<int> t; t.link(src,k); a.link(t); } break; }
      for (size_t i = 0; i < k; ++i) m.push(keep[i]); verify(a,m); CHECK(a.is_linked() && a.begin() == src, "linked"); if (sym_bool("copy")) { a.copy_link(); CHECK(!k || (!a.is_linked() && a.begin() != src), "copy_link owns"); }
      b.push_back(3); n.push(3);
      for (int i = 0; i < 2; ++i) { size_t op = sym_pick(0,14,"op"), was = a.size(), p = sym_pick(0,was,"p"); int x = (int) sym_u32("x");
	switch (op) { case 0: a.push_back(x); m.push(x); break; case 1: a.insert(a.begin()+p,x); m.insert(p,x); break; case 2: a.insert(a.begin()+p,2,x); m.insert(p,2,x); break; case 3: if (p < was) { a.erase(a.begin()+p); m.erase(p); } break; case 4: a.resize(p); m.n = p; break; case 5: a.resize(was+2,x); m.insert(was,2,x); break; case 6: a.reserve(p+3); break; case 7: a.clear(); m.n = 0; break; case 8: if (was) { a.pop_back(); --m.n; } break; case 9: a = b; m = n; break; case 10: a.swap(b); { M t (m); m = n; n = t; } break; case 11: a.shrink_to_fit(); break; case 12: { vector<int> d (a); CHECK(d.empty() || !d.is_linked(), "a copy owns"); verify(d,m); } break; case 13: a.assign(p,x); m.n = 0; m.insert(0,p,x); break; case 14: b = a; n = m; CHECK(b.empty() || b.begin() != a.begin(), "assignment copies"); break; }
	verify(a,m); verify(b,n); }
      for (int i = 0; i < 4; ++i) CHECK(src[i] == keep[i], "borrowed elements unchanged"); OBS(a.size()); }
    CHECK(!sym_live_allocs(), "all memory is released");
}
template <typename T> static void grow (void)
{
    { vector<T> a; M m; size_t n = sym_pick(0,40,"n"); int x = E<T>::sym(), y = E<T>::sym(); for (size_t i = 0; i < n; ++i) { a.push_back(E<T>::mk(i & 1 ? x : y)); m.push(i & 1 ? x : y); CHECK(a.capacity() >= a.size(), "capacity"); } verify(a,m);
      size_t p = n/2; a.insert(a.begin()+p,E<T>::mk(x)); m.insert(p,x); verify(a,m); a.erase(a.begin(),p); m.erase(0,p); verify(a,m); OBS(a.size()); }
    CHECK(!sym_live_allocs(), "all memory is released");
}
extern "C" void h_grow (int c) { if (c == 0) grow<int>(); else if (c == 1) grow<P12>(); else grow<string>(); }
