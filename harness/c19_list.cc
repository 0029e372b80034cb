//@ property=C19 wraps=qsort
//@ oracle="mathematical sequences edited in parallel"
//@ entry=h_list cases=0-3 tcases=4-7 bound="every history of 2 (thorough 3) operations out of 25 on two lists of 0-3 elements, all element values (int, 12 byte records, strings)"
//@ entry=h_splice cases=0 bound="splice of every subrange of a list of 0-4 at every place of a list of 0-4"
//@ entry=h_merge cases=0 bound="merge of two sorted lists of 0-4 elements, all values"
//@ entry=h_order cases=0-3 bound="sort, unique, remove, remove_if, reverse of lists of 0-5 elements, all values"
//@ entry=h_queue cases=0-1 tcases=2-3 bound="every history of 7 (thorough 9) operations on two queues: push, emplace, pop, copy, move, swap, compare"
//@ entry=h_stack cases=0-1 tcases=2-3 bound="every history of 6 (thorough 8) operations on two stacks"
//@ trusted="qsort of the C library sorts (modelled by insertion sort in the engine, the real one in the replay)"
//@ outside="the contents of the argument of list::merge afterwards (the standard empties it, uSTL leaves it); operator< of queue and stack, which orders by size; remove with a reference to an element of the list itself"
#include "vecops.h"
#include "qsort.h"
#include "ulist.h"
#include "uqueue.h"
#include "ustack.h"
template <typename T> static void lverify (const list<T>& l, const M& m)
{
    CHECK(l.size() == m.n && l.empty() == !m.n && size_t(l.end()-l.begin()) == m.n, "size"); bool ok = true; for (size_t i = 0; i < m.n; ++i) ok &= E<T>::is(l.begin()[i],m.v[i]); CHECK(ok, "elements");
    if (m.n) CHECK(E<T>::is(l.front(),m.v[0]) && E<T>::is(l.back(),m.v[m.n-1]), "front and back");
    size_t k = m.n; bool r = true; for (typename list<T>::const_reverse_iterator i = l.rbegin(); i != l.rend(); ++i) r &= E<T>::is(*i,m.v[--k]); CHECK(r && !k, "backwards");
}
template <typename T> static void linit (list<T>& l, M& m, size_t n) { for (size_t i = 0; i < n; ++i) { int x = E<T>::sym(); l.push_back(E<T>::mk(x)); m.push(x); } }
template <typename T> struct Even { bool operator() (const T& t) const { return !(t & 1); } };
template <typename T> static void lstep (list<T>& a, M& m, list<T>& b, M& n)
{
    typedef typename list<T>::iterator It; size_t was = a.size(), p, k; int x = E<T>::sym(); It r; T t (E<T>::mk(x));
    switch (sym_pick(0,24,"op")) {
	case 0: a.push_back(t); m.push(x); break;
	case 1: a.push_front(t); m.insert(0,x); break;
	case 2: a.push_front(E<T>::mk(x)); m.insert(0,x); break;
	case 3: a.emplace_front(E<T>::mk(x)); m.insert(0,x); break;
	case 4: a.emplace_back(E<T>::mk(x)); m.push(x); break;
	case 5: if (was) { a.pop_front(); m.erase(0); } break;
	case 6: if (was) { a.pop_back(); --m.n; } break;
	case 7: p = sym_pick(0,was,"pos"); r = a.insert(a.begin()+p,t); m.insert(p,x); CHECK(r == a.begin()+p, "insert returns the new element"); break;
	case 8: p = sym_pick(0,was,"pos"); k = sym_pick(0,2,"n"); a.insert(a.begin()+p,k,t); m.insert(p,k,x); break;
	case 9: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); r = a.erase(a.begin()+p,a.begin()+p+k); m.erase(p,k); CHECK(r == a.begin()+p, "erase returns the place after"); break;
	case 10: if (was) { p = sym_pick(0,was-1,"pos"); a.erase(a.begin()+p); m.erase(p); } break;
	case 11: a.remove(t); { size_t j = 0; for (size_t i = 0; i < m.n; ++i) if (!sym_concretize(E<T>::is(t,m.v[i]))) m.v[j++] = m.v[i]; m.n = j; } break;
	case 12: a.unique(); { size_t j = 0; for (size_t i = 0; i < m.n; ++i) if (!i || !sym_concretize(E<T>::is(E<T>::mk(m.v[j-1]),m.v[i]))) m.v[j++] = m.v[i]; m.n = j; } break;
	case 13: a.reverse(); for (size_t i = 0; i < m.n/2; ++i) { int y = m.v[i]; m.v[i] = m.v[m.n-1-i]; m.v[m.n-1-i] = y; } break;
	case 14: k = sym_pick(0,5,"n"); a.resize(k); while (m.n < k) m.push(E<T>::def()); m.n = k; break;
	case 15: k = sym_pick(0,5,"n"); a.resize(k,t); while (m.n < k) m.push(x); m.n = k; break;
	case 16: a.clear(); m.n = 0; break;
	case 17: a.assign(2,t); m.n = 0; m.push(x); m.push(x); break;
	case 18: p = sym_pick(0,was,"pos"); if (n.n) { a.splice(a.begin()+p,b); for (size_t i = 0; i < n.n; ++i) m.insert(p+i,n.v[i]); n.n = 0; } break;
	case 19: { M c (m); m = n; n = c; } if (sym_bool("swap")) a.swap(b); else { list<T> c (ustl::move(a)); a = ustl::move(b); b = ustl::move(c); } break;
	case 20: a = b; m = n; break;
	case 21: { list<T> c (a); lverify(c,m); c.push_front(t); if (c.size() > 1) c.pop_back(); lverify(a,m); } break;
	case 22: { list<T> c {t, t, t}; a = c; m.n = 0; m.insert(0,3,x); } break;
	case 23: { list<T> c (2,t), d (c.begin(),c.end()); a = d; m.n = 0; m.insert(0,2,x); } break;
	case 24: if (was) { a.front() = t; m.v[0] = x; a.back() = t; m.v[m.n-1] = x; } break;
    }
}
template <typename T> static void lhist (int steps) { list<T> a, b; M m, n; linit(a,m,sym_pick(0,3,"n")); linit(b,n,sym_pick(0,2,"n")); for (int i = 0; i < steps; ++i) lstep(a,m,b,n); lverify(a,m); lverify(b,n); CHECK((a == b) == (m.n == n.n && [&]{ bool e = true; for (size_t i = 0; i < m.n; ++i) e &= E<T>::is(E<T>::mk(m.v[i]),n.v[i]); return e; }()), "equality"); OBS(a.size()); }
extern "C" void h_list (int c) { int n = c < 4 ? 2 : 3; switch (c%4) { case 0: lhist<int>(n); break; case 1: lhist<P12>(n); break; case 2: lhist<string>(n); break; case 3: lhist<uint8_t>(n); break; } }
extern "C" void h_splice (int)
{
    list<int> a, b; M m, n; linit(a,m,sym_pick(0,4,"n")); linit(b,n,sym_pick(1,4,"n")); size_t p = sym_pick(0,m.n,"pos"), f = sym_pick(0,n.n,"first"), l = sym_pick(f,n.n,"last");
    a.splice(a.begin()+p,b,b.begin()+f,b.begin()+l); for (size_t i = f; i < l; ++i) m.insert(p+i-f,n.v[i]); n.erase(f,l-f); lverify(a,m); lverify(b,n); OBS(a.size());
}
extern "C" void h_merge (int)
{
    list<int> a, b; M m, n; size_t x = sym_pick(0,4,"n"), y = sym_pick(0,4,"n"); for (size_t i = 0; i < x; ++i) { int v = sym_u8("v"); if (i) sym_assume(m.v[i-1] <= v); a.push_back(v); m.push(v); } for (size_t i = 0; i < y; ++i) { int v = sym_u8("v"); if (i) sym_assume(n.v[i-1] <= v); b.push_back(v); n.push(v); }
    a.merge(b); CHECK(a.size() == x+y, "merge keeps every element"); bool ord = true, all = true; for (size_t i = 1; i < x+y; ++i) ord &= a[i-1] <= a[i];
    for (size_t i = 0; i < x+y; ++i) { int v = i < x ? m.v[i] : n.v[i-x]; size_t in = 0, ref = 0; for (size_t j = 0; j < x+y; ++j) in += a[j] == v; for (size_t j = 0; j < x; ++j) ref += m.v[j] == v; for (size_t j = 0; j < y; ++j) ref += n.v[j] == v; all &= in == ref; }
    CHECK(ord, "merge is sorted"); CHECK(all, "merge has the elements of both"); if (x+y) OBS(a[0]);
}
extern "C" void h_order (int c)
{
    list<int> a; M m; size_t n = sym_pick(0,5,"n"); for (size_t i = 0; i < n; ++i) { int v = sym_u8("v"); a.push_back(v); m.push(v); } int x = sym_u8("x"); size_t j = 0;
    switch (c) {
	case 0: { a.sort(); CHECK(a.size() == n, "sort keeps the size"); bool ord = true, all = true; for (size_t i = 1; i < n; ++i) ord &= a[i-1] <= a[i]; for (size_t i = 0; i < n; ++i) { size_t in = 0, ref = 0; for (size_t k = 0; k < n; ++k) { in += a[k] == m.v[i]; ref += m.v[k] == m.v[i]; } all &= in == ref; } CHECK(ord, "sort orders"); CHECK(all, "sort permutes"); } return;
	case 1: a.unique(); for (size_t i = 0; i < m.n; ++i) if (!i || sym_concretize(m.v[j-1] != m.v[i])) m.v[j++] = m.v[i]; m.n = j; break;
	case 2: if (sym_bool("if")) { a.remove_if(Even<int>()); for (size_t i = 0; i < m.n; ++i) if (sym_concretize(m.v[i] & 1)) m.v[j++] = m.v[i]; } else { a.remove(x); for (size_t i = 0; i < m.n; ++i) if (sym_concretize(m.v[i] != x)) m.v[j++] = m.v[i]; } m.n = j; break;
	case 3: a.reverse(); for (size_t i = 0; i < m.n/2; ++i) { int y = m.v[i]; m.v[i] = m.v[m.n-1-i]; m.v[m.n-1-i] = y; } break;
    }
    lverify(a,m); OBS(a.size());
}
template <typename T> static bool meq (const M& m, const M& n) { bool e = m.n == n.n; for (size_t i = 0; i < m.n && i < n.n; ++i) e &= E<T>::is(E<T>::mk(m.v[i]),n.v[i]); return e; }
template <typename T> static void qv (const queue<T>& q, const M& m) { CHECK(q.size() == m.n && q.empty() == !m.n, "size"); if (m.n) { CHECK(E<T>::is(q.front(),m.v[0]), "front is the oldest"); CHECK(E<T>::is(q.back(),m.v[m.n-1]), "back is the newest"); } }
template <typename T> static void qhist (int steps)
{
    queue<T> a, b; M m, n; int x = 0; { int v = E<T>::sym(); b.push(E<T>::mk(v)); n.push(v); v = E<T>::sym(); b.push(E<T>::mk(v)); n.push(v); }
    for (int i = 0; i < steps; ++i) {
	switch (sym_pick(0,5,"op")) {
	    case 0: x = E<T>::sym(); a.push(E<T>::mk(x)); m.push(x); break;
	    case 1: if (!m.n) sym_stop(); a.pop(); m.erase(0); break;
	    case 2: { x = E<T>::sym(); a.emplace(E<T>::mk(x)); m.push(x); queue<T> c (a); qv(c,m); if (m.n) { c.pop(); c.push(E<T>::mk(x)); } qv(a,m); } break;
	    case 3: if (sym_bool("swap")) { a.swap(b); M t (m); m = n; n = t; } else { b = a; n = m; } break;
	    case 4: if (sym_bool("ctor")) { queue<T> c (ustl::move(a)); qv(c,m); a = ustl::move(c); } else { a = ustl::move(b); m = n; b = queue<T>(); n.n = 0; } break;
	    case 5: if (!m.n) sym_stop(); x = E<T>::sym(); a.front() = E<T>::mk(x); m.v[0] = x; a.back() = E<T>::mk(x); m.v[m.n-1] = x; break;
	}
	qv(a,m);
    }
    qv(b,n); CHECK((a == b) == meq<T>(m,n), "equality compares the elements in the queues"); OBS(a.size());
    while (m.n) { CHECK(E<T>::is(a.front(),m.v[0]), "first in first out"); a.pop(); m.erase(0); CHECK(a.size() == m.n, "size"); } CHECK(a.empty(), "empty at the end");
}
extern "C" void h_queue (int c) { int n = c < 2 ? 6 : 8; if (c & 1) qhist<string>(n-1); else qhist<int>(n); }
template <typename T> static void sv (const stack<T>& s, const M& m) { CHECK(s.size() == m.n && s.empty() == !m.n, "size"); if (m.n) CHECK(E<T>::is(s.top(),m.v[m.n-1]), "top is the newest"); }
template <typename T> static void shist (int steps)
{
    stack<T> a, b; M m, n; int x; { int v = E<T>::sym(); b.push(E<T>::mk(v)); n.push(v); v = E<T>::sym(); b.push(E<T>::mk(v)); n.push(v); }
    for (int i = 0; i < steps; ++i) {
	switch (sym_pick(0,5,"op")) {
	    case 0: x = E<T>::sym(); { const T t (E<T>::mk(x)); a.push(t); } m.push(x); break;
	    case 1: if (!m.n) sym_stop(); a.pop(); --m.n; break;
	    case 2: { x = E<T>::sym(); a.emplace(E<T>::mk(x)); m.push(x); stack<T> c (a); sv(c,m); c.pop(); sv(a,m); } break;
	    case 3: if (sym_bool("swap")) { a.swap(b); M t (m); m = n; n = t; } else { b = a; n = m; } break;
	    case 4: if (sym_bool("ctor")) { stack<T> c (ustl::move(a)); sv(c,m); a = ustl::move(c); } else { a = ustl::move(b); m = n; b = stack<T>(); n.n = 0; } break;
	    case 5: if (!m.n) sym_stop(); x = E<T>::sym(); a.top() = E<T>::mk(x); m.v[m.n-1] = x; break;
	}
	sv(a,m);
    }
    sv(b,n); CHECK((a == b) == meq<T>(m,n), "equality"); OBS(a.size()); while (m.n) { CHECK(E<T>::is(a.top(),m.v[m.n-1]), "last in first out"); a.pop(); --m.n; } CHECK(a.empty(), "empty at the end");
}
extern "C" void h_stack (int c) { int n = c < 2 ? 6 : 8; if (c & 1) shist<string>(n-1); else shist<int>(n); }
