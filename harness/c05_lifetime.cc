//@ property=C05
//@ oracle="elements own a heap block each: any skipped, doubled or early destruction is a leak, double free or use after free; a live-element counter is compared after every step"
//@ entry=h_vector cases=0-5 tcases=6-11 bound="every history of 2 (thorough 3) operations out of 28 on vectors of owning elements from 6 starting states"
//@ entry=h_vctor cases=0 bound="every vector constructor, 0-5 elements"
//@ entry=h_valias cases=0 bound="insertion of an element of the vector itself, sizes 1-5"
//@ entry=h_list cases=0 bound="every history of 3 operations out of 16 on lists of owning elements of 0-3 elements"
//@ entry=h_queue cases=0 tcases=1 bound="every history of 6 (thorough 8) operations out of 5 on a queue"
//@ entry=h_stack cases=0 bound="every history of 5 operations out of 5 on a stack"
//@ entry=h_set cases=0-1 bound="every history of 3 operations out of 12 on set and multiset, keys 0-3"
//@ entry=h_map cases=0-1 bound="every history of 3 operations out of 12 on map and multimap, keys 0-3"
//@ entry=h_raw cases=0-1 bound="uninitialized_copy, _copy_n, _fill, _fill_n, _move, construct, destroy and *_n over 0-5 elements"
//@ entry=h_array cases=0 bound="arrays of owning elements: copy, assign, fill, swap"
//@ outside="elements whose constructors throw (see C32), elements with pointers into themselves"
#include "vecops.h"
#include "res.h"
#include "ulist.h"
#include "uqueue.h"
#include "ustack.h"
#include "uset.h"
#include "umultiset.h"
#include "umap.h"
#include "umultimap.h"
#include "uarray.h"
#include "uctralgo.h"
template <> struct E<R> { static R mk (int v) { return v == -1 ? R() : R(v); } static bool is (const R& t, int v) { return *t.p == v; } static int sym (void) { return sym_u8("v"); } static int def (void) { return -1; } };
static void done (void) { CHECK(!res_live, "every element is destroyed exactly once"); CHECK(!sym_live_allocs(), "all memory is released"); }
template <typename C> static void alive_ (const C& a, const C& b, size_t extra = 0) { CHECK(res_live == int(a.size()+b.size()+extra), "exactly the elements in the containers are alive"); }
extern "C" void h_vector (int c)
{
    res_live = res_made = 0;
    { vector<R> a, b; M m, n; init(a,m,c % 6); init(b,n,sym_bool("b") ? 1 : 2); verify(a,m); alive_(a,b);
      for (int i = 0; i < (c >= 6 ? 3 : 2); ++i) { if (i && sym_bool("other")) step(b,n,a,m); else step(a,m,b,n); verify(a,m); verify(b,n); alive_(a,b); }
      OBS(a.size()); OBS(res_live); }
    done();
}
extern "C" void h_vctor (int c)
{
    res_live = 0;
    { M m; size_t k = sym_pick(0,5,"n"); R arr[5]; for (int i = 0; i < 5; ++i) *arr[i].p = i;
      { vector<R> v; verify(v,m); } CHECK(res_live == 5, "live");
      { vector<R> v (k); m.insert(0,k,-1); verify(v,m); m.n = 0; CHECK(res_live == int(5+k), "live"); OBS(res_live); } CHECK(res_live == 5, "live");
      { vector<R> v (k,arr[3]); m.insert(0,k,3); verify(v,m); m.n = 0; CHECK(res_live == int(5+k), "live"); } CHECK(res_live == 5, "live");
      { vector<R> v ((const R*)arr, (const R*)arr+k); for (size_t i = 0; i < k; ++i) m.push(i); verify(v,m); vector<R> w (v); verify(w,m); CHECK(res_live == int(5+2*k), "live"); vector<R> z (ustl::move(v)); verify(z,m); CHECK(res_live == int(5+2*k), "live"); w.deallocate(); CHECK(res_live == int(5+k), "live"); m.n = 0; } CHECK(res_live == 5, "live");
      { vector<R> v {arr[0],arr[1],arr[2]}; CHECK(res_live == 8 && v.size() == 3, "live"); } CHECK(res_live == 5, "live"); }
    done();
}
extern "C" void h_valias (int c)
{
    res_live = 0;
    { vector<R> a; M m; size_t n = sym_pick(1,5,"n"); if (sym_bool("spare")) a.reserve(16); else a.reserve(n,true); for (size_t i = 0; i < n; ++i) { a.push_back(R(i+10)); m.push(i+10); }
      size_t k = sym_pick(0,n-1,"k"), p = sym_pick(0,n,"p"); int x = m.v[k];
      switch (sym_pick(0,3,"op")) { case 0: a.push_back(a[k]); m.push(x); break; case 1: a.insert(a.begin()+p,a[k]); m.insert(p,x); break; case 2: a.insert(a.begin()+p,3,a[k]); m.insert(p,3,x); break; case 3: a.resize(n+4,a[k]); m.insert(n,4,x); break; }
      verify(a,m); CHECK(res_live == int(m.n), "live"); OBS(a.size()); }
    done();
}
extern "C" void h_list (int c)
{
    res_live = 0;
    { list<R> a, b; b.push_back(R(2)); b.push_back(R(3));
      for (int i = 0; i < 3; ++i) { size_t p = sym_pick(0,a.size(),"p"); const R x ((int) sym_pick(1,2,"x"));
	switch (sym_pick(0,15,"op")) { case 0: a.push_front(x); break; case 1: a.push_front(R(2)); break; case 2: a.push_back(x); break; case 3: if (a.size()) a.pop_front(); break; case 4: if (a.size()) a.pop_back(); break; case 5: a.insert(a.begin()+p,2,x); break; case 6: a.erase(a.begin()+p,a.end()); break;
	    case 7: a.remove(x); break; case 8: a.unique(); break; case 9: a.reverse(); break; case 10: a.splice(a.begin()+p,b); break; case 11: { list<R> s(a); s.swap(b); } break; case 12: a = b; break; case 13: { list<R> s (2,x); a = ustl::move(s); } break; case 14: a.emplace_front(7); break; case 15: a.merge(b); break; }
	const R* d = a.begin(); CHECK(d == a.begin(), "begin"); alive_(a,b,1); int sum = 0; for (list<R>::const_iterator q = a.begin(); q != a.end(); ++q) sum += *q->p; OBS(sum); } }
    done();
}
extern "C" void h_queue (int c)
{
    res_live = 0;
    { queue<R> a; int in = 0, out = 0;
      for (int i = 0; i < (c ? 8 : 6); ++i) switch (sym_pick(0,4,"op")) { case 0: { const R x (in++); a.push(x); } break; case 1: a.emplace(in++); break; case 2: if (!a.empty()) { CHECK(*a.front().p == out, "front"); a.pop(); ++out; } break; case 3: { queue<R> q (a); CHECK(q.size() == a.size(), "copy"); if (!q.empty()) CHECK(*q.front().p == *a.front().p && q.front().p != a.front().p, "copy"); } break; case 4: { queue<R> q (ustl::move(a)); a = ustl::move(q); } break; }
      CHECK(a.size() == size_t(in-out) && res_live >= in-out, "alive"); if (!a.empty()) CHECK(*a.front().p == out && *a.back().p == in-1, "contents"); OBS(a.size()); }
    done();
}
extern "C" void h_stack (int c)
{
    res_live = 0;
    { stack<R> a; int n = 0; for (int i = 0; i < 5; ++i) switch (sym_pick(0,4,"op")) { case 0: { const R x (n++); a.push(x); } break; case 1: a.emplace(n++); break; case 2: if (!a.empty()) { CHECK(*a.top().p == n-1, "top"); a.pop(); --n; } break; case 3: { stack<R> q (a); CHECK(q.size() == a.size(), "copy"); } break; case 4: { stack<R> q (ustl::move(a)); a = ustl::move(q); } break; }
      CHECK(res_live == n && a.size() == size_t(n), "alive"); OBS(n); }
    done();
}
template <typename S> static void sets (void)
{
    res_live = 0;
    { S a, b; for (int i = 1; i < 3; ++i) b.insert(R(i)); 
      for (int i = 0; i < 3; ++i) { const R x ((int) sym_pick(0,3,"x"));
	switch (sym_pick(0,11,"op")) { case 0: a.insert(x); break; case 1: a.insert(R(*x.p)); break; case 2: a.insert(b.begin(),b.end()); break; case 3: a.erase(x); break; case 4: if (a.size()) a.erase(a.begin()); break; case 5: a.emplace(*x.p); break; case 6: a.clear(); break; case 7: a = b; break; case 8: a.swap(b); break; case 9: { S t (a); a = ustl::move(t); } break; case 10: a.push_back(x); break; case 11: a.insert({x,R(2)}); break; }
	alive_(a,b,1); int sum = 0; for (typename S::const_iterator q = a.begin(); q != a.end(); ++q) sum = sum*5 + *q->p; OBS(sum); } }
    done();
}
extern "C" void h_set (int c) { if (c) sets<multiset<R> >(); else sets<set<R> >(); }
static void sub (map<R,R>& a, const R& x) { a[x] = R(5); }
static void sub (multimap<R,R>& a, const R& x) { a.insert(make_pair(x,R(5))); }
template <typename S> static void maps (void)
{
    res_live = 0;
    { S a, b; for (int i = 1; i < 3; ++i) b.insert(make_pair(R(i),R(i+1)));
      for (int i = 0; i < 3; ++i) { const R x ((int) sym_pick(0,3,"x"));
	switch (sym_pick(0,11,"op")) { case 0: { const pair<R,R> t (x,R(8)); a.insert(t); } break; case 1: a.insert(make_pair(R(*x.p),R(4))); break; case 2: a.insert(b.begin(),b.end()); break; case 3: a.erase(x); break; case 4: if (a.size()) a.erase(a.begin()); break; case 5: a.emplace(x,R(1)); break; case 6: a.clear(); break; case 7: a = b; break; case 8: a.swap(b); break; case 9: { S t (a); a = ustl::move(t); } break; case 10: sub(a,x); break; case 11: a.insert({make_pair(x,x),make_pair(R(2),R(2))}); break; }
	CHECK(res_live == int(2*a.size()+2*b.size()+1), "exactly the elements in the containers are alive"); int sum = 0; for (typename S::const_iterator q = a.begin(); q != a.end(); ++q) sum = sum*31 + *q->first.p*5 + *q->second.p; OBS(sum); } }
    done();
}
extern "C" void h_map (int c) { if (c) maps<multimap<R,R> >(); else maps<map<R,R> >(); }
extern "C" void h_raw (int c)
{
    res_live = 0;
    { size_t n = sym_pick(0,5,"n"); R src[5]; for (int i = 0; i < 5; ++i) *src[i].p = i+1; R* d = (R*) malloc(sizeof(R)*5+1); R v (9); int e = -1; bool fill = false, mv = false; R* r = d+n;
      if (c == 0) switch (sym_pick(0,6,"op")) { case 0: r = uninitialized_copy(src,src+n,d); break; case 1: r = uninitialized_copy_n(src,n,d); break; case 2: uninitialized_fill(d,d+n,v); fill = true; e = 9; break; case 3: r = uninitialized_fill_n(d,n,v); fill = true; e = 9; break; case 4: r = uninitialized_move(src,src+n,d); mv = true; break; case 5: r = uninitialized_move_n(src,n,d); mv = true; break; case 6: uninitialized_copy(iter<R>(src),iter<R>(src+n),d); break; }
      else { fill = true; switch (sym_pick(0,4,"op")) { case 0: uninitialized_default_construct(d,d+n); break; case 1: uninitialized_default_construct_n(d,n); break; case 2: construct(d,d+n); break; case 3: uninitialized_value_construct(d,d+n); break; case 4: uninitialized_value_construct_n(d,n); break; } }
      CHECK(r == d+n, "returns the end"); CHECK(res_live == int(6+n), "constructed once each"); for (size_t i = 0; i < n; ++i) { CHECK(*d[i].p == (fill ? e : int(i)+1), "values"); CHECK(*src[i].p == (mv ? -2 : int(i)+1), "sources"); }
      switch (sym_pick(0,2,"destroy")) { case 0: destroy(d,d+n); break; case 1: destroy_n(d,n); break; case 2: for (size_t i = 0; i < n; ++i) destroy_at(d+i); break; }
      CHECK(res_live == 6, "destroyed once each"); free(d); OBS(n); }
    done();
}
extern "C" void h_array (int c)
{
    res_live = 0;
    { array<R,3> a, b; CHECK(res_live == 6, "alive"); for (int i = 0; i < 3; ++i) { *a[i].p = i; *b[i].p = i+10; }
      switch (sym_pick(0,4,"op")) { case 0: a = b; CHECK(*a[2].p == 12, "assign"); break; case 1: a.swap(b); CHECK(*a[1].p == 11 && *b[2].p == 2, "swap"); break; case 2: { array<R,3> t (a); CHECK(res_live == 9 && t == a, "copy"); } break; case 3: a.fill(R(4)); CHECK(*a[0].p == 4 && *a[2].p == 4, "fill"); break; case 4: { array<R,3> t (ustl::move(a)); CHECK(*t[2].p == 2, "move"); } break; }
      CHECK(res_live == 6, "alive"); OBS(*b[1].p); }
    done();
}
