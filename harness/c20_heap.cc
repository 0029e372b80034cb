//@ property=C20
//@ oracle="the definition of a heap (no parent before its child) and of a permutation (every tag kept with its key, once)"
//@ entry=h_isheap cases=0-2 bound="is_heap of every range of 0-7 bytes, under less, greater and a stateful comparator"
//@ entry=h_make cases=0-2 tcases=3-5 bound="make_heap of all ranges of 0-6 (thorough 7) records, keys of 8 bits, ordered by key"
//@ entry=h_push cases=0-2 tcases=3-5 bound="push_heap onto every heap of 0-6 (thorough 7) records"
//@ entry=h_pop cases=0-2 tcases=3-5 bound="pop_heap from every heap of 0-7 (thorough 8) records"
//@ entry=h_sort cases=0-2 tcases=3-5 bound="sort_heap of every heap of 0-5 (thorough 6) records"
//@ entry=h_bytes cases=0 bound="the forms without comparator on 0-4 bytes"
//@ entry=h_queue cases=0-3 tcases=4-7 bound="histories of 5 (thorough 6) pushes, emplaces and pops on a priority_queue with less, greater, a stateful comparator, and records; from empty, from a range, from a container, moved, swapped"
//@ outside="iterators other than random access; exceptions from the comparator"
#include "hx.h"
#include "uvector.h"
#include "uheap.h"
struct Rec { uint8_t k, id; Rec (uint8_t a = 0, uint8_t b = 0) : k(a), id(b) {} };
struct Less { bool operator() (const Rec& a, const Rec& b) const { return a.k < b.k; } bool operator() (uint8_t a, uint8_t b) const { return a < b; } };
struct Great { bool operator() (const Rec& a, const Rec& b) const { return b.k < a.k; } bool operator() (uint8_t a, uint8_t b) const { return b < a; } };
struct State { uint8_t x; explicit State (uint8_t v = 0) : x(v) {} bool operator() (const Rec& a, const Rec& b) const { return (a.k ^ x) < (b.k ^ x); } bool operator() (uint8_t a, uint8_t b) const { return (a ^ x) < (b ^ x); } };
template <typename T, typename C> static bool heap (const T* a, size_t n, C c) { bool ok = true; for (size_t i = 1; i < n; ++i) ok &= !c (a[(i-1)/2], a[i]); return ok; }
static bool perm (const Rec* a, size_t n, const uint8_t* k) { bool ok = true; unsigned m = 0; for (size_t i = 0; i < n; ++i) { unsigned id = sym_concretize (a[i].id); if (id >= n) return false; m |= 1u << id; ok &= a[i].k == k[id]; } return ok & (m == (1u << n)-1); }
struct In { size_t n; uint8_t k [9]; exact m; Rec* a; In (size_t N) : n(sym_pick (0,N,"n")), m(n*sizeof(Rec)), a((Rec*) m.p) { for (size_t i = 0; i < n; ++i) { k[i] = sym_u8 ("k"); new (a+i) Rec (k[i],i); } } };
template <typename C> static void isheap (C c) { size_t n = sym_pick (0,7,"n"); exact m (n); uint8_t* a = (uint8_t*) m.p; for (size_t i = 0; i < n; ++i) a[i] = sym_u8 ("k"); bool r = is_heap (a, a+n, c), e = heap (a, n, c); CHECK(r == e, "is_heap"); OBS(r); }
extern "C" void h_isheap (int c) { if (c == 0) isheap (Less()); else if (c == 1) isheap (Great()); else { uint8_t x = sym_u8 ("x"); isheap (State (x)); } }
template <typename C> static void make (C c, size_t N) { In i (N); make_heap (i.a, i.a+i.n, c); CHECK(heap (i.a, i.n, c), "heap"); CHECK(perm (i.a, i.n, i.k), "permutation"); OBS(i.n ? i.a->k : 0); }
extern "C" void h_make (int c) { size_t N = c < 3 ? 6 : 7; if (c%3 == 0) make (Less(),N); else if (c%3 == 1) make (Great(),N); else make (State(0x55),N); }
template <typename C> static void push (C c, size_t N) { In i (N); if (!i.n) { push_heap (i.a,i.a,c); return; } sym_assume (heap (i.a, i.n-1, c)); push_heap (i.a, i.a+i.n, c); CHECK(heap (i.a, i.n, c), "heap"); CHECK(perm (i.a, i.n, i.k), "permutation"); OBS(i.a->k); }
extern "C" void h_push (int c) { size_t N = c < 3 ? 7 : 8; if (c%3 == 0) push (Less(),N); else if (c%3 == 1) push (Great(),N); else push (State(0x55),N); }
template <typename C> static void pop (C c, size_t N) { In i (N); sym_assume (heap (i.a, i.n, c)); Rec top = i.n ? *i.a : Rec(); pop_heap (i.a, i.a+i.n, c); if (!i.n) return; CHECK(i.a[i.n-1].id == top.id, "top moved to the end"); CHECK(heap (i.a, i.n-1, c), "heap"); CHECK(perm (i.a, i.n, i.k), "permutation"); OBS(i.a->k); }
extern "C" void h_pop (int c) { size_t N = c < 3 ? 7 : 8; if (c%3 == 0) pop (Less(),N); else if (c%3 == 1) pop (Great(),N); else pop (State(0x55),N); }
template <typename C> static void srt (C c, size_t N) { In i (N); sym_assume (heap (i.a, i.n, c)); sort_heap (i.a, i.a+i.n, c); bool ok = true; for (size_t j = 1; j < i.n; ++j) ok &= !c (i.a[j], i.a[j-1]); CHECK(ok, "sorted"); CHECK(perm (i.a, i.n, i.k), "permutation"); OBS(i.n ? i.a->k : 0); }
extern "C" void h_sort (int c) { size_t N = c < 3 ? 5 : 6; if (c%3 == 0) srt (Less(),N); else if (c%3 == 1) srt (Great(),N); else srt (State(0x55),N); }
extern "C" void h_bytes (int)
{
    size_t n = sym_pick (0,4,"n"); exact m (n); uint8_t *a = (uint8_t*) m.p, k [5]; for (size_t i = 0; i < n; ++i) a[i] = k[i] = sym_u8 ("k"); make_heap (a, a+n); CHECK(heap (a,n,Less()) && is_heap (a,a+n), "heap"); if (n) { uint8_t t = a[0]; pop_heap (a, a+n); CHECK(a[n-1] == t && heap (a,n-1,Less()), "pop"); push_heap (a, a+n); CHECK(heap (a,n,Less()) && a[0] == t, "push"); }
    sort_heap (a, a+n); bool ok = true; for (size_t i = 1; i < n; ++i) ok &= a[i-1] <= a[i]; CHECK(ok, "sorted"); uint8_t v = sym_u8 ("v"); unsigned x = 0, y = 0; for (size_t i = 0; i < n; ++i) { x += a[i] == v; y += k[i] == v; } CHECK(x == y, "every value as often as before"); OBS(x);
}
// priority_queue against the bag of live keys
template <typename T, typename C> static void queue_hist (C c, unsigned steps)
{
    typedef priority_queue<T,vector<T>,C> Q; uint8_t key [16]; bool live [16]; unsigned n = 0; uint8_t ini [3]; unsigned k = 0, how = sym_pick (0,4,"start"); if (how) k = sym_pick (0,3,"k"); for (unsigned i = 0; i < k; ++i) { ini[i] = key[n] = sym_u8 ("k"); live[n++] = true; }
    vector<T> src; for (unsigned i = 0; i < k; ++i) src.push_back (T(ini[i])); Q e (c), r (src.begin(), src.end(), c), f (c, src), m (c, vector<T>(src)), b (src.begin(), src.begin()+k/2, c, vector<T>(src.begin()+k/2, src.end())); Q* qs[] = { &e,&r,&f,&m,&b }; Q& q0 = *qs[how]; Q q (ustl::move (q0)); steps -= k < 2 ? 0 : k-1;
    for (unsigned s = 0; s < steps; ++s) { unsigned op = sym_pick (0,2,"op"); if (op == 2) { if (q.empty()) { CHECK(q.size() == 0, "size"); continue; } uint8_t t = uint8_t (q.top()); bool ok = false, best = true; unsigned at = 99; for (unsigned i = 0; i < n; ++i) if (live[i]) { if (sym_concretize (key[i] == t)) { ok = true; at = i; } best &= !c (T(t), T(key[i])); } CHECK(ok, "top is an element"); CHECK(best, "no element is greater"); live[at] = false; q.pop(); }
      else { uint8_t v = sym_u8 ("v"); if (op) q.emplace (T(v)); else q.push (T(v)); key[n] = v; live[n++] = true; } unsigned z = 0; for (unsigned i = 0; i < n; ++i) z += live[i]; CHECK(q.size() == z && q.empty() == !z, "size"); }
    Q o (c); o.push (T(7)); q.swap (o); CHECK(q.size() == 1 && uint8_t (q.top()) == 7, "swap"); OBS(o.size());
}
struct Val { uint8_t v; explicit Val (uint8_t x = 0) : v(x) {} explicit operator uint8_t () const { return v; } bool operator< (const Val& o) const { return v < o.v; } };
extern "C" void h_queue (int c) { unsigned n = c < 4 ? 5 : 6; switch (c % 4) { case 0: queue_hist<uint8_t> (less<uint8_t>(),n); break; case 1: queue_hist<uint8_t> (greater<uint8_t>(),n); break; case 2: queue_hist<uint8_t> (State (0x0f),n); break; case 3: queue_hist<Val> (less<Val>(),n); break; } }
