//@ property=C25
//@ oracle="a table of which slot owns which object: an object is alive exactly while some slot owns it, and dies once"
//@ entry=h_shared cases=0 tcases=1 reach=hit bound="histories of 3 (thorough 4) operations on 3 shared_ptr: construction, copy and move construction, copy and move assignment (to itself included), assignment of a raw pointer, reset, swap, make_shared"
//@ entry=h_unique cases=0-1 tcases=2-3 reach=hit bound="histories of 4 (thorough 5) operations on 2 unique_ptr of objects, and of arrays of 0-3 objects, self move included"
//@ entry=h_auto cases=0 tcases=1 reach=hit bound="histories of 4 (thorough 5) operations on 2 auto_ptr"
//@ entry=h_chain cases=0-5 bound="owners stored in the objects they own: p = p->next by copy and by move, reset of a chain of 1-4, for shared_ptr and unique_ptr"
//@ entry=h_guard cases=0 bound="scope_exit: released or not, moved, nested, left by an exception"
//@ entry=h_resource cases=0-1 tcases=2-3 bound="histories of 4 (thorough 5) operations on 2 unique_resource, and the checked maker"
//@ entry=h_threads cases=0-1 reach=hit bound="2 and 3 threads that each own, copy, move, assign and let go of the same object, all schedules in which a thread is preempted once, before or after any atomic operation, by the whole of the next thread"
//@ entry=h_access cases=0 bound="get, *, ->, [], bool and comparisons of any two owners"
//@ trusted="the compiler's __atomic builtins are atomic; sequentially consistent memory"
//@ outside="reset to the pointer already owned (asserted against); deleters that throw; self move assignment of unique_resource (the resource is released once, but is not kept); schedules with more than one preemption per thread"
#include <stdint.h>
static void sched (void);
template <typename P, typename V> inline auto hk_add_fetch (P* p, V v, int o) { sched(); auto r = __atomic_add_fetch (p,v,o); sched(); return r; }
template <typename P, typename V> inline auto hk_sub_fetch (P* p, V v, int o) { sched(); auto r = __atomic_sub_fetch (p,v,o); sched(); return r; }
template <typename P, typename V> inline auto hk_fetch_add (P* p, V v, int o) { sched(); auto r = __atomic_fetch_add (p,v,o); sched(); return r; }
template <typename P, typename V> inline auto hk_fetch_sub (P* p, V v, int o) { sched(); auto r = __atomic_fetch_sub (p,v,o); sched(); return r; }
template <typename P> inline auto hk_load_n (P* p, int o) { sched(); auto r = __atomic_load_n (p,o); sched(); return r; }
template <typename P, typename V> inline void hk_store_n (P* p, V v, int o) { sched(); __atomic_store_n (p,v,o); sched(); }
#define __atomic_add_fetch hk_add_fetch
#define __atomic_sub_fetch hk_sub_fetch
#define __atomic_fetch_add hk_fetch_add
#define __atomic_fetch_sub hk_fetch_sub
#define __atomic_load_n hk_load_n
#define __atomic_store_n hk_store_n
#include "hx.h"
#include "umemory.h"
enum { MAXOB = 24 };
static int nob; static signed char state [MAXOB];	// 0 none, 1 alive, 2 dead
struct Ob { int id; int* own; explicit Ob (int = 0) : id(nob++), own((int*) malloc (4)) { state[id] = 1; *own = id; } ~Ob (void) { CHECK(state[id] == 1, "an object dies once"); state[id] = 2; free (own); } Ob (const Ob&) = delete; };
template <size_t N> static void alive (const int (&slot)[N], int extra = -1) { for (int i = 0; i < nob; ++i) { bool a = i == extra; for (size_t j = 0; j < N; ++j) a |= slot[j] == i; CHECK((state[i] == 1) == a, "alive exactly while owned"); } }
typedef shared_ptr<Ob> SP;
static void shared (size_t steps)
{
    {
	SP p [3]; int m [3] = { -1,-1,-1 };
	while (steps--) {
	    size_t o = sym_pick (0,9,"op"), i = sym_pick (0,2,"i"), j = 0; if (o < 4) j = sym_pick (0,2,"j");
	    switch (o) {
		case 0: p[i] = p[j]; m[i] = m[j]; break;
		case 1: p[i] = move (p[j]); if (i != j) { m[i] = m[j]; m[j] = -1; } break;
		case 2: if (i == j) sym_stop(); p[i].swap (p[j]); { int t = m[i]; m[i] = m[j]; m[j] = t; } break;
		case 3: { SP t (p[j]); CHECK(t.get() == p[j].get(), "copy"); p[i] = t; m[i] = m[j]; } break;
		case 4: p[i].reset(); m[i] = -1; break;
		case 5: p[i].reset (new Ob); m[i] = nob-1; break;
		case 6: p[i] = new Ob; m[i] = nob-1; break;
		case 7: p[i] = make_shared<Ob> (1); m[i] = nob-1; break;
		case 8: { SP t (move (p[i])); CHECK(!p[i].get() && !p[i].use_count() && !p[i], "moved from"); CHECK(m[i] < 0 ? !t.get() : t->id == m[i], "moved to"); } m[i] = -1; break;
		case 9: { SP t (p[i]), u (t), v; v = u; CHECK(v == p[i], "copies"); u.reset(); } break;
	    }
	    alive (m);
	    for (size_t k = 0; k < 3; ++k) { size_t n = 0; for (size_t l = 0; l < 3; ++l) n += m[k] >= 0 && m[l] == m[k]; CHECK(m[k] < 0 ? !p[k].get() : p[k].get() && p[k]->id == m[k] && *p[k]->own == m[k], "owned object"); CHECK(p[k].use_count() == n && p[k].unique() == (n == 1), "use_count"); }
	    if (m[0] >= 0 && m[0] == m[1] && m[1] == m[2]) sym_reach ("hit");
	}
    }
    const int none [1] = { -1 }; alive (none); CHECK(sym_live_allocs() == 0, "no leak");
}
extern "C" void h_shared (int c) { shared (c ? 4 : 3); }
template <typename P, bool Arr> static void uniq (size_t steps)
{
    {
	P p [2]; int m [2] = { -1,-1 }; size_t cnt [MAXOB] = {};	// arrays: first id and count
	auto mk = [&] (void) { size_t n = Arr ? sym_pick (1,3,"count") : 1; int f = nob; (void) f; cnt[nob] = n; return n; };
	auto fresh = [&] (void) { return Arr ? (Ob*) new Ob [mk()] : (mk(), new Ob); };
	while (steps--) {
	    size_t o = sym_pick (0,6,"op"), i = sym_pick (0,1,"i"), j = o < 2 ? sym_pick (0,1,"j") : 0; int id = nob;
	    switch (o) {
		case 0: p[i] = move (p[j]); if (i != j) { m[i] = m[j]; m[j] = -1; } break;
		case 1: p[i].swap (p[j]); { int t = m[i]; m[i] = m[j]; m[j] = t; } break;
		case 2: p[i].reset (nullptr); m[i] = -1; break;
		case 3: p[i].reset (fresh()); m[i] = id; break;
		case 4: p[i] = fresh(); m[i] = id; break;
		case 5: { Ob* r = p[i].release(); CHECK(!p[i].get() && (r ? r->id == m[i] && state[r->id] == 1 : m[i] < 0), "release gives up"); m[i] = -1; P t (r); } break;
		case 6: { P t (move (p[i])); CHECK(!p[i].get() && !p[i], "moved from"); CHECK(m[i] < 0 ? !t.get() : t->id == m[i] && &*t == t.get(), "moved to"); if (sym_bool ("back")) p[i] = move (t); else m[i] = -1; } break;
	    }
	    for (int x = 0; x < nob; ++x) { bool a = false; for (size_t k = 0; k < 2; ++k) if (m[k] >= 0) a |= x >= m[k] && size_t (x - m[k]) < cnt[m[k]]; CHECK((state[x] == 1) == a, "alive exactly while owned"); }
	    for (size_t k = 0; k < 2; ++k) { CHECK(bool (p[k]) == (m[k] >= 0), "owns"); if (m[k] >= 0) for (size_t x = 0; x < cnt[m[k]]; ++x) CHECK(p[k][x].id == m[k]+int(x), "owned object"); } if (m[0] >= 0 && m[1] >= 0) sym_reach ("hit");
	}
    }
    const int none [1] = { -1 }; alive (none); CHECK(sym_live_allocs() == 0, "no leak");
}
extern "C" void h_unique (int c) { if (c&1) uniq<unique_ptr<Ob[]>,true> (c < 2 ? 4 : 5); else uniq<unique_ptr<Ob>,false> (c < 2 ? 4 : 5); }
extern "C" void h_auto (int c)
{
    {
	auto_ptr<Ob> p [2]; int m [2] = { -1,-1 };
	for (size_t s = c ? 5 : 4; s--;) {
	    size_t o = sym_pick (0,6,"op"), i = sym_pick (0,1,"i"), j = o < 1 ? sym_pick (0,1,"j") : 0;
	    switch (o) {
		case 0: p[i] = p[j]; if (i != j) { m[i] = m[j]; m[j] = -1; } break;
		case 1: p[i].reset (nullptr); m[i] = -1; break;
		case 2: p[i].reset (new Ob); m[i] = nob-1; break;
		case 3: p[i] = new Ob; m[i] = nob-1; break;
		case 4: { auto_ptr<Ob> t (p[i].release()); CHECK(!p[i].get(), "release"); m[i] = -1; } break;
		case 5: { auto_ptr<Ob> t (p[i]); CHECK(!p[i].get() && (m[i] < 0 ? !t.get() : t->id == m[i]), "transfer"); if (sym_bool ("back")) p[i] = t; else m[i] = -1; } break;
		case 6: p[i].reset (p[i].get()); break;
	    }
	    alive (m); for (size_t k = 0; k < 2; ++k) CHECK(m[k] < 0 ? !p[k].get() : p[k].get() && p[k]->id == m[k] && &*p[k] == p[k].get(), "owned object"); if (m[0] >= 0 && m[1] >= 0) sym_reach ("hit");
	}
    }
    const int none [1] = { -1 }; alive (none); CHECK(sym_live_allocs() == 0, "no leak");
}
struct SN : public Ob { shared_ptr<SN> next; }; struct UN : public Ob { unique_ptr<UN> next; };
extern "C" void h_chain (int c)
{
    {
	size_t n = sym_pick (1,4,"length"); shared_ptr<SN> s; unique_ptr<UN> u; for (size_t i = 0; i < n; ++i) { if (c < 3) { shared_ptr<SN> t (new SN); t->next = s; s = t; } else { unique_ptr<UN> t (new UN); t->next = move (u); u = move (t); } }
	size_t k = sym_pick (0,n,"steps"), left = n; for (size_t i = 0; i < k; ++i, --left) { switch (c) { case 0: s = s->next; break; case 1: s = move (s->next); break; case 2: { auto t = s->next; s.swap (t); } break; case 3: case 5: u = move (u->next); break; case 4: { unique_ptr<UN> t (move (u->next)); u.swap (t); } break; } for (int x = 0; x < nob; ++x) CHECK((state[x] == 1) == (size_t (x) < left-1), "the rest of the chain is alive, what was passed is not"); CHECK(c < 3 ? (left > 1 ? s->id == int (left)-2 : !s.get()) : (left > 1 ? u->id == int (left)-2 : !u.get()), "position"); }
	if (c == 5) u.reset();
    }
    const int none [1] = { -1 }; alive (none); CHECK(sym_live_allocs() == 0, "no leak");
}
static unsigned s_calls [4];
struct Rel { int k; void operator() (void) const { ++s_calls[k]; } };
extern "C" void h_guard (int)
{
    bool rel = sym_bool ("release"), mv = sym_bool ("move"), mrel = sym_bool ("release after"), thr = sym_bool ("throw"), early = sym_bool ("early"); s_calls[0] = s_calls[1] = 0;
    try { Rel a = { 0 }, b = { 1 }; scope_exit<Rel> g (move (a)); scope_exit<Rel> h (move (b)); if (rel) g.release(); CHECK(!s_calls[0] && !s_calls[1], "not before the end"); if (mv) { scope_exit<Rel> i (move (g)); CHECK(!s_calls[0], "not by moving"); if (mrel) i.release(); } CHECK(s_calls[0] == unsigned (mv && !rel && !mrel), "moved guard runs at its own end"); if (thr) throw 1; if (early) return; CHECK(!s_calls[1], "not before the end"); } catch (int) {}
    CHECK(s_calls[0] == unsigned (!rel && !(mv && mrel)) && s_calls[1] == 1, "runs once unless released"); unsigned n = 0; { auto g = make_scope_exit ([&n] { ++n; }); auto h = make_scope_exit ([&n] { n += 10; }); if (rel) h.release(); } CHECK(n == (rel ? 1u : 11u), "made guard");
}
static int rel_of [MAXOB];
struct Del { int tag; void operator() (int r) const { CHECK(r >= 0, "valid resource"); ++rel_of[r]; } };
typedef unique_resource<int,Del> UR;
static void resource (size_t steps)
{
    int made = 0, m [2]; 
    {
	Del d = { 1 }, e = { 2 }; UR a (int (made++),move (d)), b (int (made++),move (e)); m[0] = 0; m[1] = 1; UR* p [2] = { &a,&b };
	while (steps--) {
	    size_t o = sym_pick (0,4,"op"), i = sym_pick (0,1,"i"); UR &x = *p[i], &y = *p[!i];
	    switch (o) {
		case 0: x = move (y); m[i] = m[!i]; m[!i] = -1; break;
		case 1: x.reset(); m[i] = -1; break;
		case 2: x.reset (int (made)); m[i] = made++; break;
		case 3: { int r = x.release(); CHECK(m[i] < 0 || r == m[i], "release returns the resource"); if (m[i] >= 0) rel_of[r] += 1; m[i] = -1; } break;	// the caller's duty now
		case 4: { UR t (move (x)); CHECK(m[i] < 0 || t.get() == m[i], "moved"); if (sym_bool ("back")) x = move (t); else m[i] = -1; } break;
	    }
	    for (int r = 0; r < made; ++r) CHECK(rel_of[r] == (r != m[0] && r != m[1]), "released exactly once, when its owner lets go"); for (int k = 0; k < 2; ++k) if (m[k] >= 0) { const int& v = *p[k]; CHECK(v == m[k] && p[k]->get() == m[k], "owned resource"); }
	}
    }
    for (int r = 0; r < made; ++r) CHECK(rel_of[r] == 1, "released exactly once");
}
extern "C" void h_resource (int c)
{
    if (!(c&1)) return resource (c < 2 ? 4 : 5);
    int v = (int) sym_pick (0,3,"value"); { auto r = make_unique_resource_checked (v,2,Del()); CHECK(r.get() == v, "resource"); CHECK(!rel_of[v], "not yet"); } for (int i = 0; i < 4; ++i) CHECK(rel_of[i] == (i == v && v != 2), "the invalid value is not released"); { auto r = make_unique_resource (int (5),Del()); if (sym_bool ("release")) { r.release(); ++rel_of[5]; } CHECK(r == 5, "resource"); } CHECK(rel_of[5] == 1, "once"); int x = 7; { unique_resource<int*,void (*)(int*)> r (&x, [] (int* q) { *q = 9; }); CHECK(*r == 7 && r.get() == &x, "pointer resource"); } CHECK(x == 9, "deleter"); 
}
// threads
static SP* t_p [3]; static int t_n, t_level; static bool t_started [3]; static int t_owners; static bool t_on;
static void script (int k)
{
    SP& p = *t_p[k]; CHECK(state[0] == 1 && p->id == 0, "alive while this thread owns it"); size_t o = sym_pick (0,4,"act");
    switch (o) {
	case 0: --t_owners; p.reset(); break;
	case 1: { SP q (p); CHECK(q.get() == p.get(), "copy"); p.reset(); CHECK(state[0] == 1, "alive while the copy owns it"); --t_owners; } break;
	case 2: { SP q (move (p)); CHECK(state[0] == 1, "alive in the move"); --t_owners; } break;
	case 3: { SP q; q = p; --t_owners; p = SP(); ++t_owners; CHECK(state[0] == 1, "alive while the copy owns it"); --t_owners; } break;
	case 4: --t_owners; p.reset (new Ob); CHECK(p.use_count() == 1, "its own object"); break;
    }
}
static void sched (void) { if (!t_on || t_level+1 >= t_n || t_started[t_level+1] || !sym_bool ("preempt")) return; ++t_level; t_started[t_level] = true; script (t_level); --t_level; }
extern "C" void h_threads (int c)
{
    {
	SP a (new Ob), b (a), d; t_n = c ? 3 : 2; if (t_n == 3) d = a; t_p[0] = &a; t_p[1] = &b; t_p[2] = &d; t_owners = t_n; t_on = true; t_started[0] = true; script (0); t_level = 0; if (t_started[1]) sym_reach ("hit"); for (int k = 1; k < t_n; ++k) if (!t_started[k]) { t_started[k] = true; t_level = k; script (k); } t_on = false;
	CHECK(state[0] == 2, "the last owner released it");
    }
    for (int i = 0; i < nob; ++i) CHECK(state[i] == 2, "every object was released"); CHECK(sym_live_allocs() == 0, "no leak");
}
extern "C" void h_access (int)
{
    { Ob *x = new Ob, *y = new Ob; unique_ptr<Ob> u (x), v (y); shared_ptr<int> s (new int (5)), t (s), w; unique_ptr<int[]> a (new int [3] {1,2,3}); auto_ptr<int> q (new int (4)), z (new int (6)); CHECK(u == x && u != y && !(u == v) && (u < v) == (x < y) && (v < u) == (y < x), "unique_ptr comparisons"); CHECK(s == t && !(s < t) && !(t < s) && s != nullptr && w == nullptr && !(s == w) && s.use_count() == 2, "shared_ptr comparisons"); CHECK(&*s == s.get() && *s == 5 && s[0] == 5 && *t == 5, "shared access"); CHECK(a[0]+a[1]+a[2] == 6 && *a == 1 && a, "array access"); CHECK(*q == 4 && *z == 6 && !(q == z) && (q < z) == (q.get() < z.get()) && (z < q) == (z.get() < q.get()), "auto_ptr"); auto m = make_unique<int[]> (3); CHECK(!m[0] && !m[1] && !m[2], "make_unique of an array is zeroed"); *m = 7; CHECK(m[0] == 7, "access"); auto n = make_unique<Ob> (3); CHECK(n->id == 2 && n[0].id == 2 && (*n).id == 2, "make_unique"); }
    const int none [1] = { -1 }; alive (none); CHECK(sym_live_allocs() == 0, "no leak");
}
