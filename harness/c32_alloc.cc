//@ property=C32
//@ oracle="after a failed allocation: the state before the operation (or, for operations made of several steps, a valid state and no leak); after a successful one: the state the operation gives when nothing fails"
//@ entry=h_blk cases=0-12 reach=fail bound="every memory block operation that allocates, from empty, owned, owned with spare room and linked blocks of 0-3 bytes; any of its allocations fails; then repeated without failures"
//@ entry=h_str cases=0-20 reach=fail bound="every string operation that allocates likewise"
//@ entry=h_strctor cases=0-7 reach=fail bound="every string constructor that allocates"
//@ entry=h_vec cases=0-13 reach=fail bound="vector operations on elements that own memory, 0-3 elements, up to 2 failures among all allocations of block and elements: no change, or the documented effect; every element destroyed once"
//@ entry=h_vctor cases=0-6 reach=fail bound="vector constructors of such elements, 0-3 elements"
//@ entry=h_ctr cases=0-7 reach=fail bound="set, map, multimap, list, stack and queue of strings: insertion into 0-2 elements, up to 2 failures"
//@ entry=h_mem cases=0-7 reach=fail bound="operator new, tmalloc for all sizes up to 64, make_unique, shared_ptr construction, reset and make_shared, unique_ptr"
//@ entry=h_strm cases=0-6 reach=fail bound="string streams, stream buffers and reading strings and containers from streams of 0-4 elements, up to 2 failures"
//@ entry=h_exc cases=0-4 reach=fail bound="constructing, copying and describing every exception type while any of its allocations fails: nothing escapes from the noexcept functions"
//@ entry=h_huge cases=0-14 reach=fail bound="requests of any size near the top of the address space: bad_alloc, and nothing changes"
//@ outside="failures inside libc (stdio buffers, the unwinder's exception allocation); memory taken by alloca; elements whose destructors throw"
#include "uutility.h"
#include "ustdxept.h"
#include "umap.h"
#include "umultimap.h"
#include "umultiset.h"
#include "uset.h"
#include "ulist.h"
#include "ustack.h"
#include "uqueue.h"
#include "sistream.h"
#include "sostream.h"
#include "mistream.h"
#include "strmsize.h"
#include "uspecial.h"
#include "uctralgo.h"
#include "hx.h"
typedef uint8_t u8; typedef uint32_t u32;
// runs f with up to k failing allocations; true if it completed
template <typename F> static bool run (int k, F f) { bool ok = true; sym_malloc_fail (k); try { f(); } catch (ustl::bad_alloc&) { ok = false; } sym_malloc_fail (0); if (!ok) sym_reach ("fail"); return ok; }
#define DONE() CHECK(!sym_live_allocs(), "no memory is leaked")
static const char c_text[] = "qwe";
//--------------------------------------------------------------------
template <typename B> static void content (const B& b, const Seq<u8>& s) { CHECK(b.size() == s.n, "size"); bool ok = true; for (size_t i = 0; i < s.n; ++i) ok &= u8(b.cdata()[i]) == s.v[i]; CHECK(ok, "contents"); }
static char g_link [4];
template <typename B> static void start (B& b, Seq<u8>& s, int st)
{
    size_t n = sym_pick (0,3,"n"); for (size_t i = 0; i < n; ++i) g_link[i] = sym_u8 ("a") | 1; g_link[n] = 0; s.n = 0;
    if (st == 0) return;
    if (st == 1 || st == 2) { if (st == 2) b.reserve (40); else b.reserve (n, true); b.resize (n); for (size_t i = 0; i < n; ++i) b.begin()[i] = g_link[i]; }
    else b.link (g_link, n);
    for (size_t i = 0; i < n; ++i) s.push (g_link[i]);
}
static const u8 c_src[] = { 7,8,9,10,11,12,13,14 };
extern "C" void h_blk (int c)
{
    {
	memblock b, o; Seq<u8> s, t; int st = sym_pick (0,3,"state"); start (b,s,st); o.assign (c_src, 5); t = s; size_t cap = b.capacity(), k = sym_pick (0,4,"k"), p = sym_pick (0,s.n,"p"); bool any = false;
	if (c == 3 && st == 0) { sym_reach ("fail"); return; }
	auto op = [&] {
	    switch (c) {
		case 0: b.reserve (k*9); break;
		case 1: b.resize (k*9); break;
		case 2: b.insert (b.begin()+p, k); break;
		case 3: b.erase (b.begin()+p, s.n-p); break;
		case 4: b.assign (c_src, k); break;
		case 5: b = o; break;
		case 6: b.copy_link(); break;
		case 7: b.shrink_to_fit(); break;
		case 8: { memblock x (b); content (x,s); any = true; } break;
		case 9: { memblock x (k); any = true; CHECK(x.size() == k, "size"); } break;
		case 10: { memblock x (c_src,k); any = true; CHECK(x.size() == k, "size"); } break;
		case 11: b.reserve (k, true); break;
		case 12: { const cmemlink l (c_src,k); memblock x (l); any = true; CHECK(x.size() == k && x.data() != (void*) c_src, "copied"); } break;
	    } };
	bool lk = b.is_linked(); bool ok = run (1, op);
	if (!ok) { content (b,s); CHECK(b.capacity() == cap && b.is_linked() == lk, "a failed operation changes nothing"); op(); }
	switch (c) {
	    case 1: CHECK(b.size() == k*9, "size"); for (size_t i = 0; i < s.n && i < k*9; ++i) CHECK(u8(b.data()[i]) == s.v[i], "contents"); break;
	    case 2: CHECK(b.size() == s.n+k, "size"); for (size_t i = 0; i < s.n; ++i) CHECK(u8(b.data()[i < p ? i : i+k]) == s.v[i], "contents"); break;
	    case 3: s.n = p; content (b,s); break;
	    case 4: s.n = 0; for (size_t i = 0; i < k; ++i) s.push (c_src[i]); content (b,s); break;
	    case 5: s.n = 0; for (size_t i = 0; i < 5; ++i) s.push (c_src[i]); content (b,s); break;
	    case 0: CHECK(b.capacity() >= k*9, "capacity"); content (b,s); break;
	    default: content (b,s); break;
	}
	b.resize (2); b.data()[0] = 1; b.data()[1] = 2; CHECK(b.size() == 2, "reusable");
    }
    DONE();
}
//--------------------------------------------------------------------
static void text (const string& b, const Seq<u8>& s) { content (b,s); CHECK(!b.c_str()[b.size()], "terminated"); }
extern "C" void h_str (int c)
{
    {
	string b, o ("0123456789abc"), q; Seq<u8> s; int st = sym_pick (0,3,"state"); start (b,s,st); q.assign ("xyzabc"); size_t k = sym_pick (0,3,"k"), p = sym_pick (0,s.n,"p"); Seq<u8> r (s); bool strong = true;
	auto put = [&] (size_t at, const char* t, size_t n) { for (size_t i = 0; i < n; ++i) r.insert (at+i, t[i]); };
	if (c == 12 && st == 0) { sym_reach ("fail"); return; }
	static const wchar_t w[] = { 0x41, 0x444, 0 };
	auto op = [&] {
	    switch (c) {
		case 0: b.resize (s.n+k); break;
		case 1: b = o; break;
		case 2: b = "0123456789abc"; break;
		case 3: b.append (o); break;
		case 4: b.append ("qwertyuiop"); break;
		case 5: b.append (k+4, 'x'); break;
		case 6: b.push_back ('x'); break;
		case 7: b += o; break;
		case 8: b.insert (b.iat(p), k, 'x'); break;
		case 9: b.insert (string::pos_type(p), "qwerty"); break;
		case 10: b.insert (string::pos_type(p), q); break;
		case 11: b.insert (string::pos_type(p), 2, wchar_t(0x444)); break;
		case 12: b.erase (b.iat(p), s.n-p); break;
		case 13: b.replace (b.begin()+p, b.end(), "qwerty"); break;
		case 14: b.replace (b.begin()+p, b.end(), q); break;
		case 15: b.format ("%d-%s", 12345, "qwertyuiop"); break;
		case 16: { string x (b + o); CHECK(x.size() == s.n+13, "concatenation"); } break;
		case 17: b.assign (o, 3, 4); break;
		case 18: b.assign (6, 'y'); break;
		case 19: b.append (w); break;
		case 20: b.reserve (50); break;
	    } };
	switch (c) {
	    case 1: case 2: r.n = 0; put (0,"0123456789abc",13); break;
	    case 3: case 7: put (s.n,"0123456789abc",13); break;
	    case 4: put (s.n,"qwertyuiop",10); break;
	    case 5: put (s.n,"xxxxxxxxx",k+4); break;
	    case 6: put (s.n,"x",1); break;
	    case 8: put (p,"xxxx",k); break;
	    case 9: put (p,"qwerty",6); break;
	    case 10: put (p,"xyzabc",6); break;
	    case 11: put (p,"\xd1\x84\xd1\x84",4); break;
	    case 12: r.n = p; break;
	    case 13: r.n = p; put (p,"qwerty",6); break;
	    case 14: r.n = p; put (p,"xyzabc",6); break;
	    case 15: r.n = 0; put (0,"12345-qwertyuiop",16); strong = false; break;
	    case 17: r.n = 0; put (0,"3456",4); break;
	    case 18: r.n = 0; put (0,"yyyyyy",6); strong = false; break;
	    case 19: put (s.n,"A\xd1\x84",3); break;
	}
	bool ok = run (1, op);
	if (!ok) { if (strong) content (b,s); else CHECK(b.size() <= 16 && (!b.size() || b.c_str()), "valid"); if (c == 11 || c == 8 || c == 9 || c == 10 || c == 13 || c == 14) if (p > b.size()) p = b.size(); if (c == 15 || c == 18) b.clear(); op(); }
	if (c == 0) { CHECK(b.size() == s.n+k && !b.c_str()[b.size()], "size"); for (size_t i = 0; i < s.n; ++i) CHECK(u8(b[i]) == s.v[i], "contents"); }
	else text (b,r);
	b = "zz"; CHECK(b == "zz", "reusable");
    }
    DONE();
}
extern "C" void h_strctor (int c)
{
    {
	Seq<u8> s; string b; start (b,s,1+sym_pick (0,1,"state")); size_t k = sym_pick (1,9,"k"); string t (k,'t'); const wchar_t w[] = { 0x41, 0 };
	bool ok = run (1, [&] {
	    switch (c) {
		case 0: { string x (b); text (x,s); } break;
		case 1: { string x (k,'c'); CHECK(x.size() == k && x[0] == 'c', "filled"); } break;
		case 2: { string x ("qwertyuiop", k); CHECK(x.size() == k && x[0] == 'q', "copied"); } break;
		case 3: { const char* z = "qwertyuiop"; string x (z+1, z+k); CHECK(x.size() == k-1, "copied"); } break;
		case 4: { string x (t, 1, 2); CHECK(x.size() == (k-1 < 2 ? k-1 : 2), "substring"); } break;
		case 5: { string x ({'a','b'}); CHECK(x == "ab", "list"); } break;
		case 6: { string x (t.substr (0,k)); CHECK(x == t, "substr"); } break;
		case 7: { cmemlink l ("abcdefghijkl", k); string x (l); CHECK(x.size() == k, "memory link"); } break;
	    } });
	text (b,s); CHECK(t.size() == k, "sources unchanged"); (void) ok;
    }
    DONE();
}
//--------------------------------------------------------------------
// owns memory, throws when it cannot have it
static int own_live;
struct Own {
    int* p;
    Own (int v = -1) : p (new int (v)) { ++own_live; } Own (const Own& o) : p (new int (*o.p)) { ++own_live; } Own (Own&& o) noexcept : p (o.p) { o.p = nullptr; ++own_live; }
    Own& operator= (const Own& o) { if (this != &o) { int* n = new int (*o.p); delete p; p = n; } return *this; } Own& operator= (Own&& o) noexcept { int* t = p; p = o.p; o.p = t; return *this; }
    ~Own (void) { delete p; --own_live; } bool operator== (const Own& o) const { return *p == *o.p; } bool operator< (const Own& o) const { return *p < *o.p; }
};
static bool is (const vector<Own>& v, const Seq<u8>& s) { if (v.size() != s.n) return false; bool ok = true; for (size_t i = 0; i < s.n; ++i) ok &= *v[i].p == (s.v[i] == 255 ? -1 : s.v[i]); return ok; }
static void valid (const vector<Own>& v) { int s = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].p) s += *v[i].p; OBS(s); }	// reads every element
extern "C" void h_vec (int c)
{
    own_live = 0;
    {
	vector<Own> v; Seq<u8> s; size_t n = sym_pick (0,3,"n"), p = sym_pick (0,n,"p"), k = sym_pick (0,2,"k"); if (sym_pick (0,1,"spare")) v.reserve (12); else v.reserve (n,true);
	for (size_t i = 0; i < n; ++i) { u8 x = 10+i; v.push_back (Own (x)); s.push (x); }
	Own e (5), a[2] = { Own (6), Own (7) }; vector<Own> w (a, a+2); Seq<u8> r (s); bool strong = true;
	switch (c) {
	    case 0: case 1: case 2: r.push (5); break;
	    case 3: case 4: r.insert (p,5); break;
	    case 5: r.insert (p,k,5); break;
	    case 6: for (size_t i = 0; i < k; ++i) r.insert (p+i,6+i); break;
	    case 7: r.n = n; for (size_t i = 0; i < k; ++i) r.push (255); break;
	    case 8: r.n = n; for (size_t i = 0; i < k; ++i) r.push (5); break;
	    case 9: r.n = 0; r.push (6); r.push (7); strong = false; break;
	    case 10: r.n = 0; for (size_t i = 0; i < k; ++i) r.push (5); strong = false; break;
	    case 11: r.n = 0; for (size_t i = 0; i < k; ++i) r.push (6+i); strong = false; break;
	    case 12: break;
	    case 13: r.insert (p,9); break;
	}
	int l0 = own_live;
	bool ok = run (2, [&] {
	    switch (c) {
		case 0: v.push_back (e); break;
		case 1: v.emplace_back (5); break;
		case 2: v.push_back (Own (5)); break;
		case 3: v.insert (v.begin()+p, e); break;
		case 4: v.emplace (v.begin()+p, 5); break;
		case 5: v.insert (v.begin()+p, k, e); break;
		case 6: v.insert (v.begin()+p, a, a+k); break;
		case 7: v.resize (n+k); break;
		case 8: v.resize (n+k, e); break;
		case 9: v = w; break;
		case 10: v.assign (k, e); break;
		case 11: v.assign (a, a+k); break;
		case 12: v.reserve (30); break;
		case 13: v.insert (v.begin()+p, { Own (9) }); break;
	    } });
	if (ok) CHECK(is (v,r), "the operation's effect"); else if (strong) CHECK(is (v,s) && own_live == l0, "a failed insertion changes nothing"); else valid (v);
	CHECK(own_live == int(v.size()) + 5, "exactly the elements in the containers are alive");
	CHECK(*e.p == 5 && *a[0].p == 6 && *a[1].p == 7 && w.size() == 2, "the sources are unchanged");
	v.push_back (e); CHECK(*v.back().p == 5, "reusable"); v.clear(); CHECK(v.empty(), "clear");
    }
    CHECK(!own_live, "every element is destroyed exactly once"); DONE();
}
extern "C" void h_vctor (int c)
{
    own_live = 0;
    {
	size_t k = sym_pick (0,3,"k"); Own a[3] = { Own (6), Own (7), Own (8) }; vector<Own> w (a, a+k);
	bool ok = run (1, [&] {
	    switch (c) {
		case 0: { vector<Own> v (k); CHECK(v.size() == k, "size"); } break;
		case 1: { vector<Own> v (k, a[0]); CHECK(v.size() == k, "size"); } break;
		case 2: { vector<Own> v (w); CHECK(v.size() == k, "size"); } break;
		case 3: { vector<Own> v (a, a+k); CHECK(v.size() == k, "size"); } break;
		case 4: { vector<Own> v { a[0], a[1] }; CHECK(v.size() == 2, "size"); } break;
		case 5: { list<Own> v (w.begin(), w.end()); CHECK(v.size() == k, "size"); } break;
		case 6: { set<Own> v (w.begin(), w.end()); CHECK(v.size() == k, "size"); } break;
	    } });
	(void) ok; CHECK(own_live == int(3+k), "a failed constructor leaves no element behind");
    }
    CHECK(!own_live, "every element is destroyed exactly once"); DONE();
}
//--------------------------------------------------------------------
extern "C" void h_ctr (int c)
{
    {
	size_t n = sym_pick (0,2,"n"); string k[3], x; k[0].assign ("aa"); k[1].assign ("cc"); k[2].assign ("ee"); x.assign (sym_pick (0,1,"new") ? "bb" : "cc"); bool had = n > 1 && x == "cc";
	auto none = [&] (size_t sz, bool ok, bool multi) { CHECK(sz == n + (ok && (multi || !had)), "size: the element was inserted, or nothing changed"); };
	switch (c) {
	    case 0: { set<string> v; for (size_t i = 0; i < n; ++i) v.insert (k[i]); bool ok = run (2, [&] { v.insert (x); }); none (v.size(), ok, false); for (size_t i = 0; i < n; ++i) CHECK(v.count (k[i]), "others present"); v.insert (x); CHECK(v.count (x), "inserted"); } break;
	    case 1: { multiset<string> v; for (size_t i = 0; i < n; ++i) v.insert (k[i]); bool ok = run (2, [&] { v.insert (x); }); none (v.size(), ok, true); for (size_t i = 0; i < n; ++i) CHECK(v.count (k[i]), "others present"); v.insert (x); CHECK(v.count (x), "inserted"); } break;
	    case 2: { map<string,string> v; for (size_t i = 0; i < n; ++i) v.insert (make_pair (k[i],k[2])); bool ok = run (2, [&] { v.insert (make_pair (x,k[0])); }); none (v.size(), ok, false); for (size_t i = 0; i < n; ++i) CHECK(v.find (k[i]) != v.end() && v.find (k[i])->second == "ee", "others present"); v.insert (make_pair (x,k[0])); CHECK(v.find (x) != v.end(), "inserted"); } break;
	    case 3: { map<string,string> v; for (size_t i = 0; i < n; ++i) v.insert (make_pair (k[i],k[2])); bool ok = run (2, [&] { v[x] = k[0]; }); if (ok) CHECK(v.size() == n + !had && v[x] == "aa", "assigned"); for (size_t i = 0; i < n; ++i) if (k[i] != x) CHECK(v.find (k[i]) != v.end() && v.find (k[i])->second == "ee", "others unchanged"); v[x] = k[2]; CHECK(v[x] == "ee" && v.size() == n + !had, "assigned later"); } break;
	    case 4: { multimap<string,int> v; for (size_t i = 0; i < n; ++i) v.insert (make_pair (k[i],1)); bool ok = run (2, [&] { v.insert (make_pair (x,2)); }); none (v.size(), ok, true); for (size_t i = 0; i < n; ++i) CHECK(v.count (k[i]), "others present"); } break;
	    case 5: { list<string> v; for (size_t i = 0; i < n; ++i) v.push_back (k[i]); bool front = sym_pick (0,1,"front"); bool ok = run (2, [&] { if (front) v.push_front (x); else v.push_back (x); }); none (v.size(), ok, true); for (size_t i = 0; i < n; ++i) CHECK(v[i + (ok && front)] == k[i], "others unchanged"); } break;
	    case 6: { stack<string> v; for (size_t i = 0; i < n; ++i) v.push (k[i]); bool ok = run (2, [&] { v.push (x); }); none (v.size(), ok, true); CHECK(!v.size() || v.top() == (ok ? x : k[n-1]), "top"); } break;
	    case 7: { queue<string> v; for (size_t i = 0; i < n; ++i) v.push (k[i]); bool ok = run (2, [&] { v.push (x); }); none (v.size(), ok, true); if (v.size()) CHECK(v.back() == (ok ? x : k[n-1]) && (!n || v.front() == k[0]), "ends"); } break;
	}
    }
    DONE();
}
//--------------------------------------------------------------------
extern "C" void h_mem (int c)
{
    own_live = 0;
    {
	size_t n = sym_pick (0,64,"n"); Own *raw = nullptr; if (c >= 2) sym_assume (n == 0);
	switch (c) {
	    case 0: { void* p = nullptr; if (run (1, [&] { p = ::operator new (n); })) { CHECK(p && sym_valid (p,n), "a block of the requested size"); ::operator delete (p); } } break;
	    case 1: { void* p = nullptr; if (run (1, [&] { p = n & 1 ? tmalloc (n) : ::operator new[] (n); })) { CHECK(p && sym_valid (p,n), "a block of the requested size"); nfree (p); } } break;
	    case 2: { bool ok = run (2, [&] { auto p (make_unique<Own> (3)); CHECK(*p->p == 3, "made"); }); (void) ok; CHECK(!own_live, "nothing is left"); } break;
	    case 3: { raw = new Own (3); bool ok = run (2, [&] { shared_ptr<Own> p (raw); CHECK(p.use_count() == 1, "owned"); }); (void) ok; CHECK(!own_live, "the pointer is deleted, whether or not it could be shared"); } break;
	    case 4: { shared_ptr<Own> p (new Own (4)), q (p); raw = new Own (5); bool ok = run (2, [&] { p.reset (raw); }); if (ok) CHECK(*p->p == 5 && q.unique() && own_live == 2, "reset"); else CHECK(p.get() == q.get() && *p->p == 4 && q.use_count() == 2 && own_live == 1, "a failed reset keeps the old pointer and deletes the new one"); } break;
	    case 5: { bool ok = run (2, [&] { auto p (make_shared<Own> (3)); CHECK(*p->p == 3, "made"); }); (void) ok; CHECK(!own_live, "nothing is left"); } break;
	    case 6: { unique_ptr<Own> p; bool ok = run (2, [&] { p = make_unique<Own> (6); }); CHECK(ok == bool(p.get()) && own_live == ok, "unique_ptr"); } break;
	    case 7: { bool ok = run (2, [&] { auto p (make_unique<Own[]> (2)); CHECK(own_live == 2, "made"); }); (void) ok; CHECK(!own_live, "nothing is left"); } break;
	}
    }
    CHECK(!own_live, "destroyed exactly once"); DONE();
}
//--------------------------------------------------------------------
extern "C" void h_strm (int c)
{
    {
	size_t n = sym_pick (0,4,"n"); char buf [128]; memset (buf, 0, sizeof(buf)); ostream os (buf, sizeof(buf));
	switch (c) {
	    case 0: { ostringstream s; s << "ab"; bool ok = run (2, [&] { for (size_t i = 0; i < n; ++i) s << "0123456789"; s << 77; }); string r (s.str()); CHECK(r.size() >= 2 && r[0] == 'a' && r[1] == 'b', "what was written is kept"); if (ok) CHECK(r.size() == 4+n*10, "all was written"); s << "zz"; CHECK(s.str().size() >= r.size()+2 && !strcmp (s.str().c_str() + s.str().size() - 2, "zz"), "writable after the failure"); } break;
	    case 1: { vector<string> v (n, string ("qwe")); os << v; os.align (8); istream is (buf, os.pos()); vector<string> r; bool ok = run (2, [&] { is >> r; }); if (ok) CHECK(r == v, "read"); for (size_t i = 0; i < r.size(); ++i) OBS(r[i].size()); is.seek (0); r.clear(); is >> r; CHECK(r == v, "readable again"); } break;
	    case 2: { map<string,u32> v; const char* k[] = { "a","b","c","d" }; for (size_t i = 0; i < n; ++i) v[string (k[i])] = i; os << v; istream is (buf, os.pos()); map<string,u32> r; bool ok = run (2, [&] { is >> r; }); if (ok) CHECK(r == v, "read"); for (auto& i : r) OBS(i.second); is.seek (0); r.clear(); is >> r; CHECK(r == v, "readable again"); } break;
	    case 3: { string v (n*5,'x'), r; r.assign ("old"); os << v; istream is (buf, os.pos()); bool ok = run (1, [&] { is >> r; }); CHECK(ok ? r == v : r == "old", "read or unchanged"); is.seek (0); is >> r; CHECK(r == v, "readable again"); } break;
	    case 4: { istringstream is ("qwertyuiop 12 asdf"); string a, b; u32 x = 0; a.assign ("old"); bool ok = run (2, [&] { is >> a >> x >> b; }); if (ok) CHECK(a == "qwertyuiop" && x == 12 && b == "asdf", "read"); OBS(a.size()); } break;
	    case 5: { memblock v (c_src,n), r; os << v; istream is (buf, os.pos()); bool ok = run (1, [&] { is >> r; }); if (ok) CHECK(r == v, "read"); else CHECK(r.empty(), "unchanged"); is.seek (0); is >> r; CHECK(r == v, "readable again"); } break;
	    case 6: { istringstream is ("line one\nline two"); string l; bool ok = run (2, [&] { is.getline (l); }); if (ok) CHECK(l == "line one", "line"); ostringstream s; ok = run (1, [&] { s.format ("%s %d", "0123456789abcdef", 12); }); if (ok) CHECK(s.str() == "0123456789abcdef 12", "formatted"); s << "q"; CHECK(s.str().size() >= 1, "writable"); } break;
	}
    }
    DONE();
}
//--------------------------------------------------------------------
template <typename X> static void exc (const X& x0)
{
    X x (x0); string m; m.assign ("old"); bool bad = false;
    sym_malloc_fail (2);
    try { X y (x); OBS(y.what()[0]); y = x; x.info (m); ostringstream s; x.text_write (s); } catch (...) { bad = true; }
    sym_malloc_fail (0);
    CHECK(!bad || sizeof(X) > sizeof(exception), "describing an exception does not throw"); CHECK(m.size() <= 200, "valid"); x.info (m); CHECK(m.size(), "described");
    sym_reach ("fail");
}
extern "C" void h_exc (int c)
{
    {
	switch (c) {
	    case 0: exc (exception()); exc (bad_cast()); break;
	    case 1: exc (bad_alloc (12)); break;
	    case 2: { sym_malloc_fail (2); runtime_error e ("some text"); logic_error l ("text"); sym_malloc_fail (0); CHECK(!e.what()[0] || !strcmp (e.what(), "some text"), "the text, or none"); string m; e.info (m); l.info (m); CHECK(m.size(), "described"); sym_reach ("fail"); } break;
	    case 3: { sym_malloc_fail (2); file_exception e ("open", "name"); sym_malloc_fail (0); CHECK(!strcmp (e.Filename(), "name"), "the name is kept"); string m; e.info (m); sym_reach ("fail"); } break;
	    case 4: { sym_malloc_fail (2); stream_bounds_exception e ("read","type",1,2,3); sym_malloc_fail (0); string m; e.info (m); CHECK(m.size(), "described"); sym_reach ("fail"); } break;
	}
    }
    DONE();
}
//--------------------------------------------------------------------
extern "C" void h_huge (int c)
{
    {
	string t; Seq<u8> u; start (t,u,1); memblock b; Seq<u8> s; start (b,s,sym_pick (1,3,"state")); vector<u32> v; v.push_back (1); v.push_back (2);
	size_t d = sym_pick (0,70,"d"), big = SIZE_MAX - d, el = sym_pick (0,3,"shift"), many = (size_t(1) << (62 + (el & 1))) + (el & 2 ? d : 0); 
	bool ok = true; sym_malloc_fail (0);
	auto tryit = [&] (void (*f)(memblock&, string&, vector<u32>&, size_t, size_t)) { try { f (b,t,v,big,many); } catch (ustl::bad_alloc&) { ok = false; sym_reach ("fail"); } catch (length_error&) { ok = false; sym_reach ("fail"); } };
	switch (c) {
	    case 0: tryit ([] (memblock& b, string&, vector<u32>&, size_t n, size_t) { b.reserve (n); }); break;
	    case 1: tryit ([] (memblock& b, string&, vector<u32>&, size_t n, size_t) { b.resize (n); }); break;
	    case 2: tryit ([] (memblock& b, string&, vector<u32>&, size_t n, size_t) { b.insert (b.begin(), n); }); break;
	    case 3: tryit ([] (memblock&, string& t, vector<u32>&, size_t n, size_t) { t.resize (n); }); break;
	    case 4: tryit ([] (memblock&, string& t, vector<u32>&, size_t n, size_t) { t.append (n, 'x'); }); break;
	    case 5: tryit ([] (memblock&, string&, vector<u32>& v, size_t, size_t n) { v.reserve (n); }); break;
	    case 6: tryit ([] (memblock&, string&, vector<u32>& v, size_t, size_t n) { v.resize (n); }); break;
	    case 7: tryit ([] (memblock&, string&, vector<u32>& v, size_t, size_t n) { v.insert (v.begin()+1, n, u32(3)); }); break;
	    case 8: tryit ([] (memblock&, string& t, vector<u32>&, size_t n, size_t) { t.insert (t.begin(), n, 'x'); }); break;
	    case 9: tryit ([] (memblock&, string& t, vector<u32>&, size_t, size_t n) { t.insert (string::pos_type(0), n/2+1, wchar_t(0x44444)); }); break;
	    case 10: tryit ([] (memblock&, string& t, vector<u32>&, size_t, size_t n) { t.insert (t.begin(), "qwer", n); }); break;
	    case 11: tryit ([] (memblock&, string& t, vector<u32>&, size_t, size_t n) { const char* q = "qwer"; t.replace (t.begin(), t.begin(), q, q+4, n); }); break;
	    case 12: tryit ([] (memblock&, string&, vector<u32>&, size_t, size_t n) { vector<u32> w (n); OBS(w.size()); }); break;
	    case 13: tryit ([] (memblock&, string&, vector<u32>&, size_t, size_t n) { vector<u32> w (n, 3); OBS(w.size()); }); break;
	    case 14: tryit ([] (memblock& b, string&, vector<u32>&, size_t n, size_t) { memblock w (n); OBS(w.size()+b.size()); }); break;
	}
	CHECK(!ok, "a size that cannot be had throws"); content (b,s); content (t,u); CHECK(v.size() == 2 && v[0] == 1 && v[1] == 2, "nothing changes");
    }
    DONE();
}
