//@ property=C02
//@ oracle="byte sequence model (Seq) edited in parallel; ownership by the engine's heap bookkeeping"
//@ entry=h_history cases=0-5 tcases=6-11 bound="every history of 2 (thorough 3) operations out of 19 on two memory blocks and a borrowed block, from 6 starting states; sizes up to 24, all positions"
//@ entry=h_reserve cases=0-2 bound="reserve/resize of every size 2^k-1, 2^k, 2^k+1 for k up to 33, exact and rounded, from empty, owned and linked blocks"
//@ entry=h_big cases=0-3 bound="one edit on an owned or linked block of every length 0-70 (capacity boundaries and SIMD thresholds), every position class"
//@ outside="files (read_file), blocks above 2^33 bytes"
#include "hx.h"
#include "memblock.h"

enum { SRC = 6 };
static exact* src; static char src0[SRC];
static Seq<char> M[2];
static bool linked[2];
static void fillnew (memblock& b, Seq<char>& m, size_t from) { for (size_t i = from; i < b.size(); ++i) { char c = (char) sym_u8("new"); b.begin()[i] = c; m.v[i] = c; } m.n = b.size(); }
static void verify (const memblock& b, const Seq<char>& m)
{
    CHECK(b.size() == m.n, "size"); CHECK(b.is_linked() == !b.capacity(), "linked means no capacity");
    CHECK(b.is_linked() || b.capacity() >= b.size(), "capacity covers size");
    CHECK(b.end() == b.begin()+m.n && (b.empty() == !m.n), "extent");
    for (size_t i = 0; i < m.n; ++i) CHECK(b.begin()[i] == m.v[i], "contents");
    for (size_t i = 0; i < SRC; ++i) CHECK(src->p[i] == src0[i], "borrowed block is never written");
}
static size_t psize (void) { static const unsigned char S[] = {0,1,5,8,24}; return S[sym_pick(0,4,"size")]; }
static void init (memblock& b, Seq<char>& m, int st)
{
    switch (st) {
	case 0: break;
	case 1: b.resize(5); fillnew(b,m,0); break;				// exactly full
	case 2: b.link(src->p,SRC); for (size_t i = 0; i < SRC; ++i) m.push(src0[i]); break;
	case 3: b.reserve(8); b.resize(3); fillnew(b,m,0); break;		// room to spare
	case 4: { char* p = (char*) malloc(4); b.manage(p,4); fillnew(b,m,0); } break;
	case 5: b.resize(8,false); fillnew(b,m,0); break;
    }
}
static void step (memblock& a, memblock& b)
{
    Seq<char>& m = M[0]; Seq<char>& n = M[1]; size_t was = a.size(), oc = a.capacity(), oz, p, k;
    switch (sym_pick(0,18,"op")) {
	case 0: a.assign(src->p,oz = sym_pick(0,SRC,"n")); m.n = 0; for (size_t i = 0; i < oz; ++i) m.push(src0[i]); CHECK(!oz || !a.is_linked(), "assign copies"); break;
	case 1: a = b; m = n; CHECK(a.empty() || a.begin() != b.begin(), "assignment copies"); break;
	case 2: a = ustl::move(b); { Seq<char> t(m); m = n; n = t; } break;
	case 3: a.swap(b); { Seq<char> t(m); m = n; n = t; } break;
	case 4: k = psize(); a.reserve(k,sym_bool("exact")); CHECK(a.capacity() >= k && a.capacity() >= oc, "reserve provides and never shrinks"); break;
	case 5: k = psize(); a.resize(k,sym_bool("exact")); if (k <= was) m.n = k; else { CHECK(a.size() == k, "resize"); for (size_t i = 0; i < was; ++i) CHECK(a.begin()[i] == m.v[i], "resize keeps contents"); fillnew(a,m,was); } break;
	case 6: p = sym_pick(0,was,"pos"); k = sym_pick(0,4,"n"); { memblock::iterator it = a.insert(a.begin()+p,k); CHECK(it == a.begin()+p, "insert returns the uncovered space"); CHECK(a.size() == was+k, "insert grows");
		for (size_t i = 0; i < k; ++i) { char c = (char) sym_u8("ins"); *it++ = c; m.insert(p+i,c); } } break;
	case 7: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); { memblock::iterator it = a.erase(a.begin()+p,k); CHECK(it == a.begin()+p, "erase returns the place after the removed bytes"); m.erase(p,k); } break;
	case 8: a.copy_link(); CHECK(a.empty() || !a.is_linked(), "copy_link owns"); break;
	case 9: if (!a.is_linked()) a.deallocate(); a.link(src->p,SRC); m.n = 0; for (size_t i = 0; i < SRC; ++i) m.push(src0[i]); CHECK(a.is_linked() && a.begin() == src->p, "link"); break;
	case 10: a.deallocate(); m.n = 0; CHECK(!a.capacity() && !a.cdata(), "deallocate empties"); break;
	case 11: a.shrink_to_fit(); CHECK(a.capacity() <= oc, "shrink_to_fit does not grow"); break;
	case 12: a.clear(); m.n = 0; CHECK(a.capacity() == oc, "clear keeps the storage"); break;
	case 13: { memblock& r = a; a = r; } break;
	case 14: { memblock c(a); verify(c,m); if (!c.empty()) { c.begin()[0] ^= 1; } } break;
	case 15: { memblock c(ustl::move(a)); verify(c,m); CHECK(!a.size() && !a.capacity(), "moved from block is empty"); a = ustl::move(c); } break;
	case 16: { const cmemlink& l = b; a = l; m = n; } break;
	case 17: { if (a.is_linked()) a.unlink(); else a.deallocate(); memlink l(malloc(3),3); a.manage(l); CHECK(a.capacity() == 3, "manage takes ownership"); m.n = 0; fillnew(a,m,0); } break;
	case 18: if (!a.is_linked()) { char* q = a.begin(); a.unlink(); CHECK(!a.size() && !a.capacity() && !a.begin(), "unlink lets go"); free(q); } else a.unlink(); m.n = 0; break;
    }
}
extern "C" void h_history (int c)
{
    { exact s(SRC); src = &s; for (size_t i = 0; i < SRC; ++i) s.p[i] = src0[i] = (char) sym_u8("src"); M[0].n = M[1].n = 0;
      { memblock a, b; init(a,M[0],c % 6); init(b,M[1],sym_pick(1,2,"b")); verify(a,M[0]); verify(b,M[1]);
	for (int i = 0; i < (c >= 6 ? 3 : 2); ++i) { bool sw = i && sym_bool("other"); if (sw) { Seq<char> t(M[0]); M[0] = M[1]; M[1] = t; step(b,a); t = M[0]; M[0] = M[1]; M[1] = t; } else step(a,b); verify(a,M[0]); verify(b,M[1]); }
	OBS(a.size()); OBS(a.capacity()); OBS(b.size()); for (size_t i = 0; i < a.size(); i += 3) OBS(a.begin()[i]); } }
    CHECK(!sym_live_allocs(), "every owned block is freed exactly once");
}
extern "C" void h_reserve (int c)
{
    { exact s(SRC); src = &s; for (size_t i = 0; i < SRC; ++i) s.p[i] = src0[i] = (char) i; M[0].n = 0; memblock a; init(a,M[0],c);
      size_t n = (size_t(1) << sym_pick(0,33,"log2")) + sym_pick(0,2,"delta") - 1, before = a.capacity(); bool ex = sym_bool("exact"), rs = sym_bool("resize");
      if (rs) { a.resize(n,ex); CHECK(a.size() == n, "resize sets the size"); CHECK(a.capacity() >= n || a.is_linked(), "resize provides the space"); size_t k = M[0].n < n ? M[0].n : n; for (size_t i = 0; i < k; ++i) CHECK(a.begin()[i] == M[0].v[i], "contents survive"); if (n) a.end()[-1] = 1; }
      else { a.reserve(n,ex); CHECK(a.capacity() >= n && a.capacity() >= before, "reserve provides the space"); verify(a,M[0]); if (n) { a.resize(n,ex); a.end()[-1] = 1; } } OBS(a.capacity() >= n); }
    CHECK(!sym_live_allocs(), "freed");
}
extern "C" void h_big (int c)
{
    { size_t n = sym_pick(0,70,"n"); exact s(n); for (size_t i = 0; i < n; ++i) s.p[i] = (char) sym_u8("s"); char keep[70]; for (size_t i = 0; i < n; ++i) keep[i] = s.p[i];
      memblock a; if (c & 1) a.link(s.p,n); else a.assign(s.p,n);
      static const unsigned char P[] = {0,1,16,31,64}; size_t p = P[sym_pick(0,4,"p")], k = sym_pick(0,3,"k")*11; if (p > n) p = n; if (sym_bool("fromend")) p = n-p;
      Seq<char,128> m; for (size_t i = 0; i < n; ++i) m.push(keep[i]);
      if (c & 2) { if (k > n-p) k = n-p; a.erase(a.begin()+p,k); m.erase(p,k); } else { char* it = a.insert(a.begin()+p,k); for (size_t i = 0; i < k; ++i) it[i] = 'x'; m.insert(p,k,'x'); }
      CHECK(a.size() == m.n, "size"); for (size_t i = 0; i < m.n; ++i) CHECK(a.begin()[i] == m.v[i], "contents"); for (size_t i = 0; i < n; ++i) CHECK(s.p[i] == keep[i], "source untouched"); OBS(a.size()); if (a.size()) OBS(a.begin()[a.size()/2]); }
    CHECK(!sym_live_allocs(), "freed");
}
