//@ property=C12
//@ oracle="the bounds of exactly sized heap blocks (every access is checked), and: a read that reports no failure has consumed the stream size of the value it yields"
//@ entry=h_scalar cases=0-14 bound="every integer width, floats, bool, char types, enum, struct: blocks of 0-17 arbitrary bytes, every start position, exceptions on and off"
//@ entry=h_ctr cases=0-22 tcases=23-45 bound="string, memblock, vector, list, set, map, multimap, pair, tuple, array, bitset, nested and user types: blocks of 0-12 (thorough 16) arbitrary bytes (with strings inside 6-9, thorough 8-13), starts 0, 1, 2, 4, exceptions on and off, into used objects"
//@ entry=h_two cases=0-5 bound="two values one after the other from blocks of 0-10 (strings 6-8) arbitrary bytes, exceptions off"
//@ entry=h_raw cases=0-7 bound="read, readsome, read_strz, memlink, cmemlink, istream_iterator, UTF-8 reader, skip: blocks of 0-8 (UTF-8: 5) arbitrary bytes, every 64-bit count"
//@ entry=h_short cases=0-16 tcases=17-33 bound="writing scalars and containers of up to 3 elements into every block shorter than or equal to what is needed, exceptions on and off"
//@ entry=h_wraw cases=0-5 bound="write, write_strz, align, skip, ostream_iterator, UTF-8 writer with every 64-bit count"
//@ outside="element types with a stream size of zero; blocks over 4 GB"
#include "strm.h"
template <typename T> static bool canon (const T&) { return true; }
template <typename T> static size_t sz (const T& v) { return stream_size_of (v); }
// arbitrary bytes in an exactly sized block
static void junk (char* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (char) sym_u8("x"); }
template <typename T> static void rd (size_t maxn, size_t start, bool exact_size)
{
    size_t n = sym_pick (0,maxn,"n"); if (start > n) return; exact blk (n); junk (blk.p, n); istream is (blk.p, n); is.skip (start); bool ex = sym_bool ("exceptions"), threw = false; if (!ex) is.exceptions (0);
    T v; fillv (v,1); try { is >> v; } catch (...) { threw = true; } size_t used = is.pos() - start;
    CHECK(is.pos() >= start && is.pos() <= n, "cursor in the block"); CHECK(ex || !threw, "no exception when off"); CHECK(!ex || threw == !is.good(), "exception when on"); bool ok = !threw && is.good();
    if (exact_size && ok) CHECK(used == sz (v), "a good read consumed the value it yields"); if (!ok) CHECK(is.fail(), "failure is reported"); OBS(ok); OBS(used);
}
extern "C" void h_scalar (int c)
{
    size_t st = sym_pick(0,9,"start"); const bool E = true; size_t m = 17;
    switch (c) { case 0: rd<uint8_t>(m,st,E); break; case 1: rd<char>(m,st,E); break; case 2: rd<int8_t>(m,st,E); break; case 3: rd<uint16_t>(m,st,E); break; case 4: rd<int16_t>(m,st,E); break; case 5: rd<uint32_t>(m,st,E); break; case 6: rd<int>(m,st,E); break; case 7: rd<unsigned long>(m,st,E); break; case 8: rd<long>(m,st,E); break; case 9: rd<unsigned long long>(m,st,E); break; case 10: rd<float>(m,st,E); break; case 11: rd<double>(m,st,E); break; case 12: rd<wchar_t>(m,st,E); break; case 13: rd<Color>(m,st,E); break; case 14: rd<Raw>(m,st,E); break; }
}
template <typename T> static void rds (size_t m, bool E = true) { rd<T> (m, 0, E); }
template <typename T> static void rdu (size_t m, bool E = true) { static const size_t ST[] = {0,1,2,4}; size_t s = ST[sym_pick(0,3,"start")]; rd<T> (m, s, E && (s == 0 || s == 4)); }
extern "C" void h_ctr (int c)
{
    size_t m = c < 23 ? 12 : 16;
    switch (c % 23) { case 0: rdu<string>(m-3,false); break; case 1: rdu<memblock>(m); break; case 2: rdu<vector<uint8_t> >(m); break; case 3: rdu<vector<uint16_t> >(m); break; case 4: rdu<vector<uint32_t> >(m); break; case 5: rds<vector<uint64_t> >(m+12); break; case 6: rds<vector<string> >(m*2/3,false); break; case 7: rdu<vector<vector<uint8_t> > >(m); break; case 8: rdu<list<uint16_t> >(m); break; case 9: rdu<set<uint8_t> >(m); break; case 10: rdu<multiset<uint16_t> >(m); break; case 11: rdu<map<uint8_t,uint32_t> >(m+8,false); break; case 12: rds<map<string,string> >(m*2/3,false); break; case 13: rdu<multimap<uint8_t,uint16_t> >(m); break; case 14: rdu<pair<uint8_t,uint16_t> >(m); break; case 15: rdu<pair<string,uint16_t> >(m-6,false); break; case 16: rdu<tuple<3,uint16_t> >(m); break; case 17: rdu<array<uint8_t,5> >(m); break; case 18: rdu<bitset<40> >(m); break; case 19: rds<User>(m-4,false); break; case 20: rds<vector<User> >(m+2,false); break; case 21: rdu<vector<pair<uint8_t,uint16_t> > >(m,false); break; case 22: rdu<vector<tuple<2,uint16_t> > >(m); break; }
}
template <typename A, typename B> static void rd2 (size_t m)
{
    size_t n = sym_pick (0,m,"n"); exact blk (n); junk (blk.p,n); istream is (blk.p,n); is.exceptions (0); A a; B b; bool threw = false; try { is >> a; is >> b; } catch (...) { threw = true; } CHECK(!threw, "no exception when off"); CHECK(is.pos() <= n, "cursor in the block"); OBS(is.pos()); OBS(is.good());
}
extern "C" void h_two (int c)
{
    switch (c) { case 0: rd2<string,string>(6); break; case 1: rd2<vector<uint8_t>,uint32_t>(10); break; case 2: rd2<memblock,vector<uint16_t> >(10); break; case 3: rd2<uint16_t,vector<uint8_t> >(10); break; case 4: rd2<string,vector<string> >(8); break; case 5: rd2<bitset<33>,string>(10); break; }
}
extern "C" void h_raw (int c)
{
    size_t n = sym_pick (0,c == 6 ? 5 : 8,"n"), st = sym_pick (0,n,"start"); exact blk (n); junk (blk.p,n); istream is (blk.p,n); is.skip (st); bool ex = sym_bool ("exceptions"), threw = false; if (!ex) is.exceptions (0); size_t left = n - st; static char buf [16]; memset (buf, 'Z', sizeof buf); bool ok = true;
    switch (c) {
	case 0: { uint64_t k = sym_u64 ("count"); bool fits = k <= left; if (fits) k = sym_concretize (k); try { is.read (buf, k); } catch (...) { threw = true; } CHECK((!threw && is.good()) == fits, "read fails exactly when short"); CHECK(is.pos() == (fits ? st+k : st), "cursor"); size_t w = fits ? k : 0; for (size_t i = 0; i < 16; ++i) ok &= buf[i] == (i < w ? blk.p[st+i] : 'Z'); CHECK(ok, "bytes"); } break;
	case 1: { size_t k = sym_pick (0,9,"count"), r = 0; try { r = is.readsome (buf, k); } catch (...) { threw = true; } size_t x = k < left ? k : left; CHECK(threw == (ex && k > left), "reports the shortage"); if (!threw) CHECK(r == x, "what is there"); else x = 0; CHECK(is.pos() == st+x, "cursor"); for (size_t i = 0; i < 16; ++i) ok &= buf[i] == (i < x ? blk.p[st+i] : 'Z'); CHECK(ok, "bytes"); } break;
	case 2: { string s ("old"); try { is.read_strz (s); } catch (...) { threw = true; } size_t z = st; while (z < n && blk.p[z]) ++z; bool has = z < n; CHECK((!threw && is.good()) == has, "fails exactly without a terminator"); if (has) { CHECK(s.size() == z-st && !memcmp (s.begin(), blk.p+st, z-st), "text"); CHECK(is.pos() == z+1, "cursor"); } else CHECK(is.pos() <= n, "cursor in the block"); CHECK(!s.c_str()[s.size()], "terminated"); } break;
	case 3: { size_t cap = sym_pick (0,3,"capacity"); exact d (cap); memset (d.p,'Z',cap); memlink m (d.p,cap); try { is >> m; } catch (...) { threw = true; } CHECK(is.pos() <= n && m.size() <= cap && m.begin() == d.p, "in the block"); if (!threw && is.good()) { CHECK(is.pos()-st == Align(4+m.size(),4) || st % 4, "consumed"); CHECK(!memcmp (d.p, blk.p+st+4, m.size()), "bytes"); for (size_t i = m.size(); i < cap; ++i) ok &= d.p[i] == 'Z'; CHECK(ok, "no more"); } else CHECK(threw || is.fail(), "reported"); } break;
	case 4: { size_t cap = sym_pick (0,5,"capacity"); exact d (cap); memlink m (d.p,cap); try { is.read (m); } catch (...) { threw = true; } CHECK((!threw && is.good()) == (cap <= left), "fails exactly when short"); if (!threw && is.good()) CHECK(!memcmp (d.p, blk.p+st, cap) && is.pos() == st+cap, "bytes"); } break;
	case 5: { size_t k = 0; try { istream_iterator<uint16_t> i (is), e; for (; k < 6 && !(i == e); ++i, ++k) { uint16_t v, x; v = *i; memcpy (&x, blk.p+st+2*k, 2); ok &= v == x; } } catch (...) { threw = true; } CHECK(ok, "values in order"); CHECK(threw == ex, "throws at the end when on"); if (!ex) CHECK(k == left/2, "every whole value"); CHECK(is.pos() == st+left/2*2, "cursor"); } break;
	case 6: { size_t k = 0; try { utf8istream_iterator i (utf8in (is)); for (; k < 9; ++i, ++k) { wchar_t v = *i; OBS(v); } } catch (...) { threw = true; } CHECK(is.pos() <= n, "cursor in the block"); OBS(k); OBS(is.pos()); } break;
	case 7: { uint64_t k = sym_u64 ("count"); try { is.skip (k); } catch (...) { threw = true; } bool fits = k <= left; CHECK((!threw && is.good()) == fits, "skip fails exactly when short"); CHECK(is.pos() == (fits ? st+k : st), "cursor"); CHECK(!(fits && threw), "no throw"); } break;
    }
    CHECK(ex || !threw || c == 3, "no exception when off"); OBS(threw); OBS(is.rdstate());
}
template <typename T> static void wr (size_t m)
{
    T v; fillv (v,m); size_t n = stream_size_of (v), b = sym_pick (0, n, "room"); exact blk (b); ostream os (blk.p, b); bool ex = sym_bool ("exceptions"), threw = false; if (!ex) os.exceptions (0);
    try { os << v; } catch (...) { threw = true; } CHECK(os.pos() <= b, "cursor in the block"); CHECK((!threw && os.good()) == (b == n), "refused exactly when short"); CHECK(ex || !threw, "no exception when off"); CHECK(!ex || threw == !os.good(), "exception when on"); OBS(os.rdstate());
}
extern "C" void h_short (int c)
{
    size_t m = c < 17 ? 2 : 3;
    switch (c % 17) { case 0: wr<uint8_t>(m); wr<uint16_t>(m); break; case 1: wr<uint32_t>(m); wr<uint64_t>(m); break; case 2: wr<double>(m); wr<bool>(m); wr<Color>(m); break; case 3: wr<Raw>(m); break; case 4: wr<string>(m+2); break; case 5: wr<memblock>(m+2); break; case 6: wr<vector<uint8_t> >(m+2); break; case 7: wr<vector<uint16_t> >(m+1); break; case 8: wr<vector<uint64_t> >(m); break; case 9: wr<vector<string> >(m); break; case 10: wr<vector<vector<uint8_t> > >(m); break; case 11: wr<map<uint8_t,uint16_t> >(m); break; case 12: wr<set<uint8_t> >(m); break; case 13: wr<pair<uint8_t,uint32_t> >(m); wr<pair<uint32_t,string> >(m); break; case 14: wr<User>(m); break; case 15: wr<bitset<40> >(m); wr<tuple<3,uint16_t> >(m); break; case 16: wr<list<uint16_t> >(m); wr<array<uint8_t,3> >(m); break; }
}
extern "C" void h_wraw (int c)
{
    size_t n = sym_pick (0,6,"n"), st = sym_pick (0,n,"start"); exact blk (n); memset (blk.p,'Z',n); ostream os (blk.p,n); os.skip (st); bool ex = sym_bool ("exceptions"), threw = false; if (!ex) os.exceptions (0); size_t left = n - st; bool ok = true; static char src [16]; junk (src, 8);
    switch (c) {
	case 0: { uint64_t k = sym_u64 ("count"); bool fits = k <= left; if (fits) k = sym_concretize (k); try { os.write (src, k); } catch (...) { threw = true; } CHECK((!threw && os.good()) == fits, "write fails exactly when short"); CHECK(os.pos() == (fits ? st+k : st), "cursor"); size_t w = fits ? k : 0; for (size_t i = 0; i < n; ++i) ok &= blk.p[i] == (i >= st && i < st+w ? src[i-st] : 'Z'); CHECK(ok, "bytes"); } break;
	case 1: { size_t k = sym_pick (0,5,"len"); src[k] = 0; for (size_t i = 0; i < k; ++i) sym_assume (src[i] != 0); try { os.write_strz (src); } catch (...) { threw = true; } bool fits = k+1 <= left; CHECK((!threw && os.good()) == fits, "fails exactly when short"); CHECK(os.pos() == (fits ? st+k+1 : st), "cursor"); if (fits) CHECK(!memcmp (blk.p+st, src, k+1), "bytes"); } break;
	case 2: { size_t g = 1u << sym_pick (0,4,"grain"), a = (st+g-1)/g*g; try { os.align (g); } catch (...) { threw = true; } bool fits = a <= n; CHECK((!threw && os.good()) == fits, "align fails exactly when short"); CHECK(os.pos() == (fits ? a : st), "cursor"); for (size_t i = 0; i < n; ++i) ok &= blk.p[i] == (fits && i >= st && i < a ? 0 : 'Z'); CHECK(ok, "padding is zero"); } break;
	case 3: { uint64_t k = sym_u64 ("count"); try { os.skip (k); } catch (...) { threw = true; } bool fits = k <= left; CHECK((!threw && os.good()) == fits, "skip fails exactly when short"); CHECK(os.pos() == (fits ? st+k : st), "cursor"); } break;
	case 4: { ostream_iterator<uint16_t> o (os); size_t k = 0; try { for (; k < 4; ++k, ++o) { uint16_t v; memcpy (&v, src+2*k, 2); *o = v; } } catch (...) { threw = true; } size_t w = left/2 < 4 ? left/2 : 4; CHECK(threw == (ex && w < 4), "refused when full"); CHECK(os.pos() == st+2*w, "cursor"); CHECK(!memcmp (blk.p+st, src, 2*w), "values"); } break;
	case 5: { wchar_t v = (wchar_t) sym_range (0, 0x7fffffff, "code point"); size_t k = Utf8Bytes (v); try { *utf8out (os) = v; } catch (...) { threw = true; } CHECK((!threw && os.good()) == (k <= left), "refused when short"); CHECK(os.pos() <= n, "cursor in the block"); } break;
    }
    CHECK(ex || !threw, "no exception when off"); OBS(threw); OBS(os.rdstate());
}
