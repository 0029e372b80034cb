//@ property=C11
//@ oracle="the value written; block of exactly stream_size bytes, so that one byte more is refused and one less is seen"
//@ entry=h_scalar cases=0-14 bound="every integer width, floats, bool, char types, CAST_STREAMABLE enum, INTEGRAL_STREAMABLE struct, all values, at block addresses 0, 1, 4 modulo 8 and start positions 0 and 8"
//@ entry=h_ctr cases=0-19 tcases=20-39 bound="vector, list, set, multiset, map, multimap, string, memblock, pair, tuple, array, bitset, nested and user types: containers of 0-3 (thorough 4) elements, nested 0-2, all contents, at every block address alignment and start positions 0, 4 and 8"
//@ entry=h_seq cases=0-1 bound="sequences of 3 values of different alignment with ios::align, talign and skip between them"
//@ entry=h_grain cases=0 bound="long4grain and ptr4grain at 4 byte positions"
//@ outside="8 byte elements from positions that are not a multiple of 8 (istream documentation: align manually); blocks over 4 GB"
#include "strm.h"
template <typename T> static void rt (size_t m, size_t start, size_t at)
{
    T a; fillv (a,m); size_t n = stream_size_of (a); exact blk (at + start + n); char* base = blk.p + at; for (size_t i = 0; i < at + start; ++i) blk.p[i] = 'Z';
    ostream os (base, start+n); os.skip (start); bool threw = false; try { os << a; } catch (...) { threw = true; } CHECK(!threw, "stream_size is enough"); CHECK(os.good() && os.pos() == start+n && !os.remaining(), "exactly stream_size bytes are written");
    istream is (base, start+n); is.skip (start); T b; if (sym_bool("used")) fillv (b,1); try { is >> b; } catch (...) { threw = true; } CHECK(!threw && is.good(), "readable"); CHECK(is.pos() == start+n, "exactly the written bytes are read"); CHECK(eqv (a,b), "value comes back"); CHECK(stream_size_of (b) == n, "same stream size"); bool ok = true; for (size_t i = 0; i < at + start; ++i) ok &= blk.p[i] == 'Z'; CHECK(ok, "bytes before are kept"); OBS(n);
}
extern "C" void h_scalar (int c)
{
    size_t start = sym_pick(0,1,"start")*8; static const size_t AT[] = {0,1,4}; size_t at = AT[sym_pick(0,2,"at")];
    switch (c) { case 0: rt<uint8_t>(0,start,at); break; case 1: rt<char>(0,start,at); break; case 2: rt<int8_t>(0,start,at); break; case 3: rt<uint16_t>(0,start,at); break; case 4: rt<int16_t>(0,start,at); break; case 5: rt<uint32_t>(0,start,at); break; case 6: rt<int>(0,start,at); break; case 7: rt<unsigned long>(0,start,at); break; case 8: rt<long>(0,start,at); break; case 9: rt<unsigned long long>(0,start,at); break; case 10: rt<float>(0,start,at); break; case 11: rt<double>(0,start,at); break; case 12: rt<bool>(0,start,at); break; case 13: rt<Color>(0,start,at); break; case 14: rt<Raw>(0,start,at); rt<wchar_t>(0,start,at); break; }
}
extern "C" void h_ctr (int c)
{
    static const size_t AT[] = {0,1,4,7}, ST[] = {0,4,8}; size_t at = AT[sym_pick(0,3,"at")], st = ST[sym_pick(0,2,"start")], z = st == 4 ? 8 : st, m = c < 20 ? 3 : 4;
    switch (c % 20) { case 0: rt<string>(m+2,st,at); break; case 1: rt<memblock>(m+2,st,at); break; case 2: rt<vector<uint8_t> >(m+2,st,at); break; case 3: rt<vector<uint16_t> >(m+1,st,at); break; case 4: rt<vector<uint32_t> >(m,st,at); rt<vector<uint64_t> >(m,z,at); break; case 5: rt<vector<string> >(m-1,st,at); break; case 6: rt<vector<vector<uint8_t> > >(m-1,st,at); break; case 7: rt<list<uint16_t> >(m,st,at); rt<list<string> >(2,st,at); break; case 8: rt<set<uint8_t> >(m-1,st,at); break; case 9: rt<multiset<uint16_t> >(m-1,st,at); break; case 10: rt<map<uint8_t,uint32_t> >(m-1,st,at); break; case 11: rt<map<string,string> >(m-1,st,at); break; case 12: rt<multimap<uint8_t,uint16_t> >(m-1,st,at); break; case 13: rt<pair<uint8_t,uint16_t> >(m,st,at); rt<pair<uint32_t,uint8_t> >(m,st,at); rt<pair<uint16_t,uint32_t> >(m,st,at); rt<pair<double,uint8_t> >(m,z,at); break; case 14: rt<pair<string,uint16_t> >(m,st,at); rt<pair<uint32_t,string> >(m,st,at); rt<pair<string,vector<uint16_t> > >(2,st,at); break; case 15: rt<tuple<3,uint16_t> >(m,st,at); rt<tuple<2,uint32_t> >(m,st,at); rt<array<uint8_t,5> >(m,st,at); rt<array<string,2> >(2,st,at); break; case 16: rt<bitset<7> >(m,st,at); rt<bitset<32> >(m,st,at); rt<bitset<40> >(m,st,at); rt<bitset<96> >(m,st,at); break; case 17: rt<User>(m-1,st,at); break; case 18: rt<vector<pair<uint8_t,uint16_t> > >(m-1,st,at); rt<vector<tuple<2,uint16_t> > >(m-1,st,at); rt<vector<bool> >(m,st,at); break; case 19: rt<vector<User> >(1,st,at); rt<map<uint16_t,vector<uint8_t> > >(m-1,st,at); break; }
}
extern "C" void h_seq (int c)
{
    exact blk (64); memset (blk.p, 'Z', 64); ostream os (blk.p,64); uint8_t a; uint16_t b; uint32_t d; uint64_t e; string s; fillv(a,0); fillv(b,0); fillv(d,0); fillv(e,0); fillv(s,3); size_t k = sym_pick(0,3,"skip");
    if (!c) os << a << ios::talign<uint16_t>() << b << ios::align(4) << d << ios::talign<uint64_t>() << e << s << ios::align() << a; else os << s << ios::align(4) << d << ios::skip(k) << a << ios::align(2) << b << ios::align(8) << e;
    size_t n = os.pos(), sl = s.size(), x = !c ? 16+Align(1+sl,8)+1 : Align(Align(Align(1+sl,4)+4+k+1,2)+2,8)+8; CHECK(n == x, "positions"); istream is (os); CHECK(is.size() == n && !is.pos(), "reader of what was written"); uint8_t a2, a3; uint16_t b2; uint32_t d2; uint64_t e2; string s2;
    if (!c) { is >> a2 >> ios::talign<uint16_t>() >> b2 >> ios::align(4) >> d2 >> ios::talign<uint64_t>() >> e2 >> s2 >> ios::align() >> a3; CHECK(a3 == a, "last"); } else is >> s2 >> ios::align(4) >> d2 >> ios::skip(k) >> a2 >> ios::align(2) >> b2 >> ios::align(8) >> e2;
    CHECK((a == a2) & (b == b2) & (d == d2) & (e == e2) & (s == s2), "values"); CHECK(is.pos() == n, "all consumed"); OBS(n);
}
extern "C" void h_grain (int)
{
    exact blk (24); ostream os (blk.p,24); unsigned long a = sym_u64("a"), a2; char* p = blk.p; char* p2; uint32_t d = sym_u32("d"), d2; os << d << long4grain(a) << ptr4grain(p) << d; CHECK(os.pos() == 24 && stream_size_of(long4grain(a)) == 8, "sizes"); istream is (os); is >> d2 >> long4grain(a2) >> ptr4grain(p2) >> d2; CHECK((a == a2) & (p == p2) & (d == d2), "values"); OBS(a2);
}
