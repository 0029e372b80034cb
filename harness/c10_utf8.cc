//@ property=C10
//@ oracle="the UTF-8 bit layout table of utf8.h, written as a formula"
//@ entry=h_point cases=0 reach=seven bound="every 32 bit code point: encoded bytes, byte counts, decoding back, lead byte length"
//@ entry=h_lead cases=0 bound="Utf8SequenceBytes of every byte"
//@ entry=h_text cases=0-3 tcases=4 bound="strings of 0-3 (thorough 4) code points of 31 bits: forward iteration, positions, length, wiat, += and -"
//@ entry=h_str cases=0-2 bound="building a string by push_back, append and operator+= of wide characters and reading it back, 0-2 code points"
//@ entry=h_bytes cases=0 bound="decoding any 0-4 bytes followed by a NUL (malformed included) terminates and reads nothing past the NUL"
//@ entry=h_measure cases=0 bound="Utf8Bytes of ranges of 0-3 code points"
//@ outside="positions (base) within malformed text, which utf8.h declares undefined"
#include "hx.h"
#include "ustring.h"
#include "uvector.h"
#include "utf8.h"
static size_t layout (uint32_t v, uint8_t* o)
{
    if (v < 0x80) { o[0] = uint8_t(v); return 1; }
    static const uint8_t H[] = {0,0,0xc0,0xe0,0xf0,0xf8,0xfc,0xfe}; size_t n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : v < 0x80000000u ? 6 : 7;
    uint64_t w = v; for (size_t i = n; --i;) { o[i] = uint8_t(0x80 | (w & 0x3f)); w >>= 6; } o[0] = uint8_t(H[n] | w); return n;
}
extern "C" void h_point (int)
{
    uint32_t v = sym_u32("v"); uint8_t e[8]; size_t n = layout(v,e); exact x (n+1); char* p = x.p; p[n] = 0;
    CHECK(Utf8Bytes(wchar_t(v)) == n, "bytes of the code point"); utf8out_iterator<char*> o (p); *o = wchar_t(v); CHECK(o.base() == p+n, "bytes written"); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= uint8_t(p[i]) == e[i]; CHECK(ok, "encoding");
    CHECK(Utf8SequenceBytes((uint8_t) p[0]) == n, "length from the lead byte"); utf8in_iterator<const char*> i (p); CHECK(uint32_t(*i) == v, "decoding"); CHECK(i.base() == p, "position"); ++i; CHECK(*i == 0 && i.base() == p+n, "bytes consumed"); if (n == 7) sym_reach("seven"); OBS(n);
}
extern "C" void h_lead (int)
{
    uint8_t b = sym_u8("b"); size_t n = Utf8SequenceBytes(b), e = b < 0xc0 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : b < 0xfc ? 5 : b < 0xfe ? 6 : b < 0xff ? 7 : 8; CHECK(n == e, "sequence bytes"); OBS(n);
}
static uint32_t point (bool lim) { uint32_t v = uint32_t(sym_bits(31,"v")); if (lim) sym_assume((v < 0x20) | ((v >= 0x700) & (v < 0x900)) | ((v >= 0xfff0) & (v < 0x10010))); return v; }
extern "C" void h_text (int c)
{
    size_t n = c; uint32_t v[5]; size_t at[6]; string s; at[0] = 0; for (size_t i = 0; i < n; ++i) { v[i] = point(i > 0); uint8_t e[8]; size_t l = layout(v[i],e); for (size_t j = 0; j < l; ++j) s.push_back(char(e[j])); at[i+1] = at[i]+l; }
    CHECK(s.length() == n, "length in characters"); string::utf8_iterator i (s.utf8_begin()), e (s.utf8_end()); size_t k = 0; bool ok = true; for (; i < e && k < n; ++i, ++k) { ok &= uint32_t(*i) == v[k]; ok &= i.base() == s.begin()+at[k]; } CHECK(ok, "characters and positions"); CHECK(k == n && !(i < e) && i == e && i.base() == s.end(), "all visited");
    k = sym_pick(0,n,"k"); CHECK(s.wiat(k) == s.begin()+at[k] && const_cast<const string&>(s).wiat(k) == s.begin()+at[k], "byte position of a character"); string::utf8_iterator a (s.utf8_begin()); string::utf8_iterator b (a + k); CHECK(b.base() == s.begin()+at[k] && size_t(b - a) == k, "advance and distance"); a += k; CHECK(a == b, "+="); if (k < n) { string::utf8_iterator d (b++); CHECK(uint32_t(*d) == v[k] && b.base() == s.begin()+at[k+1], "postincrement"); }
    vector<wchar_t> w; copy (s.utf8_begin(), s.utf8_end(), back_inserter(w)); ok = w.size() == n; for (size_t j = 0; j < n && j < w.size(); ++j) ok &= uint32_t(w[j]) == v[j]; CHECK(ok, "copied characters"); string t; copy (w.begin(), w.end(), utf8out(back_inserter(t))); CHECK(t == s, "copied back"); OBS(s.size());
}
extern "C" void h_str (int c)
{
    size_t n = sym_pick(0,2,"n"); uint32_t v[2]; string s; for (size_t i = 0; i < n; ++i) { v[i] = point(i > 0); sym_assume(v[i] != 0); if (c == 0) s.push_back(wchar_t(v[i])); else if (c == 1) s += wchar_t(v[i]); else s.append(1,wchar_t(v[i])); }
    size_t k = 0; bool ok = true; for (string::utf8_iterator i (s.utf8_begin()), e (s.utf8_end()); i < e && k < n; ++i, ++k) ok &= uint32_t(*i) == v[k]; CHECK(ok & (k == n) & (s.length() == n), "code points come back"); CHECK(!s.c_str()[s.size()], "terminated"); OBS(k);
}
extern "C" void h_bytes (int)
{
    size_t n = sym_pick(0,4,"n"); exact x (n+1); for (size_t i = 0; i < n; ++i) x.p[i] = (char) sym_u8("b"); x.p[n] = 0; string s; s.link(x.p,n); size_t k = 0; for (string::utf8_iterator i (s.utf8_begin()), e (s.utf8_end()); i < e; ++i) ++k; CHECK(k <= n, "no more characters than bytes"); CHECK(s.length() <= n, "length"); OBS(k);
}
extern "C" void h_measure (int)
{
    size_t n = sym_pick(0,3,"n"), e = 0; wchar_t w[3]; for (size_t i = 0; i < n; ++i) { uint32_t v = point(i > 0); w[i] = wchar_t(v); uint8_t t[8]; e += layout(v,t); } CHECK(Utf8Bytes((const wchar_t*) w,(const wchar_t*) w+n) == e, "bytes of a range"); OBS(e);
}
