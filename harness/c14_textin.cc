//@ property=C14
//@ oracle="a reference tokenizer over the text; for numbers the C library's conversion of a terminated copy"
//@ entry=h_word cases=0-4 tcases=10-14 bound="two words or characters read from every text of 0-4 (thorough 5) arbitrary bytes: default, custom, empty and full delimiter sets, quotes and escapes"
//@ entry=h_int cases=0-9 tcases=20-29 bound="every integer type from every text of 0-3 (thorough 4) arbitrary bytes, plain, hex and oct, default and custom delimiters"
//@ entry=h_digits cases=0-3 bound="decimal numbers around and up to the limits of int, unsigned, long, unsigned long and long long, three digits arbitrary"
//@ entry=h_bool cases=0-2 bound="every text of 0-3 arbitrary bytes, true and false with one arbitrary letter and 0-2 arbitrary bytes after, and texts continuing true and false with 0-12 NULs"
//@ entry=h_wchar cases=0 tcases=1 bound="every text of 0-4 (thorough 7) arbitrary bytes"
//@ entry=h_float cases=0-1 bound="decimal fractions from a table, with and without text following, into float and double"
//@ entry=h_line cases=0-8 tcases=10-18 bound="histories of 3 of get, getline, read, ignore, peek, unget, seekg on texts of 0-4 (thorough 5) arbitrary bytes, every small count, any delimiter byte"
//@ entry=h_mix cases=0 bound="a word, a number, a character and the rest of the line in sequence from texts of 0-4 arbitrary bytes"
//@ entry=h_iter cases=0 bound="str, link, sync, tellg; all texts of 0-4 bytes"
//@ outside="texts over the bound; long double; locale; istream_iterator over text streams at the end of input"
#include "hx.h"
#include "sistream.h"
#include <string.h>
#include <stdlib.h>
#include <limits.h>
struct Text { char t [24]; size_t n, pos; const char* d; bool eof; };
static bool isd (const Text& x, char c) { size_t l = strlen (x.d); if (l > 15) l = 15; bool r = l < 15 && !c; for (size_t i = 0; i < l; ++i) r |= c == x.d[i]; return r; }
static bool skipd (Text& x) { while (x.pos < x.n && isd (x, x.t[x.pos])) ++x.pos; if (x.pos == x.n) x.eof = true; return !x.eof; }
static const char* const DELIMS[] = { " \t\n\r;:,.?", ",", "", "abcdefghijklmno", "abcdefghijklmnopq" };
static size_t word (Text& x, char* o)	// the reference
{
    size_t l = 0; if (!skipd (x)) return 0; char q = 0, c = x.t[x.pos++]; bool esc = false; if ((c == '\"') | (c == '\'')) q = c; else { o[l++] = c; esc = c == '\\'; }
    while (x.pos < x.n) {
	c = x.t[x.pos++]; if (!q && isd (x,c)) return l;
	if (esc) { esc = false; switch (c) { case 't': c = 9; break; case 'n': c = 10; break; case 'r': c = 13; break; case 'b': c = 8; break; case 'E': c = 27; break; } o[l-1] = c; }
	else { if (q && c == q) return l; o[l++] = c; esc = c == '\\'; }
    } x.eof = true; return l;
}
#define TEXT(maxn, di) Text x; x.n = sym_pick (0,maxn,"n"); x.pos = 0; x.eof = false; x.d = DELIMS[di]; exact blk (x.n); for (size_t i = 0; i < x.n; ++i) x.t[i] = blk.p[i] = (char) sym_u8("x"); istringstream is (blk.p, x.n); if (di) is.set_delimiters (DELIMS[di]);
#define STATE(who) CHECK(is.pos() == x.pos, who ": cursor"); CHECK(is.eof() == x.eof && is.fail() == x.eof, who ": state");
extern "C" void h_word (int c)
{
    TEXT((c < 10 ? 4 : 5), c % 10) if (c % 10 >= 3) for (size_t i = 0; i < x.n; ++i) sym_assume (blk.p[i] != 0);
    for (unsigned j = 0; j < 2; ++j) {
	if (sym_bool ("word")) { string s ("old"); char o [16]; size_t l = word (x,o); is >> s; CHECK(s.size() == l && !memcmp (s.begin(), o, l), "word"); CHECK(!*s.end(), "terminated"); }
	else { char v = 1, r = 0; if (skipd (x)) r = x.t[x.pos++]; if (j) is >> v; else { unsigned char u = 1; is >> u; v = u; } CHECK(v == r, "character"); }
	STATE("token"); is.clear(); x.eof = false;
    } OBS(is.pos());
}
template <typename T, typename C> static T conv (const char* s, char** e, int base);
template <> int conv<int,long> (const char* s, char** e, int b) { return (int) strtol (s,e,b); }
template <typename T> static void num (Text& x, istringstream& is, int base)
{
    T v = 1, r = 0; char *e; bool tok = skipd (x); if (tok) { x.t[x.n] = 0; const char* s = x.t + x.pos; if (T(-1) > T(0) && sizeof(T) == 8) r = (T) strtoul (s,&e,base); else r = (T) strtol (s,&e,base); x.pos += e - s; x.eof = x.pos == x.n; }
    is >> v; CHECK(v == r, "number"); STATE("number"); OBS(v);
}
static void num1 (unsigned c, Text& x, istringstream& is, int base)
{ switch (c) { case 0: num<int> (x,is,base); break; case 1: num<unsigned> (x,is,base); break; case 2: num<short> (x,is,base); break; case 3: num<unsigned short> (x,is,base); break; case 4: num<long> (x,is,base); break; case 5: num<unsigned long> (x,is,base); break; case 6: num<long long> (x,is,base); break; case 7: num<unsigned long long> (x,is,base); break; } }
extern "C" void h_int (int c)
{
    unsigned k = c % 20; TEXT((c < 20 ? 3 : 4), (k >= 8 ? k-7 : 0)) int base = 0; switch (sym_pick (0,2,"base")) { case 1: is.setf (ios_base::hex); base = 16; break; case 2: is.setf (ios_base::oct); base = 8; break; } num1 (k < 8 ? k : 0, x, is, base);
}
extern "C" void h_digits (int c)
{
    static const char* const P[4][3] = { {"2147483","1999999","214748"}, {"4294967","2147483","429496"}, {"9223372036854775","1000000000000000","92233720368547"}, {"18446744073709551","9223372036854775","1234567890123456"} };
    Text x; bool neg = c % 2 == 0 && sym_bool ("neg"); const char* p = P[c][sym_pick (0,2,"prefix")]; x.n = 0; if (neg) x.t[x.n++] = '-'; uint64_t m = 0; for (; *p; ++p) { x.t[x.n++] = *p; m = m*10 + (*p - '0'); } uint64_t l = sym_range (0,999,"last three"); for (unsigned k = 100; k; k /= 10) x.t[x.n++] = '0' + l / k % 10; x.pos = 0; x.eof = false; x.d = DELIMS[0]; exact blk (x.n); memcpy (blk.p, x.t, x.n);
    const uint64_t mx[] = { (1ull<<31)-1+neg, ~0u, (1ull<<63)-1+neg, ~0ull }; sym_assume (m <= (mx[c]-l)/1000); if (m == mx[c]/1000) sym_assume (l <= mx[c]%1000); m = m*1000 + l; istringstream is (blk.p, x.n); x.pos = x.n; x.eof = true; uint64_t r = neg ? 0-m : m;
    switch (c) {
	case 0: { int v; is >> v; CHECK(v == (int) r, "int"); STATE("int"); } break;
	case 1: { unsigned v; is >> v; CHECK(v == (unsigned) r, "unsigned"); STATE("unsigned"); } break;
	case 2: { long v; is >> v; CHECK(v == (long) r, "long"); STATE("long"); istringstream is2 (blk.p,x.n); long long w; is2 >> w; CHECK(v == w, "long long"); } break;
	case 3: { unsigned long v; is >> v; CHECK(v == r, "unsigned long"); STATE("unsigned long"); istringstream is2 (blk.p,x.n); unsigned long long w; is2 >> w; CHECK(v == w, "unsigned long long"); } break;
    }
}
extern "C" void h_bool (int c)
{
    Text x; if (!c) { x.n = sym_pick (0,3,"n"); for (size_t i = 0; i < x.n; ++i) x.t[i] = (char) sym_u8("x"); } else if (c == 2) { strcpy (x.t, sym_bool ("true") ? " true" : " false"); x.n = strlen (x.t); x.t[sym_pick (1,x.n-1,"at")] = (char) sym_u8("x"); for (size_t k = sym_pick (0,2,"more"); k; --k) x.t[x.n++] = (char) sym_u8("y"); } else { size_t k = sym_pick (0,12,"nul"); bool t = sym_bool ("true"); memset (x.t,0,sizeof x.t); strcpy (x.t, t ? "true" : "false"); x.n = 5-t+k; }
    x.pos = 0; x.eof = false; x.d = DELIMS[0]; exact blk (x.n); memcpy (blk.p, x.t, x.n); istringstream is (blk.p, x.n);
    bool v = sym_bool ("old"), r = false; if (skipd (x)) { char f = x.t[x.pos++]; r = (f == 't') | (f == '1'); const char* w = r ? "true" : "false"; if (f == *w) for (size_t i = 1; w[i] && x.pos < x.n && x.t[x.pos] == w[i]; ++i) ++x.pos; }
    bool looked = x.pos == x.n; is >> v; CHECK(v == r, "value"); CHECK(is.pos() == x.pos, "bool: cursor"); CHECK(!x.eof || (is.eof() && is.fail()), "bool: state"); CHECK(looked || is.good(), "bool: good"); OBS(v);
}
extern "C" void h_wchar (int c)
{
    TEXT((c ? 7 : 4), 0) wchar_t v = 1; static const unsigned M[] = { 0,0x7f,0x1f,0xf,7,3,1,0 }; wchar_t r = 0; size_t n0; bool shrt = false, lead = false;
    if (skipd (x)) { unsigned char f = x.t[x.pos]; lead = (f < 0x80) | (f >= 0xc0); n0 = Utf8SequenceBytes (f); if (n0 > x.n - x.pos) shrt = true; else { unsigned u = f & M[n0]; for (size_t i = 1; i < n0; ++i) lead &= (x.t[x.pos+i] & 0xc0) == 0x80; for (size_t i = 1; i < n0; ++i) u = (u<<6) | (x.t[x.pos+i] & 0x3f); r = n0 > 6 ? 0 : u; if (n0 == 1) r = f; x.pos += n0; } }
    is >> v; CHECK(is.pos() == x.pos, "wchar: cursor"); CHECK((is.fail()) == (x.eof | shrt), "wchar: state"); if (!x.eof && !shrt && n0 <= 6 && lead) CHECK(v == r, "wchar: value"); OBS(is.pos());
}
extern "C" void h_float (int c)
{
    static const char* const V[] = { "0", "1", "-1", "1.5", "-2.25", "3e2", "1e-3", ".5", "5.", "+7", "123456.75", "-0", "inf", "1e", "1e+", "0x10", "1.5.5", "x", "1-2" }; static const char* const F[] = { "", " ", ",4", "z", " 2.5" };
    Text x; const char *a = V[sym_pick (0,18,"v")], *f = F[sym_pick (0,4,"f")]; strcpy (x.t, a); memcpy (x.t + strlen (x.t), f, strlen (f)+1); x.n = strlen (x.t); exact blk (x.n); memcpy (blk.p, x.t, x.n); istringstream is (blk.p, x.n); is.set_delimiters (" ,"); x.d = " ,"; x.pos = 0; x.eof = false; skipd (x); char* e; double r = strtod (x.t+x.pos, &e); x.pos = e - x.t; x.eof = x.pos == x.n;
    if (!c) { double v = 9; is >> v; CHECK(!memcmp (&v,&r,8), "double"); } else { float v = 9, rf = r; is >> v; CHECK(!memcmp (&v,&rf,4), "float"); } STATE("float"); OBS(is.pos());
}
extern "C" void h_line (int c)
{
    TEXT((c < 10 ? 4 : 5), 0) size_t gc = 0;
    for (unsigned j = 0; j < 3; ++j) {
	unsigned op = j ? sym_pick (0,8,"op") : c % 10; size_t left = x.n - x.pos, k; char d = 0, buf [8]; memset (buf,'Z',8); bool ok = true; is.clear(); x.eof = false;
	switch (op) {
	    case 0: { int v = is.get(); if (left) CHECK(v == (signed char) x.t[x.pos++], "get"); else { CHECK(v == EOF, "get at the end"); x.eof = true; } CHECK(is.gcount() == !!left, "gcount"); } break;
	    case 1: { k = sym_pick (1,6,"k"); d = (char) sym_u8 ("delim"); is.get (buf,k,d); size_t i = 0; while (i < k-1 && x.pos < x.n && x.t[x.pos] != d) { ok &= buf[i] == x.t[x.pos]; ++i; ++x.pos; } x.eof = i < k-1 && x.pos == x.n; CHECK(ok, "bytes"); CHECK(!buf[i] && is.gcount() == i, "terminated, counted"); for (++i; i < 8; ++i) ok &= buf[i] == 'Z'; CHECK(ok, "nothing beyond"); } break;
	    case 2: case 3: { d = (char) sym_u8 ("delim"); string s ("old"); if (op == 2) is.get (s,d); else is.getline (s,d); size_t i = 0; while (x.pos < x.n && x.t[x.pos] != d) { ok &= i < s.size() && s.c_str()[i] == x.t[x.pos]; ++i; ++x.pos; } x.eof = x.pos == x.n; CHECK(ok && s.size() == i, "text up to the delimiter"); bool x1 = op == 3 && x.pos < x.n; x.pos += x1; CHECK(is.gcount() == i+x1, "gcount"); } break;
	    case 4: { k = sym_pick (1,6,"k"); d = (char) sym_u8 ("delim"); is.getline (buf,k,d); size_t i = 0; while (i < k-1 && x.pos < x.n && x.t[x.pos] != d) { ok &= buf[i] == x.t[x.pos]; ++i; ++x.pos; } x.eof = i < k-1 && x.pos == x.n; CHECK(ok, "bytes"); CHECK(!buf[i], "terminated"); bool x1 = x.pos < x.n && x.t[x.pos] == d; x.pos += x1; CHECK(is.gcount() == i+x1, "gcount"); for (++i; i < 8; ++i) ok &= buf[i] == 'Z'; CHECK(ok, "nothing beyond"); } break;
	    case 5: { k = sym_pick (0,6,"k"); is.read (buf,k); size_t r = k < left ? k : left; for (size_t i = 0; i < 8; ++i) ok &= buf[i] == (i < r ? x.t[x.pos+i] : 'Z'); CHECK(ok, "exactly the bytes"); CHECK(is.gcount() == r, "gcount"); x.pos += r; x.eof = r < k; } break;
	    case 6: { k = sym_pick (0,6,"k"); d = (char) sym_u8 ("delim"); is.ignore (k,d); size_t i = 0; bool hit = false; while (i < k && x.pos < x.n && !hit) { hit = x.t[x.pos] == d; ++i; ++x.pos; } x.eof = i < k && !hit; CHECK(is.gcount() == i, "gcount"); } break;
	    case 7: { char v = is.peek(); if (left) CHECK(v == x.t[x.pos], "peek"); else x.eof = true; } break;
	    case 8: { if (sym_bool ("seek")) { k = sym_pick (0,x.n,"k"); is.seekg (k); x.pos = k; } else if (x.pos) { is.unget(); --x.pos; } } break;
	}
	STATE("op");
    } OBS(gc);
}
extern "C" void h_mix (int)
{
    TEXT(4, 0) string s; char o [16]; size_t l = word (x,o); is >> s; CHECK(s.size() == l && !memcmp (s.begin(),o,l), "word"); STATE("word"); is.clear(); x.eof = false; num<int> (x,is,0); is.clear(); x.eof = false; char v; char r = 0; if (skipd (x)) r = x.t[x.pos++]; is >> v; CHECK(v == r, "character"); STATE("character"); is.clear(); getline (is, s); size_t i = 0; bool ok = true; while (x.pos < x.n && x.t[x.pos] != '\n') { ok &= i < s.size() && s.c_str()[i] == x.t[x.pos]; ++i; ++x.pos; } CHECK(ok && s.size() == i, "rest of the line"); x.pos += x.pos < x.n; CHECK(is.pos() == x.pos, "cursor");
}
extern "C" void h_iter (int)
{
    TEXT(4, 0) CHECK(is.str().size() == x.n && is.str().begin() == blk.p, "str"); size_t k = sym_pick (0,x.n,"k"); is.seekg (k); CHECK(is.tellg() == (off_t) k, "tellg"); is.sync(); CHECK(is.pos() == x.n && is.good(), "sync"); string s ("ab c"); is.str (s); string w; is >> w; CHECK(w == "ab" && is.pos() == 3, "str(s)"); istringstream z ("q"); CHECK(z.size() == 1 && z.get() == 'q', "text"); istringstream e; CHECK(!e.size() && e.get() == EOF && e.eof(), "empty"); is.link (blk.p, x.n); CHECK(!is.pos() && is.size() == x.n, "link"); istringstream m (cmemlink (blk.p,x.n)); CHECK(m.size() == x.n && m.begin() == blk.p, "of link");
}
