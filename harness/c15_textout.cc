//@ property=C15
//@ oracle="the C library's snprintf with the format the flags denote, appended to a text model"
//@ entry=h_flags cases=0-7 tcases=10-17 bound="short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long: every 8-bit (thorough 16-bit) value at both ends of the type, each base, uppercase, showbase, showpos, left, widths 0, 1, 5, 12, 105, fill space and 0"
//@ entry=h_full cases=0-7 bound="every value of every integer type in decimal, hex and oct"
//@ entry=h_char cases=0-5 bound="char types, bool, wchar_t up to 2^31-1, strings, C strings, pointers, with a width set; all contents of 0-3 characters"
//@ entry=h_float cases=0-2 bound="12 values as float and double with fixed, scientific, precisions 0, 2, 7, 12, 105, widths 0, 9, 14"
//@ entry=h_room cases=0-6 bound="each kind of insertion when 0-12 bytes are used of an owned, string-made or linked buffer of 0-12 bytes, then 12 more"
//@ entry=h_hist cases=0-9 tcases=10-19 bound="histories of 3 (thorough 4) of write, put, string, number, format, flush, str, str(s), endl, seekp back on owned and linked buffers"
//@ entry=h_ctr cases=0-7 bound="vector, list, set, map, pair, tuple, array, bitset, memlink, streams, duration as text: 0-2 elements"
//@ trusted="the C library's vsnprintf, for which the engine runs its own implementation"
//@ outside="showpos and showbase of floating point; fill characters other than space and 0; long double; a width applied to strings and characters"
#include "strm.h"
#include "ustack.h"
#include <stdio.h>
typedef ios_base B;
static bool same (const string& s, const char* e, size_t n) { if (s.size() != n || !s.c_str()) return false; bool ok = !s.c_str()[n]; for (size_t i = 0; i < n; ++i) ok &= s.c_str()[i] == e[i]; return ok; }
static char* put2 (char* f, unsigned n) { if (n >= 100) *f++ = '0' + n/100; if (n >= 10) *f++ = '0' + n/10%10; *f++ = '0' + n%10; return f; }
struct Fmt { bool left, pos, base, zero; unsigned width; char conv; };
static void mkfmt (char* f, const Fmt& m, const char* len, int prec = -1)
{ *f++ = '%'; if (m.left) *f++ = '-'; if (m.pos) *f++ = '+'; if (m.base) *f++ = '#'; if (m.width) { if (m.zero) *f++ = '0'; f = put2 (f, m.width); } if (prec >= 0) { *f++ = '.'; f = put2 (f, prec); } while (*len) *f++ = *len++; *f++ = m.conv; *f = 0; }
template <typename T> static void ints (const char* len, T v, bool sgn, bool flags)
{
    static const unsigned W[] = { 0,1,5,12,105 }; Fmt m = { false,false,false,false,0,'d' }; ostringstream os; unsigned b = sym_pick (0,2,"base"); bool up = false;
    if (flags) { m.left = sym_bool ("left"); m.pos = sym_bool ("showpos"); m.base = sym_bool ("showbase"); m.zero = sym_bool ("zero"); m.width = W[sym_pick (0,4,"width")]; up = b == 1 && sym_bool ("upper"); }
    m.conv = b == 1 ? (up ? 'X' : 'x') : b == 2 ? 'o' : sgn ? 'd' : 'u'; if (!b) m.base = m.base; char f [16], ex [128]; Fmt r = m; if (!b) r.base = false; mkfmt (f, r, len); int l = snprintf (ex, sizeof ex, f, v);
    if (m.left) os.setf (B::left, B::adjustfield); if (m.pos) os.setf (B::showpos); if (m.base) os.setf (B::showbase); if (up) os.setf (B::uppercase); if (m.zero) os.fill ('0'); os.width (m.width); if (b) os.setf (b == 1 ? B::hex : B::oct, B::basefield); else if (flags && m.left) os << B::dec;
    os << v; CHECK(os.good() && os.pos() == size_t (l), "length"); CHECK(same (os.str(), ex, l), "text"); OBS(l);
}
template <typename T> static void xtrm (const char* len, int c, bool sgn) { unsigned k = c < 10 ? 0x80 : 0x8000; T lo = T(1) << (sizeof(T)*8-1), v = T(c < 10 ? sym_u8 ("v") : sym_u16 ("v")) - T(k); if (sym_bool ("extreme")) v += lo; ints<T> (len, v, sgn, true); }
extern "C" void h_flags (int c)
{ switch (c % 10) { case 0: xtrm<short>("h",c,true); break; case 1: xtrm<unsigned short>("h",c,false); break; case 2: xtrm<int>("",c,true); break; case 3: xtrm<unsigned>("",c,false); break; case 4: xtrm<long>("l",c,true); break; case 5: xtrm<unsigned long>("l",c,false); break; case 6: xtrm<long long>("ll",c,true); break; case 7: xtrm<unsigned long long>("ll",c,false); break; } }
extern "C" void h_full (int c)
{ uint64_t v = sym_u64 ("v"); switch (c) { case 0: ints<short>("h",v,true,false); break; case 1: ints<unsigned short>("h",v,false,false); break; case 2: ints<int>("",v,true,false); break; case 3: ints<unsigned>("",v,false,false); break; case 4: ints<long>("l",v,true,false); break; case 5: ints<unsigned long>("l",v,false,false); break; case 6: ints<long long>("ll",v,true,false); break; case 7: ints<unsigned long long>("ll",v,false,false); break; } }
extern "C" void h_char (int c)
{
    ostringstream os; if (sym_bool ("width")) { os.width (5); os.fill ('0'); } char ex [64]; int l = 0; os << 'a'; ex[l++] = 'a';
    switch (c) {
	case 0: { char v = (char) sym_u8 ("c"); os << v << (unsigned char) v << (signed char) v; ex[l++] = v; ex[l++] = v; ex[l++] = v; os.put (v); ex[l++] = v; } break;
	case 1: { bool v = sym_bool ("b"); os << v; const char* t = v ? "true" : "false"; while (*t) ex[l++] = *t++; } break;
	case 2: { uint32_t v = sym_range (0, 0x7fffffff, "v"); os << wchar_t (v); if (v < 0x80) ex[l++] = v; else { int n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; static const unsigned L[] = {0,0,0xc0,0xe0,0xf0,0xf8,0xfc}; ex[l++] = L[n] | (v >> (6*(n-1))); for (int i = n-2; i >= 0; --i) ex[l++] = 0x80 | ((v >> 6*i) & 0x3f); } } break;
	case 3: { size_t n = sym_pick (0,3,"n"); string s; for (size_t i = 0; i < n; ++i) { char v = (char) sym_u8 ("c"); s.push_back (v); ex[l++] = v; } os << s; } break;
	case 4: { size_t n = sym_pick (0,3,"n"); char t [4]; for (size_t i = 0; i < n; ++i) { t[i] = (char) sym_u8 ("c"); sym_assume (t[i] != 0); ex[l++] = t[i]; } t[n] = 0; if (sym_bool ("const")) os << (const char*) t; else os << t; os << "lit"; ex[l++] = 'l'; ex[l++] = 'i'; ex[l++] = 't'; } break;
	case 5: { os.width (0); uint64_t v = sym_u16 ("p"); os << (const void*) v; char n [24]; int k = snprintf (n, 24, "%lu", (unsigned long) v); for (int i = 0; i < k; ++i) ex[l++] = n[i]; os << B::hex << (const int*) v; k = snprintf (n, 24, "%lx", (unsigned long) v); for (int i = 0; i < k; ++i) ex[l++] = n[i]; } break;
    }
    CHECK(os.good() && os.pos() == size_t (l), "length"); CHECK(same (os.str(), ex, l), "text"); OBS(l);
}
extern "C" void h_float (int c)
{
    static const double D[] = { 0, 1, -1, 0.5, 3.14159265, -2.25e10, 1e-7, 123456789.125, -0.0, 1e30, 7.0/3, 99999999 }; static const unsigned P[] = { 0,2,7,12,105 }, W[] = { 0,9,14 }; double d = D[sym_pick (0,11,"d")]; float fl = d; unsigned p = P[sym_pick (0,4,"prec")]; Fmt m = { sym_bool ("left"),false,false,sym_bool ("zero"),W[sym_pick (0,2,"width")],'f' }; ostringstream os; int k = sym_pick (0,2,"format");
    if (m.left) os << B::left; if (m.zero) os << setfill ('0'); os << setw (m.width) << setprecision (p); if (k == 1) os << B::fixed; else if (k == 2) { os << B::scientific; m.conv = 'E'; } char f [24], ex [400]; mkfmt (f, m, "", p); int l = c == 1 ? snprintf (ex, sizeof ex, f, (double) fl) : snprintf (ex, sizeof ex, f, d); if (c == 1) os << fl; else os << d; CHECK(same (os.str(), ex, l), "text"); OBS(l);
}
static void text (string& m, const char* f, ...) { char t [64]; va_list a; va_start (a,f); int l = vsnprintf (t, sizeof t, f, a); va_end (a); for (int i = 0; i < l; ++i) m.push_back (t[i]); }
static void one (unsigned op, ostringstream& os, string& m)
{
    switch (op) {
	case 0: { size_t k = sym_pick (0,3,"k"); char t [3]; for (size_t i = 0; i < k; ++i) { t[i] = (char) sym_u8 ("t"); m.push_back (t[i]); } os.write (t, k); } break;
	case 1: { char v = (char) sym_u8 ("c"); os.put (v); m.push_back (v); } break;
	case 2: { string s ("hello"); os << s; for (char ch : s) m.push_back (ch); } break;
	case 3: { int v = (int8_t) sym_u8 ("v"); os << v; text (m, "%d", v); } break;
	case 4: { int r = os.format ("%s-%u", "fmt", 7u); CHECK(r == 5, "returned length"); text (m, "fmt-7"); } break;
	case 5: os << "abcdefghij"; text (m, "abcdefghij"); break;
	case 6: os << 1.5 << true; text (m, "1.50true"); break;
    }
}
static bool is_text (ostringstream& os, const string& m) { bool ok = os.pos() == m.size(); for (size_t i = 0; ok && i < m.size(); ++i) ok &= os.begin()[i] == m.c_str()[i]; return ok & os.good(); }
extern "C" void h_room (int c)
{
    unsigned kind = sym_pick (0,2,"buffer"); size_t n = kind ? sym_pick (0,12,"size") : 0, used = sym_pick (0, kind == 1 ? 12 : n, "used"); if (kind == 0) used = sym_pick (0,20,"used2"); exact blk (n); memset (blk.p,'Z',n); string m, init; for (size_t i = 0; kind == 1 && i < n; ++i) init.push_back ('i'); ostringstream own (init), lnk (blk.p, n); ostringstream& os = kind == 2 ? lnk : own;
    for (size_t i = 0; i < used; ++i) { os.put ((char)("a"[0]+i)); m.push_back ((char)("a"[0]+i)); } one (c, os, m); CHECK(is_text (os,m), "text"); if (sym_bool ("str")) CHECK(same (os.str(), m.c_str(), m.size()), "str"); for (size_t i = 0; i < 12; ++i) { os.put ((char)("A"[0]+i)); m.push_back ((char)("A"[0]+i)); } CHECK(is_text (os,m), "text after more"); CHECK(same (os.str(), m.c_str(), m.size()), "str after more"); OBS(os.pos());
}
extern "C" void h_hist (int c)
{
    bool linked = sym_bool ("linked"); size_t n = linked ? sym_pick (0,4,"n")*2 : 0; exact blk (n); ostringstream a, b (blk.p, n); ostringstream& os = linked ? b : a; string m;
    for (unsigned j = 0; j < (c < 10 ? 3u : 4u); ++j) { unsigned op = j ? sym_pick (0,9,"op") : c % 10; switch (op) {
	case 0: case 1: case 2: case 3: case 4: one (op, os, m); break;
	case 5: os.flush(); break;
	case 6: CHECK(same (os.str(), m.c_str(), m.size()), "str in between"); break;
	case 7: { string s; size_t k = sym_pick (0,2,"k"); for (size_t i = 0; i < k; ++i) s.push_back ((char) sym_u8 ("s")); os.str (s); m = s; } break;
	case 8: os << endl; m.push_back ('\n'); break;
	case 9: { size_t k = sym_pick (0, m.size() < 3 ? m.size() : 3, "back"); os.seekp (m.size()-k); m.resize (m.size()-k); } break;
	} CHECK(is_text (os,m), "text"); }
    CHECK(same (os.str(), m.c_str(), m.size()), "str"); OBS(os.pos());
}
extern "C" void h_ctr (int c)
{
    ostringstream os; string m; unsigned n = sym_pick (0,2,"n"); uint8_t v [3]; for (unsigned i = 0; i < 3; ++i) { v[i] = sym_range (0,12,"v"); }
    switch (c) {
	case 0: { vector<int> w; text (m,"("); for (unsigned i = 0; i < n; ++i) { w.push_back (v[i]); text (m, i ? ",%d" : "%d", v[i]); } text (m,")"); os << w; } break;
	case 1: { list<unsigned> w; text (m,"("); for (unsigned i = 0; i < n; ++i) { w.push_back (v[i]); text (m, i ? ",%u" : "%u", v[i]); } text (m,")"); os << w; } break;
	case 2: { set<unsigned short> w; text (m,"("); for (unsigned i = 0; i < n; ++i) { w.insert (i*13+v[i]); text (m, i ? ",%u" : "%u", i*13+v[i]); } text (m,")"); os << w; } break;
	case 3: { tuple<2,int> t (v[0],v[1]); os << t; text (m,"(%d,%d)",v[0],v[1]); array<short,3> a; for (unsigned i = 0; i < 3; ++i) a[i] = v[i]; os << a; text (m,"(%d,%d,%d)",v[0],v[1],v[2]); } break;
	case 4: { bitset<5> b (v[0]); os << b; for (int i = 4; i >= 0; --i) m.push_back ((v[0]>>i)&1 ? '1' : '0'); } break;
	case 5: { cmemlink l ("xyz",n); os << l; for (unsigned i = 0; i < n; ++i) m.push_back ("xyz"[i]); istream is ("pqr",3); is.skip (n); is.text_write (os); for (unsigned i = n; i < 3; ++i) m.push_back ("pqr"[i]); char t [3]; ostream ot (t,3); ot.write ("uvw",n); ot.text_write (os); for (unsigned i = 0; i < n; ++i) m.push_back ("uvw"[i]); } break;
	case 6: { os << chrono::seconds (v[0]) << chrono::milliseconds (v[1]) << chrono::hours (v[2]); text (m,"%d_s%d_ms%d_hours",v[0],v[1],v[2]); } break;
	case 7: { vector<string> w; text (m,"("); for (unsigned i = 0; i < n; ++i) { string s (v[i] % 3, 'q'); w.push_back (s); if (i) m.push_back (','); text (m,"%s",s.c_str()); } text (m,")"); os << w; } break;
    }
    CHECK(is_text (os,m), "text"); CHECK(same (os.str(), m.c_str(), m.size()), "str"); OBS(os.pos());
}
