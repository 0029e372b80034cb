//@ property=C26 wraps=backtrace,backtrace_symbols
//@ oracle="the arguments each exception was built from, text put together by hand"
//@ entry=h_describe cases=0-16 bound="each of the 15 exception types (and two more ways to build a system_error): name, text, format, default and custom info for every text of 0-3 characters (any nonzero byte) and every errno"
//@ entry=h_numbers cases=0-3 bound="bad_alloc and stream_bounds_exception: every number of 8 bits followed by 0 to 56 zeros or ones, one number at a time, decoded back from the message"
//@ entry=h_throw cases=0-16 bound="each type thrown and caught by its own type and by every base, then copied and copy assigned over another: texts of 0-2 characters"
//@ entry=h_stream cases=0-16 tcases=20-36 bound="each type with texts of 0-2 characters (file names of 0-2 and of about PATH_MAX) and backtraces of 0-2 frames with symbols of 0-1 (thorough 2) characters, written in exactly stream_size bytes and read into an exception with other contents; too short a stream"
//@ entry=h_trace cases=0 bound="backtraces of 0-2 frames with symbols in every form the C library gives (any file name and function name characters), or no symbols at all: printed, copied, assigned, serialized"
//@ entry=h_corrupt cases=0 bound="stored backtraces with any frame count and symbol size in a stream of 24 bytes"
//@ entry=h_bounds cases=0-2 bound="the exceptions thrown by reading or writing any size past the end of a stream, at any position"
//@ entry=h_code cases=0 bound="error_code and error_condition of every value: value, bool, comparisons, message, assignment, from errc"
//@ trusted="backtrace and backtrace_symbols are replaced by any frames and symbols; strerror is the C library's"
//@ outside="name demangling (off in this configuration); PATH_MAX and longer file names elsewhere than in h_stream; running out of memory while describing an error (C32)"
#include "hx.h"
#include "ustdxept.h"
#include "mistream.h"
#include "mostream.h"
#include "sostream.h"
#include "sistream.h"
#include <string.h>
#include <errno.h>
#include "uiosfunc.h"
//-- the C library's backtrace
static int nfr; static const char* syms [4]; static bool nosyms;
extern "C" int __wrap_backtrace (void** b, int n) { CHECK(n >= nfr, "room for frames"); for (int i = 0; i < nfr; ++i) b[i] = (void*)(0x1000ul*(i+1)); return nfr; }
extern "C" char** __wrap_backtrace_symbols (void* const* b, int n)
{
    if (nosyms) return nullptr;
    size_t sz = n*sizeof(char*)+1; for (int i = 0; i < n; ++i) { CHECK(b[i] == (void*)(0x1000ul*(i+1)), "addresses"); sz += strlen(syms[i])+1; }
    char** r = (char**) malloc (sz); char* p = (char*)(r+n); for (int i = 0; i < n; ++i) { r[i] = p; strcpy (p, syms[i]); p += strlen(p)+1; } return r;
}
//-- texts
struct Txt { char s [4]; size_t n; explicit Txt (size_t mx, const char* nm = "t") { n = sym_pick (0,mx,"len"); size_t i = 0; for (; i < n; ++i) { s[i] = sym_u8(nm); sym_assume (s[i] != 0); } for (; i < 4; ++i) s[i] = 0; } };
struct Msg { char s [8192]; size_t n; Msg (void) : n(0) {} Msg& operator+ (const char* t) { while (*t) s[n++] = *t++; return *this; } Msg& num (uint64_t v) { char t [24]; int k = 0; do t[k++] = '0'+v%10; while (v /= 10); while (k) s[n++] = t[--k]; return *this; } Msg& hex (uint64_t v) { char t [24]; int k = 0; do t[k++] = "0123456789ABCDEF"[v%16]; while (v /= 16); while (k) s[n++] = t[--k]; return *this; } };
static bool same (const char* a, const char* b) { size_t i = 0; bool r = true; for (;; ++i) { r &= a[i] == b[i]; if (!a[i] || !b[i]) break; } return r; }
static void eqm (const string& s, const Msg& m, const char* what) { CHECK(s.size() == m.n, what); bool r = true; for (size_t i = 0; i < m.n; ++i) r &= s[i] == m.s[i]; CHECK(r, what); CHECK(!s.c_str()[s.size()], "terminated"); }
static void eqs (const char* a, const char* b, const char* what) { CHECK(same (a,b), what); }
//-- all kinds
enum { NKIND = 17 };
struct Args { Txt t, o; int en; size_t a, b, c; const char* ty; explicit Args (size_t mx) : t(mx,"t"), o(mx,"o"), en(sym_pick(0,1,"errno")*ENOENT), a(77), b(3), c(0), ty("i") {} };
template <typename F> static void with (int kind, const Args& x, F f)
{
    errno = x.en;
    switch (kind) {
	case 0: { exception e; f (e); } break;
	case 1: { bad_cast e; f (e); } break;
	case 2: { bad_typeid e; f (e); } break;
	case 3: { bad_alloc e (x.a); f (e); } break;
	case 4: { logic_error e (x.t.s); f (e); } break;
	case 5: { domain_error e (x.t.s); f (e); } break;
	case 6: { invalid_argument e (x.t.s); f (e); } break;
	case 7: { length_error e (x.t.s); f (e); } break;
	case 8: { out_of_range e (x.t.s); f (e); } break;
	case 9: { runtime_error e (x.t.s); f (e); } break;
	case 10: { range_error e (x.t.s); f (e); } break;
	case 11: { overflow_error e (x.t.s); f (e); } break;
	case 12: { underflow_error e (x.t.s); f (e); } break;
	case 13: { system_error e (x.o.s); f (e); } break;
	case 14: { system_error e (error_code (x.en, system_category()), x.o.s); f (e); } break;
	case 15: { file_exception e (x.o.s, x.t.s); f (e); } break;
	case 16: { stream_bounds_exception e (x.o.s, x.ty, x.a, x.b, x.c); f (e); } break;
    }
}
static const char* const Names [NKIND] = { "error","bad cast","bad typeid","memory allocation failed","logic error","domain error","invalid argument","length error","out of range","runtime error","range error","overflow error","underflow error","","","","" };
static xfmt_t fmtof (int k) { return k < 3 ? xfmt_Exception : k == 3 ? xfmt_BadAlloc : k < 13 ? xfmt_ErrorMessage : k < 15 ? xfmt_SystemError : k == 15 ? xfmt_FileException : xfmt_StreamBoundsException; }
static const char* nameof (const exception&) { return nullptr; }
static const char* nameof (const error_message& e) { return e.name(); }
// what an exception made from x has to say
static void expect (int k, const Args& x, Msg& m)
{
    if (k < 3) m + Names[k];
    else if (k == 3) (m + "failed to allocate ").num (x.a) + " bytes";
    else if (k < 13) m + Names[k] + ": " + x.t.s;
    else if (k < 15) m + x.o.s + ": " + strerror(x.en);
    else if (k == 15) m + x.o.s + " " + x.t.s + ": " + strerror(x.en);
    else ((((m + x.ty + " stream " + x.o.s + ": @0x").hex (x.a) + ": need ").num (x.b)) + " bytes, have ").num (x.c);
}
static void chkfields (const exception&, int, const Args&) {}
static void chkfields (const system_error& e, int k, const Args& x) { eqs (e.Operation(), x.o.s, "Operation"); eqs (e.name(), x.o.s, "name is the operation"); CHECK(e.Errno() == x.en && e.code().value() == x.en, "Errno"); (void) k; }
static void chkfields (const file_exception& e, int k, const Args& x) { chkfields ((const system_error&) e, k, x); eqs (e.Filename(), x.t.s, "Filename"); }
static void chkfields (const stream_bounds_exception& e, int k, const Args& x) { chkfields ((const system_error&) e, k, x); CHECK(e.Offset() == x.a && e.Expected() == x.b && e.Remaining() == x.c, "numbers"); eqs (e.TypeName(), x.ty, "TypeName"); }
template <typename E> static void chk (const E& e, int k, const Args& x)
{
    const exception& b = e; string s ("other"); Msg m; expect (k,x,m);
    CHECK(b.format() == fmtof (k), "format");
    b.info (s); eqm (s, m, "info");
    if (k < 4) eqs (b.what(), Names[k], "what"); else if (k < 13) eqs (b.what(), x.t.s, "what"); else eqs (b.what(), k < 15 ? "system error" : k == 15 ? "file error" : "stream bounds exception", "what");
    if (k >= 4 && k < 13) eqs (nameof(e), Names[k], "name");
    chkfields (e, k, x);
}
extern "C" void h_describe (int k)
{
    Args x (3); x.a = sym_pick (0,2,"a")*513; if (k >= 13 && k < 16) x.en = sym_pick (0,140,"errno");
    size_t live = sym_live_allocs();
    with (k, x, [&] (const auto& e) {
	chk (e, k, x);
	ostringstream os; e.text_write (os); Msg m; expect (k,x,m); eqm (os.str(), m, "text_write");
	if (k >= 4) { string s; Msg c; if (k < 13) { c + "<" + Names[k] + "|" + x.t.s + ">"; e.info (s, "<%s|%s>"); eqm (s,c,"info in another language"); } else if (k < 15) { c + "<" + x.o.s + "|" + strerror(x.en) + ">"; e.info (s, "<%s|%s>"); eqm (s,c,"info in another language"); } else if (k == 15) { c + "<" + x.o.s + "|" + x.t.s + "|" + strerror(x.en) + ">"; e.info (s, "<%s|%s|%s>"); eqm (s,c,"info in another language"); } }
    });
    CHECK(sym_live_allocs() == live, "no leak");
}
extern "C" void h_numbers (int c)
{
    // 16 bits anywhere in the word, or all ones below them
    uint64_t v = sym_bits (8,"v"); unsigned sh = sym_pick (0,14,"shift")*4; v <<= sh; if (sym_bool ("ones")) v |= (1ul<<sh)-1; v = sym_concretize (v);
    string s; const char* pre; const char* post;
    if (c == 0) { bad_alloc (v).info (s); pre = "failed to allocate "; post = " bytes"; }
    else { stream_bounds_exception e ("op","T", c == 1 ? v : 1, c == 2 ? v : 2, c == 3 ? v : 3); e.info (s); pre = c == 1 ? "T stream op: @0x" : c == 2 ? "T stream op: @0x1: need " : "T stream op: @0x1: need 2 bytes, have "; post = c == 1 ? ": need 2 bytes, have 3" : c == 2 ? " bytes, have 3" : ""; }
    size_t i = 0; for (; *pre; ++pre, ++i) CHECK(i < s.size() && s[i] == *pre, "text before the number");
    size_t pl = strlen (post); CHECK(s.size() > i + pl, "text after the number"); size_t e = s.size() - pl; for (size_t j = 0; j < pl; ++j) CHECK(s[e+j] == post[j], "text after the number");
    CHECK(e - i <= 20, "number length"); uint64_t r = 0; for (; i < e; ++i) { uint8_t d = s[i]; if (c == 1) { CHECK((d >= '0' && d <= '9') || (d >= 'A' && d <= 'F'), "digit"); r = r*16 + (d <= '9' ? d-'0' : d-'A'+10); } else { CHECK(d >= '0' && d <= '9', "digit"); r = r*10 + (d-'0'); } }
    CHECK(r == v, "the number");
}
template <typename B, typename E> static int catches (const E& e) { try { throw e; } catch (const B& b) { return b.format() == e.format() && same (b.what(), e.what()) ? 1 : 2; } catch (...) { return 0; } }
extern "C" void h_throw (int k)
{
    Args x (2), y (1); y.a = 9; y.b = 8; y.c = 7; y.en = ENOENT-x.en; y.ty = "other";
    const bool lg = k >= 4 && k <= 8, rt = k >= 9, sys = k >= 13; size_t live = sym_live_allocs();
    with (k, x, [&] (const auto& e) {
	typedef typename remove_const<typename remove_reference<decltype(e)>::type>::type E;
	CHECK(catches<exception> (e) == 1, "caught as exception"); CHECK(catches<E> (e) == 1, "caught as itself");
	CHECK(catches<error_message> (e) == (k >= 4), "error_message"); CHECK(catches<logic_error> (e) == lg, "logic_error"); CHECK(catches<runtime_error> (e) == rt, "runtime_error");
	CHECK(catches<system_error> (e) == sys, "system_error"); CHECK(catches<file_exception> (e) == (k == 15), "file_exception"); CHECK(catches<bad_alloc> (e) == (k == 3), "bad_alloc"); CHECK(catches<out_of_range> (e) == (k == 8), "out_of_range"); CHECK(catches<range_error> (e) == (k == 10), "range_error");
	{ E c (e); chk (c, k, x); chk (e, k, x); }
	with (k, y, [&] (const auto& oc) { E o ((const E&)(const exception&) oc); o = e; chk (o, k, x); chk (e, k, x); o = o; chk (o, k, x); });
	try { try { throw e; } catch (...) { throw; } } catch (const exception& b) { string s; b.info (s); Msg m; expect (k,x,m); eqm (s,m,"rethrown"); }
    });
    CHECK(sym_live_allocs() == live, "no leak");
}
//-- streams
static char sbuf [3][16];
static void frames (size_t mx, size_t cmx) { nfr = sym_pick (0,mx,"frames"); for (int i = 0; i < nfr; ++i) { Txt t (cmx,"sym"); bool ok = true; for (size_t j = 0; j < t.n; ++j) ok &= (t.s[j] != '(') & (t.s[j] != '+') & (t.s[j] != '\n'); sym_assume (ok); strcpy (sbuf[i], "a("); { size_t l = 2, j = 0; for (; j < t.n; ++j) sbuf[i][l++] = t.s[j]; strcpy (sbuf[i]+l, "+1)"); } syms[i] = sbuf[i]; } }
static void trace (const exception& e, Msg& m) { ostringstream os; e.backtrace().text_write (os); m + string(os.str()).c_str(); }
extern "C" void h_stream (int k)
{
    static uint64_t buf [1200]; const bool deep = k >= 20; k %= 20; Args x (2), y (1); y.a = 9; y.b = 8; y.c = 7; y.en = ENOENT-x.en; x.a = sym_u64 ("a") & 0xff000000ff; y.ty = "other";
    if (k == 16) { x.a = 1; x.b = 0x123456789; }
    size_t live = sym_live_allocs();
    frames (2,deep ? 2 : 1);
    with (k, x, [&] (const auto& e) {
	typedef typename remove_const<typename remove_reference<decltype(e)>::type>::type E;
	size_t sz = e.stream_size(), off = sym_pick (0,1,"offset")*8; CHECK(sz % 8 == 0 || k == 16, "stream_size"); CHECK(sz + off <= sizeof buf, "fits the test buffer");
	char* b = (char*) buf; b[off+sz] = 0x5a; Msg t0; trace (e, t0);
	ostream os (b, off+sz); os.skip (off); e.write (os); CHECK(os.pos() == off+sz && os.remaining() == 0, "writes stream_size bytes"); CHECK(b[off+sz] == 0x5a, "nothing past the end");
	uint32_t head [2]; memcpy (head, b+off, 8); CHECK(head[0] == fmtof(k) && head[1] == sz-8, "chunk header");
	nfr = 1; syms[0] = "b(zz+2)";
	with (k, y, [&] (const auto& oc) {
	    E o ((const E&)(const exception&) oc); istream is (b, off+sz); is.skip (off); o.read (is); CHECK(is.remaining() == 0, "reads stream_size bytes");
	    chk (o, k, x); Msg t1; trace (o, t1); CHECK(t0.n == t1.n, "backtrace"); bool r = true; for (size_t i = 0; i < t0.n; ++i) r &= t0.s[i] == t1.s[i]; CHECK(r, "backtrace"); CHECK(o.stream_size() == sz, "same stream_size");
	    E q ((const E&)(const exception&) oc); size_t cut = sym_pick (1,2,"cut")*4; istream sh (b+off, sz-cut); bool th = false; try { q.read (sh); } catch (stream_bounds_exception&) { th = true; } CHECK(th, "a short stream is reported"); string s; q.info (s); E q2 (q);
	});
    });
    CHECK(sym_live_allocs() == live, "no leak");
}
extern "C" void h_trace (int)
{
    // "file(function+0x1) [0x2]" in which file may hold any character but '('
    size_t live = sym_live_allocs(); static char tx [2][32]; static char fn [2][4]; bool named [2]; nfr = sym_pick (0,2,"frames"); nosyms = sym_bool ("no symbols");
    if (!nosyms) for (int i = 0; i < nfr; ++i) {
	size_t form = sym_pick (0,2,"form"); char* p = tx[i]; named[i] = !form;
	Txt f (2,"file"); for (size_t j = 0; j < f.n; ++j) { sym_assume ((f.s[j] != '(') & (f.s[j] != '\n')); *p++ = f.s[j]; }
	if (!form) { *p++ = '('; Txt t (2,"func"); strcpy (fn[i], t.s); for (size_t j = 0; j < t.n; ++j) { sym_assume ((t.s[j] != '(') & (t.s[j] != '+') & (t.s[j] != '\n')); *p++ = t.s[j]; } *p++ = '+'; *p++ = '1'; *p++ = ')'; }
	else if (form == 1) { *p++ = '('; *p++ = ')'; }
	strcpy (p, " [0x2]"); syms[i] = tx[i];
    }
    {
	CBacktrace b; const int n = nfr;
	auto text = [] (const CBacktrace& c) { ostringstream os; c.text_write (os); return string (os.str()); };
	string s (text (b)); const char* p = s.c_str(); static const char* const A [2] = { "          0x1000  ", "          0x2000  " };
	for (int i = 0; i < n; ++i) { CHECK(!strncmp (p, A[i], 18), "address"); p += 18; if (nosyms) CHECK(*p == '\n', "no name"); else if (named[i]) { size_t l = strlen (fn[i]); for (size_t j = 0; j < l; ++j) CHECK(p[j] == fn[i][j], "function name"); CHECK(p[l] == '\n', "name ends"); } while (*p && *p != '\n') ++p; CHECK(*p == '\n', "a line per frame"); ++p; }
	CHECK(p == s.c_str()+s.size(), "nothing else");
	nfr = 1; bool ns = nosyms; nosyms = sym_bool ("other has no symbols"); syms[0] = "zz(yy+1)"; CBacktrace c (b), d; nosyms = ns; CHECK(text (c) == s, "copy");
	d = b; CHECK(text (d) == s, "copy assign"); d = d; CHECK(text (d) == s, "assigned to itself"); CHECK(d.stream_size() == b.stream_size() && b.stream_size() % 8 == 0, "stream_size");
	static uint64_t buf [32]; size_t sz = b.stream_size(); CHECK(sz <= sizeof buf, "fits"); ostream os (buf, sz); d.write (os); CHECK(!os.remaining(), "writes stream_size bytes");
	CBacktrace e; istream is (buf, sz); e.read (is); CHECK(!is.remaining() && text (e) == s, "read back"); e = c; CHECK(text (e) == s, "copy of the read one");
    }
    CHECK(sym_live_allocs() == live, "no leak");
}
extern "C" void h_corrupt (int)
{
    static uint64_t buf [6]; size_t live = sym_live_allocs(); nfr = sym_pick (0,1,"frames"); syms[0] = "zz(yy+1)";
    {
	exception e; uint32_t* w = (uint32_t*) buf; w[0] = xfmt_Exception; w[1] = 32; w[2] = sym_u32 ("frames"); w[3] = sym_u32 ("symbols");
	char* p = (char*)(w+4); for (int i = 0; i < 4; ++i) p[i] = sym_pick (0,2,"sym") * 5; for (int i = 4; i < 24; ++i) p[i] = i;
	istream is (buf, sizeof buf - 8); try { e.read (is); } catch (exception&) {}
	exception f (e); f = e; ostringstream os; f.backtrace().text_write (os); size_t sz = f.stream_size(); static char ob [1024]; CHECK(sz <= sizeof ob, "bounded"); ostream o (ob, sz); f.write (o); CHECK(!o.remaining(), "writes stream_size bytes");
    }
    CHECK(sym_live_allocs() == live, "no leak");
}
extern "C" void h_bounds (int c)
{
    static char buf [16]; size_t len = sym_pick (0,3,"len")*4, pos = len ? sym_pick (0,1,"pos")*4 : 0; nfr = 0;
    bool th = false;
    if (c == 0) { uint64_t n = sym_u64 ("n"); sym_assume (n > len-pos); istream is (buf, len); is.skip (pos); try { is.read (buf, n); } catch (stream_bounds_exception& e) { th = true; CHECK(e.Offset() == pos && e.Expected() == n && e.Remaining() == len-pos, "what was asked of what was there"); eqs (e.Operation(), "read", "operation"); } CHECK(is.pos() == pos, "nothing was read"); }
    else if (c == 1) { uint64_t n = sym_u64 ("n"); sym_assume (n > len-pos); ostream os (buf, len); os.skip (pos); try { os.write (buf, n); } catch (stream_bounds_exception& e) { th = true; CHECK(e.Offset() == pos && e.Expected() == n && e.Remaining() == len-pos, "what was asked of what was there"); eqs (e.Operation(), "write", "operation"); } CHECK(os.pos() == pos, "nothing was written"); }
    else { if (len-pos >= 8) sym_stop(); uint64_t v = 0; istream is (buf, len); is.skip (pos); try { is >> v; } catch (stream_bounds_exception& e) { th = true; CHECK(e.Offset() == pos && e.Expected() == 8 && e.Remaining() == len-pos, "what was asked of what was there"); eqs (e.TypeName(), typeid(v).name(), "type"); } }
    CHECK(th, "reported");
}
extern "C" void h_code (int)
{
    int a = sym_u32 ("a"), b = sym_u32 ("b"); error_code x (a, system_category()), y (b, generic_category()), z; error_condition u (a, generic_category()), v (b, generic_category()), w;
    CHECK(x.value() == a && u.value() == a && z.value() == 0 && w.value() == 0, "value"); CHECK(bool(x) == (a != 0) && bool(u) == (a != 0) && !z && !w, "an error unless 0");
    CHECK((x == y) == (a == b) && (u == v) == (a == b) && (x == v) == (a == b) && (u == y) == (a == b), "compared by value"); CHECK(x.default_error_condition() == u && system_category().default_error_condition(a) == u, "condition");
    CHECK(system_category().equivalent (a, v) == (a == b) && system_category().equivalent (x, b) == (a == b), "equivalent");
    z = x; z.assign (b, system_category()); CHECK(z.value() == b, "assign"); z.clear(); CHECK(!z, "clear"); w.assign (b, generic_category()); CHECK(w.value() == b, "assign"); w.clear(); CHECK(!w.value(), "clear");
    z = errc::not_enough_memory; CHECK(z.value() == ENOMEM && z == make_error_condition (errc::not_enough_memory) && error_code (errc::interrupted).value() == EINTR, "errc"); w = errc::timed_out; CHECK(w.value() == ETIMEDOUT, "errc"); eqs (error_code (ENOENT, system_category()).message(), strerror (ENOENT), "message");
}
