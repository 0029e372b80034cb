//@ property=C16 wraps=read,write,open,close,lseek
//@ oracle="a model file and descriptor table behind read, write, open, close and lseek; every call may be complete, short, interrupted, unready or failing by solver choice"
//@ entry=h_write cases=0-3 bound="writes of 0-5 symbolic bytes with any 3 (thorough 5) disturbances (short count, EINTR, EAGAIN, EIO, zero count), 4 exception masks"
//@ entry=h_read cases=0-7 bound="read and readsome of 1-5 bytes from files of 0-4 symbolic bytes with any 3 disturbances, 4 exception masks"
//@ entry=h_open cases=0-1 bound="all 9-bit modes that include in or out, all permissions, success and failure, 4 exception masks"
//@ entry=h_life cases=0-6 tcases=10-16 bound="histories of 3 (thorough 4) of open, failing open, attach, close, detach, re-open by own name, seek on one stream, any close interrupted or failing, with and without exceptions"
//@ entry=h_out cases=0-6 tcases=10-16 bound="ofstream histories of 3 (thorough 4) of write, put, text, number, flush, larger writes, seekp with any 2 disturbances, then close or destruction; by name (no buffer yet) and by descriptor"
//@ entry=h_outerr cases=0-3 bound="ofstream: error in any write of a history of 3, with and without exceptions, then repair and flush"
//@ entry=h_in cases=0-7 tcases=10-17 bound="ifstream with buffers of 1, 2, 3, 8 bytes over files of 0-5 bytes: histories of 3 (2 over text) of get, read, getline, word, peek, ignore, seekg, tellg with any 1 (thorough 2) short or interrupted reads"
//@ entry=h_inerr cases=0-3 tcases=10-13 bound="ifstream histories of 3 (thorough 4) reads with an error, unready read or end of file at any call, with and without exceptions, then repair and continue"
//@ entry=h_reopen cases=0-1 bound="ifstream and ofstream closed and opened on another file, and re-opened without closing, with 0-3 bytes consumed or pending"
//@ trusted="the model of the system calls: EINTR from close leaves the descriptor open, any other error releases it"
//@ outside="fsync, fstat, ioctl, fcntl, mmap; readsome of 0 bytes; endless EAGAIN or EINTR; copying of stream objects; unget after a refill; standard input and output objects; reopening after an unrepaired write failure"
#include "hx.h"
#include "ofstream.h"
#include "ustdxept.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <string.h>
typedef ios_base B;
enum { FD0 = 50, NFD = 6, FSZ = 96 };
enum { f_full, f_short, f_eintr, f_eagain, f_eio, f_zero };
static struct File { uint8_t d [FSZ]; size_t n; } file [2];
static struct Desc { bool open; unsigned closed, which; size_t pos; } desc [NFD];
static int left, kinds, last, seen, nopen, oflags, operms, openerr; static unsigned nextfile; static char oname [8];
static void model_reset (int l, int k) { memset (file,0,sizeof file); memset (desc,0,sizeof desc); left = l; kinds = k; last = f_full; nopen = openerr = seen = 0; nextfile = 0; oflags = -1; operms = -1; oname[0] = 0; }
static int newfd (unsigned f) { Desc& d = desc[nopen]; d.open = true; d.closed = 0; d.which = f; d.pos = 0; return FD0 + nopen++; }
static bool ours (int fd) { return sym_native() ? fd >= FD0 && fd < FD0+NFD : true; }
static Desc& at (int fd) { if (fd < FD0 || fd >= FD0+nopen || !desc[fd-FD0].open) CHECK(false, "system call on a descriptor that is not open"); return desc[fd-FD0]; }
static int fault (size_t n) { int k = f_full; if (left > 0) { k = sym_pick (0,kinds,"fault"); if (k == f_short && n < 2) k = f_full; if (k) --left; } seen |= 1 << k; return last = k; }
extern "C" {
ssize_t __real_read (int, void*, size_t); ssize_t __real_write (int, const void*, size_t); int __real_open (const char*, int, int); int __real_close (int); off_t __real_lseek (int, off_t, int);
ssize_t __wrap_write (int fd, const void* p, size_t n)
{
    if (!ours (fd)) return __real_write (fd,p,n);
    if (fd < 0) { errno = EBADF; last = f_eio; return -1; }
    Desc& d = at (fd); int k = fault (n); if (k == f_short) n = sym_pick (1,n-1,"short"); else if (k == f_zero) return 0; else if (k > f_short) { errno = k == f_eintr ? EINTR : k == f_eagain ? EAGAIN : EIO; return -1; }
    File& f = file[d.which]; if (d.pos + n > FSZ) sym_stop(); for (size_t i = 0; i < n; ++i) f.d[d.pos+i] = ((const uint8_t*)p)[i]; d.pos += n; if (d.pos > f.n) f.n = d.pos; return n;
}
ssize_t __wrap_read (int fd, void* p, size_t n)
{
    if (!ours (fd)) return __real_read (fd,p,n);
    if (fd < 0) { errno = EBADF; last = f_eio; return -1; }
    Desc& d = at (fd); File& f = file[d.which]; CHECK(n > 0, "read of nothing"); size_t have = f.n > d.pos ? f.n - d.pos : 0; if (n > have) n = have; int k = fault (n); if (k == f_short) n = sym_pick (1,n-1,"short"); else if (k == f_zero) k = last = f_full; else if (k > f_short) { errno = k == f_eintr ? EINTR : k == f_eagain ? EAGAIN : EIO; return -1; }
    if (!n) { last = f_zero; seen |= 1 << f_zero; } for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = f.d[d.pos+i]; d.pos += n; return n;
}
int __wrap_open (const char* name, int flags, ...)
{
    va_list a; va_start (a, flags); int m = va_arg (a,int); va_end (a); if (sym_native() && name[0] == '/') return __real_open (name,flags,m);
    oflags = flags; operms = m; size_t i = 0; for (; name[i] && i < 7; ++i) oname[i] = name[i]; oname[i] = 0; if (openerr) { errno = openerr; return -1; } return newfd (nextfile);
}
int __wrap_close (int fd)
{
    if (!ours (fd)) return __real_close (fd);
    Desc& d = at (fd); int k = left > 0 ? sym_pick (0,2,"closing") : 0; if (k) --left; if (k == 1) { errno = EINTR; return -1; } d.open = false; ++d.closed; if (k == 2) { last = f_eio; errno = EIO; return -1; } return 0;
}
off_t __wrap_lseek (int fd, off_t o, int w)
{
    if (!ours (fd)) return __real_lseek (fd,o,w);
    if (fd < 0) { errno = EBADF; return -1; }
    Desc& d = at (fd); off_t p = w == SEEK_SET ? o : w == SEEK_CUR ? off_t (d.pos) + o : off_t (file[d.which].n) + o; if (p < 0) { errno = EINVAL; return -1; } return d.pos = p;
}
}
static const unsigned MASK[] = { 0, B::failbit, B::eofbit, B::allbadbits };
static bool eq (const uint8_t* a, const uint8_t* b, size_t n) { bool ok = true; for (size_t i = 0; i < n; ++i) ok &= a[i] == b[i]; return ok; }
extern "C" void h_write (int c)
{
    model_reset (3, f_zero); size_t n = sym_pick (0,5,"n"); exact p (n); for (size_t i = 0; i < n; ++i) p.p[i] = sym_u8 ("b"); off_t rv = 0; bool thrown = false, bounds = false;
    { fstream f (newfd (0)); f.exceptions (MASK[c]); try { rv = f.write (p.p, n); } catch (stream_bounds_exception&) { thrown = bounds = true; } catch (file_exception&) { thrown = true; }
      CHECK(eq (file[0].d, (uint8_t*) p.p, file[0].n), "bytes in the file"); CHECK(thrown || rv == off_t (file[0].n), "returned count"); unsigned st = last == f_eio ? B::failbit : last == f_zero ? B::failbit|B::eofbit : 0; if (!n) st = 0; CHECK(f.rdstate() == st, "state"); CHECK(thrown == !!(st & MASK[c]), "exception"); CHECK(bounds == (thrown && last == f_zero), "exception type"); CHECK(st || last == f_eagain || rv == off_t (n), "complete"); left = 0; }
    CHECK(desc[0].closed == 1, "closed once"); OBS(file[0].n);
}
extern "C" void h_read (int c)
{
    model_reset (3, f_eio); size_t m = sym_pick (0,4,"m"), n = sym_pick (1,5,"n"); for (size_t i = 0; i < m; ++i) file[0].d[i] = sym_u8 ("b"); file[0].n = m; exact p (n); memset (p.p, 'Z', n); off_t rv = 0; bool thrown = false, bounds = false; unsigned mask = MASK[c%4];
    { fstream f (newfd (0)); f.exceptions (mask); try { rv = c < 4 ? f.read (p.p, n) : f.readsome (p.p, n); } catch (stream_bounds_exception&) { thrown = bounds = true; } catch (file_exception&) { thrown = true; }
      size_t got = desc[0].pos; CHECK(got <= n && eq ((uint8_t*) p.p, file[0].d, got), "bytes read"); bool rest = true; for (size_t i = got; i < n; ++i) rest &= p.p[i] == 'Z'; CHECK(rest, "bytes past the count"); CHECK(thrown || rv == off_t (got), "returned count"); unsigned st = last == f_eio ? B::failbit : last == f_zero ? B::failbit|B::eofbit : 0; CHECK(f.rdstate() == st, "state"); CHECK(thrown == !!(st & mask), "exception"); CHECK(bounds == (thrown && last == f_zero), "exception type"); CHECK(c >= 4 || st || rv == off_t (n), "complete"); left = 0; }
    CHECK(desc[0].closed == 1, "closed once"); OBS(desc[0].pos);
}
extern "C" void h_open (int c)
{
    model_reset (0, 0); unsigned m = sym_range (1,511,"mode"); sym_assume (m & 3); unsigned perms = sym_range (0,07777,"perms"), mask = MASK[sym_pick (0,3,"mask")]; openerr = c ? ENOENT : 0; bool thrown = false;
    { fstream f; f.exceptions (mask); try { f.open ("ab", m, perms); } catch (file_exception&) { thrown = true; }
      int e = (m & 3) == 3 ? O_RDWR : (m & 2) ? O_WRONLY : O_RDONLY; if (m & B::app) e |= O_APPEND; if (m & B::ate) e |= O_APPEND; if (m & B::trunc) e |= O_TRUNC; if (m & B::nonblock) e |= O_NONBLOCK; if (m & B::noctty) e |= O_NOCTTY; if ((m & B::out) && !(m & B::nocreate)) e |= O_CREAT;
      CHECK(oflags == e, "open flags"); CHECK(unsigned (operms) == perms && !strcmp (oname,"ab"), "permissions and name"); CHECK(f.is_open() == !c && (c || f.fd() == FD0) && f.rdstate() == (c ? B::badbit : B::goodbit), "state"); CHECK(f.name() == "ab", "name"); CHECK(thrown == (c && (mask & B::badbit)), "exception"); }
    CHECK(nopen == !c && (c || desc[0].closed == 1), "closed once"); OBS(thrown);
}
extern "C" void h_life (int c)
{
    model_reset (2, 0); bool exc = sym_bool ("exceptions"); unsigned foreign = 0; { fstream f; f.exceptions (exc ? B::allbadbits : 0); int cur = -1; const char* nm = "";
    for (unsigned j = 0; j < (c < 10 ? 3u : 4u); ++j) { unsigned op = j ? sym_pick (0,6,"op") : c % 10; last = 0; bool thrown = false; openerr = 0; int wd; char own [8]; try { switch (op) {
	case 0: wd = FD0 + nopen; nm = "f1"; f.open ("f1", B::in); cur = wd; break;
	case 1: openerr = EACCES; f.open ("f2", B::out); nm = "f2"; cur = -1; break;
	case 2: wd = newfd (1); nm = "f3"; f.attach (wd, "f3"); cur = wd; break;
	case 3: f.close(); if (cur >= 0) nm = ""; cur = -1; break;
	case 4: if (f.fd() >= 0) foreign |= 1u << (f.fd()-FD0); f.detach(); cur = -1; nm = ""; break;
	case 5: if (cur < 0) break; wd = FD0 + nopen; f.open (f.name().c_str(), B::in); cur = wd; break;
	case 6: if (cur >= 0) { CHECK(f.seek (3) == 3 && f.pos() == 3, "seek"); } break;
      } } catch (file_exception&) { thrown = true; cur = f.fd(); nm = 0; }
      CHECK(exc || !thrown, "thrown only when asked for"); CHECK(f.fd() == cur, "descriptor"); CHECK(!nm || (cur < 0 && op == 1) || f.name() == nm, "name"); int open = 0; for (int i = 0; i < nopen; ++i) open += desc[i].open && !((foreign >> i) & 1); CHECK(open == (cur >= 0), "open descriptors"); CHECK(last != f_eio || thrown || op == 0 || op == 2 || op == 5 || f.rdstate() == (B::badbit|B::failbit) || op == 1, "close error in the state"); if (thrown) f.clear(); }
    } bool ok = true; for (int i = 0; i < nopen; ++i) ok &= desc[i].closed == !((foreign >> i) & 1); CHECK(ok, "closed exactly once"); OBS(nopen);
}
static string T;	// all text written so far
static void one (unsigned op, ofstream& os)
{
    switch (op) {
	case 0: { size_t k = sym_pick (1,3,"k"); char t [3]; for (size_t i = 0; i < k; ++i) { t[i] = (char) sym_u8 ("t"); T.push_back (t[i]); } os.write (t, k); } break;
	case 1: { char v = (char) sym_u8 ("c"); T.push_back (v); os.put (v); } break;
	case 2: T += "text"; os << "text"; break;
	case 3: T += "-42"; os << -42; break;
	case 4: os.flush(); break;
	case 5: T += "0123456789abcdefghij"; os << "0123456789abcdefghij"; break;
	case 6: T += "fmt 7"; os.format ("%s %d", "fmt", 7); break;
    }
}
static bool accounted (ofstream& os, unsigned d = 0) { size_t n = file[d].n, p = os.pos(); bool ok = n + p <= T.size() && (n + p == T.size() || !os.good()); for (size_t i = 0; ok && i < n; ++i) ok &= file[d].d[i] == (uint8_t) T.c_str()[i]; for (size_t i = 0; ok && i < p; ++i) ok &= os.begin()[i] == T.c_str()[n+i]; return ok; }
static bool infile (unsigned d = 0) { bool ok = file[d].n == T.size(); for (size_t i = 0; ok && i < T.size(); ++i) ok &= file[d].d[i] == (uint8_t) T.c_str()[i]; return ok; }
static void outhist (ofstream& os, int c)
{
    for (unsigned j = 0; j < (c < 10 ? 3u : 4u); ++j) { unsigned op = j ? sym_pick (0,6,"op") : c % 10; one (op, os); CHECK(os.good(), "good"); CHECK(accounted (os), "file and buffer hold the text"); if (op == 4) CHECK(infile(), "flushed"); CHECK(os.tellp() == off_t (T.size()), "tellp"); }
    if (sym_bool ("close")) { kinds = last = 0; os.close(); CHECK((last == f_eio) == os.fail(), "close error in the state"); CHECK(infile() && desc[0].closed == 1 && !os.is_open(), "close"); }
}
extern "C" void h_out (int c)
{
    model_reset (2, f_eagain); T.clear(); { if (sym_bool ("named")) { ofstream os ("f"); outhist (os, c); } else { ofstream os (newfd (0)); outhist (os, c); } kinds = f_eagain; if (left) left = 1; }
    CHECK(infile(), "all text in the file"); CHECK(desc[0].closed == 1, "closed once"); OBS(file[0].n);
}
extern "C" void h_outerr (int c)
{
    model_reset (2, f_eio); T.clear(); bool exc = c & 1, named = c & 2; { ofstream a ("f"), b (newfd (1)); ofstream& os = named ? a : b; unsigned d = !named; if (exc) os.exceptions (B::failbit|B::badbit);
      for (unsigned j = 0; j < 3; ++j) { unsigned op = sym_pick (0,6,"op"); if (op == 1 || op == 2) op = 4; last = f_full; bool thrown = false; try { one (op, os); } catch (file_exception&) { thrown = true; } catch (ustl::exception&) { thrown = true; } CHECK(accounted (os, d), "file and buffer hold the text"); if (last == f_eio) { CHECK(os.fail(), "failure in the state"); CHECK(thrown == exc, "exception"); break; } CHECK(!thrown && os.good(), "good"); }
      left = 0; os.clear(); T.resize (file[d].n + os.pos()); os.flush(); CHECK(os.good() && infile (d), "nothing lost or repeated after repair"); }
    CHECK(desc[0].closed == 1 && desc[1].closed == 1, "closed once"); OBS(T.size());
}
static const unsigned BS[] = { 1,2,3,8 };
static void fillfile (unsigned d, size_t n, bool text) { static const char A[] = "a \n"; for (size_t i = 0; i < n; ++i) file[d].d[i] = text ? A[sym_pick (0,2,"ch")] : sym_u8 ("b"); file[d].n = n; }
extern "C" void h_in (int c)
{
    bool text = c % 10 >= 4, deep = c >= 10; model_reset (deep ? 2 : 1, f_eintr); size_t m = text ? 4 : 5; m = sym_pick (0,m,"m"); fillfile (0, m, text); istringstream ref (file[0].d, m); string ws, rs;
    { ifstream is ("f"); is.set_buffer_size (BS[sym_pick (0, text && !deep ? 2 : 3, "bufsize")]); off_t base = 0;
      for (unsigned j = 0; j < (text ? 2u : 3u); ++j) { unsigned op = j ? sym_pick (0,3,"op") + (text ? 4 : 0) : c % 10; if (j == 2 && !text) op = sym_pick (0,1,"op2"); size_t at = base + ref.pos(), had = m - at; switch (op) {
	case 0: { char x = 'Z'; is.get (x); if (had) { CHECK(uint8_t (x) == file[0].d[at], "get"); } else CHECK(is.eof(), "end of file"); ref.seek (had ? ref.pos()+1 : ref.pos()); } break;
	case 1: { size_t k = sym_pick (1,4,"k"), g = k < had ? k : had; uint8_t t [4]; memset (t,'Z',4); is.read (t, k); CHECK(is.gcount() == g && eq (t, file[0].d+at, g), "read"); bool rest = true; for (size_t i = g; i < 4; ++i) rest &= t[i] == 'Z'; CHECK(rest, "past the read"); ref.seek (ref.pos()+g); } break;
	case 2: { if (had) CHECK(uint8_t (is.peek()) == file[0].d[at], "peek"); else is.peek(); } break;
	case 3: { int w = sym_pick (0,2,"whence"); off_t to = sym_range (0,m,"to"); to = sym_concretize (to); is.clear(); is.seekg (w == 0 ? to : w == 1 ? to - off_t (at) : to - off_t (m), B::seekdir (w)); CHECK(is.tellg() == to && is.good(), "seekg"); ref.seek (to - base); } break;
	case 4: is.getline (ws); ref.getline (rs); CHECK(ws == rs && is.gcount() == ref.gcount(), "getline"); break;
	case 5: if (had) { is >> ws; ref >> rs; CHECK(ws == rs, "word"); } break;
	case 6: { size_t k = sym_pick (0,3,"k"); is.ignore (k, '\n'); ref.ignore (k, '\n'); CHECK(is.gcount() == ref.gcount(), "ignore"); } break;
	case 7: { char t [4]; memset (t,'Z',4); char r [4]; memset (r,'Z',4); size_t k = sym_pick (1,4,"k"); is.get (t, k, ' '); ref.get (r, k, ' '); CHECK(!memcmp (t,r,4) && is.gcount() == ref.gcount(), "get text"); } break;
	} CHECK(is.tellg() == off_t (base + ref.pos()), "position"); } }
    CHECK(desc[0].closed == 1, "closed once"); OBS(ref.pos());
}
extern "C" void h_inerr (int c)
{
    model_reset (2, f_eio); size_t m = sym_pick (0,4,"m"), at = 0; fillfile (0, m, false); static const unsigned EX[] = { 0, B::failbit, B::eofbit, B::badbit };
    { ifstream is (newfd (0)); is.set_buffer_size (BS[sym_pick (0,3,"bufsize")]); is.exceptions (EX[c%10]);
      unsigned N = c < 10 ? 3 : 4; for (unsigned j = 0; j < N; ++j) { size_t k = sym_pick (1,3,"k"); uint8_t t [3]; bool thrown = false; seen = 0; if (j == N-1) left = 0; try { is.read (t, k); } catch (ustl::exception&) { thrown = true; }
	if (!thrown) { size_t g = is.gcount(); CHECK(at + g <= m && eq (t, file[0].d+at, g), "delivered in order"); at += g; CHECK(g == k || ((seen >> f_eagain) & 1) || is.fail(), "short only for a reason"); CHECK(!is.eof() || at == m, "end of file"); }
	else CHECK(EX[c%10] && ((seen >> f_eio) & 1 || (seen >> f_zero) & 1), "exception for a reason"); is.clear(); size_t now = is.tellg(); if (thrown) { CHECK(now >= at && now <= at+k && now <= m && eq (t, file[0].d+at, now-at), "nothing lost"); at = now; } CHECK(now == at, "position"); } }
    CHECK(desc[0].closed == 1, "closed once"); OBS(at);
}
extern "C" void h_reopen (int c)
{
    model_reset (0, 0); bool close = sym_bool ("close"); size_t k = sym_pick (0,3,"k"); if (c) {
	T.clear(); { ofstream os; os.open ("f"); for (size_t i = 0; i < k; ++i) os.put ((char)('a'+(int)i)); if (close) os.close(); nextfile = 1; os.open ("g"); os << "xy"; } CHECK(file[0].n == k && (!k || file[0].d[0] == 'a'), "first file"); CHECK(file[1].n == 2 && file[1].d[0] == 'x', "second file");
    } else { fillfile (0,3,false); fillfile (1,2,false); ifstream is ("f"); uint8_t t [3]; if (k) { is.read (t,k); CHECK(eq (t,file[0].d,k), "first file"); } if (close) is.close(); nextfile = 1; is.open ("g"); is.read (t,2); CHECK(is.gcount() == 2 && eq (t,file[1].d,2), "second file"); if (close) is.close(); }
    CHECK(desc[0].closed == 1, "closed once"); OBS(k);
}
