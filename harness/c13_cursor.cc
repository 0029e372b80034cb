//@ property=C13
//@ oracle="an integer cursor in a block of the given size"
//@ entry=h_align cases=0-31 bound="align, align_size, aligned for every grain 2^0 to 2^31 and every position in blocks below 2^62"
//@ entry=h_in cases=0-9 tcases=10-19 bound="input streams over blocks of every size below 2^62: histories of 2 (thorough 3) of seek, iseek, skip, align, seekg from begin, cursor and end, ungetc with every 64-bit argument, grains 2, 32 and 512, exceptions on and off"
//@ entry=h_out cases=0-9 tcases=10-19 bound="output streams over blocks of 0-20 bytes: histories of 2 (thorough 3) of seek, iseek, skip, align, seekp from begin, cursor and end, ostream_iterator += with every 64-bit argument, exceptions on and off; bytes touched only by align"
//@ entry=h_link cases=0-7 bound="link, relink, unlink, swap, copy, reader of a writer, iterator assignment: all positions in blocks of 0-6 bytes"
//@ entry=h_insert cases=0-1 bound="ostream insert and erase at every place with every size that fits, blocks of 0-8 bytes"
//@ entry=h_iter cases=0-3 bound="istream_iterator and ostream_iterator movement over 1-5 values of 1, 2, 4 bytes"
//@ outside="blocks over 2^62 bytes; ostream::insert beyond the end or erase of more than was written (preconditions); seekg and seekp measure back from the end"
#include "strm.h"
template <typename S> static bool sane (const S& s, uint64_t n, uint64_t pos, const char* b, bool wide)
{
    bool ok = (s.size() == n) & (s.pos() == pos) & (s.remaining() == n - pos) & (s.ipos() == b + pos) & (s.pos() <= s.size());
    for (size_t g = 1; !wide && g <= 16; g <<= 1) ok &= (s.align_size(g) == ((0 - pos) & (g-1))) & (s.aligned(g) == !(pos & (g-1))); return ok;
}
extern "C" void h_align (int c)
{
    char blk [1]; uint64_t n = sym_u64 ("size"), p = sym_u64 ("pos"), g = 1ull << c; sym_assume ((n < 1ull<<62) & (p <= n)); istream is (blk, n); is.seek (p); ostream os (blk, n); os.seek (p); const uint64_t a = is.align_size (g);
    CHECK(a == ((0 - p) & (g-1)), "align_size"); CHECK(os.align_size (g) == a, "align_size of output"); CHECK((is.aligned (g) == !(p & (g-1))) & (os.aligned (g) == is.aligned (g)), "aligned"); is.exceptions (0); is.align (g); bool fits = p + ((0-p) & (g-1)) <= n; CHECK(is.good() == fits, "refused past the end"); CHECK(is.pos() == (fits ? p + ((0-p) & (g-1)) : p), "aligned position");
}
extern "C" void h_in (int c)
{
    char blk [1]; uint64_t n = sym_u64 ("size"); sym_assume (n < 1ull<<62); istream is (blk, n); const istream& cis = is; bool ex = sym_bool ("exceptions"); if (!ex) is.exceptions (0); uint64_t pos = 0; CHECK(sane (cis,n,0,blk,true), "starts at the beginning");
    unsigned k = c < 10 ? 2 : 3; for (unsigned j = 0; j < k; ++j) {
	unsigned op = j ? sym_pick (0,8,"op") : c % 10; uint64_t a = sym_u64 ("arg"), t = a; bool threw = false, wrap = false; is.clear();
	try { switch (op) {
	    case 0: is.seek (a); break;
	    case 1: sym_assume (a <= n); is.iseek (blk + a); break;
	    case 2: t = pos + a; wrap = t < pos; is.skip (a); break;
	    case 3: { uint64_t g = 1ull << (1+4*sym_pick (0,2,"grain")); t = pos + ((0-pos) & (g-1)); is.align (g); } break;
	    case 4: is.seekg ((off_t) a); break;
	    case 5: t = pos + a; is.seekg ((off_t) a, ios_base::cur); break;
	    case 6: t = n - a; is.seekg ((off_t) a, ios_base::end); break;
	    case 7: t = pos - 1; is.ungetc(); break;
	    case 8: t = pos + 3; is >> ios::skip (3); break;
	    case 9: t = (pos + c_DefaultAlignment-1) & ~(c_DefaultAlignment-1); is >> ios::align(); break;
	} } catch (...) { threw = true; }
	bool fits = (t <= n) & !wrap; if (fits) pos = t; CHECK(sane (cis,n,pos,blk,true), "where the move says"); CHECK(((!threw && is.good()) == fits) & (!threw || ex), "refused exactly when outside"); CHECK(fits || is.fail(), "refusal is reported"); CHECK(is.tellg() == (off_t) pos, "tellg");
    } OBS(pos);
}
extern "C" void h_out (int c)
{
    size_t n = sym_pick (0,20,"size"); exact blk (n); memset (blk.p,'Z',n); ostream os (blk.p,n); const ostream& cos = os; bool ex = sym_bool ("exceptions"); if (!ex) os.exceptions (0); uint64_t pos = 0; char ref [20]; memset (ref,'Z',20);
    unsigned k = c < 10 ? 2 : 3; for (unsigned j = 0; j < k; ++j) {
	unsigned op = j ? sym_pick (0,8,"op") : c % 10; uint64_t a = sym_u64 ("arg"), t = a; bool threw = false, wrap = false, pad = false; os.clear();
	try { switch (op) {
	    case 0: os.seek (a); break;
	    case 1: sym_assume (a <= n); os.iseek (blk.p + a); break;
	    case 2: t = pos + a; wrap = t < pos; os.skip (a); break;
	    case 3: { uint64_t g = 1ull << sym_pick (0,6,"grain"); pos = sym_concretize (pos); t = (pos + g-1) & ~(g-1); pad = true; os.align (g); } break;
	    case 4: os.seekp ((off_t) a); break;
	    case 5: t = pos + a; os.seekp ((off_t) a, ios_base::cur); break;
	    case 6: t = n - a; os.seekp ((off_t) a, ios_base::end); break;
	    case 7: { t = pos + a; wrap = t < pos; ostream_iterator<uint8_t> i (os); i += a; } break;
	    case 8: t = pos + 3; os << ios::skip (3); break;
	    case 9: t = (pos + c_DefaultAlignment-1) & ~(c_DefaultAlignment-1); pad = true; os << ios::align(); break;
	} } catch (...) { threw = true; }
	bool fits = (t <= n) & !wrap; if (fits) { if (pad) for (size_t i = 0; i < 20; ++i) if (i >= pos && i < t) ref[i] = 0; pos = t; } CHECK(sane (cos,n,pos,blk.p,false), "where the move says"); CHECK(((!threw && os.good()) == fits) & (!threw || ex), "refused exactly when outside"); CHECK(fits || os.fail(), "refusal is reported"); CHECK(os.tellp() == (off_t) pos && os.stream_size() == pos, "tellp");
    } CHECK(!memcmp (blk.p, ref, n), "bytes"); OBS(pos);
}
extern "C" void h_link (int c)
{
    size_t n = sym_pick (0,6,"n"), m = sym_pick (0,6,"m"), p = sym_pick (0,n,"p"), q = sym_pick (0,m,"q"); exact a (n), b (m); for (size_t i = 0; i < n; ++i) a.p[i] = sym_u8 ("a"); for (size_t i = 0; i < m; ++i) b.p[i] = sym_u8 ("b");
    istream is (a.p,n), is2 (b.p,m); is.seek (p); is2.seek (q); ostream os (a.p,n), os2 (b.p,m); os.seek (p); os2.seek (q); const istream &ci = is, &ci2 = is2; const ostream &co = os, &co2 = os2; cmemlink lb (b.p,m); memlink mb (b.p,m);
    switch (c) {
	case 0: is.link (b.p,m); os.link (b.p,m); CHECK(sane (ci,m,0,b.p,false) && sane (co,m,0,b.p,false), "link"); break;
	case 1: is.link (lb); os.link (mb); CHECK(sane (ci,m,0,b.p,false) && sane (co,m,0,b.p,false), "link to link"); is2.link (a.p, a.p+n); os2.link (a.p, a.p+n); CHECK(sane (ci2,n,0,a.p,false) && sane (co2,n,0,a.p,false), "link to range"); break;
	case 2: is.relink (b.p,m); os.relink (b.p,m); CHECK(sane (ci,m,0,b.p,false) && sane (co,m,0,b.p,false), "relink"); is2.relink (cmemlink (a.p,n)); { memlink ma (a.p,n); os2.relink (ma); } CHECK(sane (ci2,n,0,a.p,false) && sane (co2,n,0,a.p,false), "relink to link"); break;
	case 3: is.unlink(); os.unlink(); CHECK(sane (ci,0,0,nullptr,false) && sane (co,0,0,nullptr,false), "unlink"); break;
	case 4: is.swap (is2); os.swap (os2); CHECK(sane (ci,m,q,b.p,false) && sane (ci2,n,p,a.p,false) && sane (co,m,q,b.p,false) && sane (co2,n,p,a.p,false), "swap"); break;
	case 5: { istream cp (is); const istream& ccp = cp; CHECK(sane (ccp,n,p,a.p,false), "copy"); istream rd (os); const istream& crd = rd; CHECK(sane (crd,p,0,a.p,false), "reader of what was written"); istream df; ostream dg; const istream& cdf = df; const ostream& cdg = dg; CHECK(sane (cdf,0,0,nullptr,false) && sane (cdg,0,0,nullptr,false), "default"); istream il (lb); const istream& cil = il; ostream ol (mb); const ostream& col = ol; CHECK(sane (cil,m,0,b.p,false) && sane (col,m,0,b.p,false), "from a link"); } break;
	case 6: { bool t1 = false; exact d (m); memset (d.p,'Z',m); ostream o3 (d.p,m); try { o3 << is; } catch (...) { t1 = true; } bool fits = n-p <= m; CHECK((!t1 && o3.good()) == fits, "refused exactly when short"); CHECK(o3.pos() == (fits ? n-p : 0) && is.pos() == p, "cursors"); if (fits) CHECK(!memcmp (d.p, a.p+p, n-p), "the unread bytes"); CHECK(stream_size_of (is) == n-p, "stream size"); } break;
	case 7: { bool t1 = false; exact d (m); ostream o3 (d.p,m); try { o3.read (is); } catch (...) { t1 = true; } bool fits = n-p <= m; CHECK((!t1 && o3.good()) == fits, "refused exactly when short"); if (fits) { CHECK(o3.pos() == n-p && is.pos() == n, "cursors"); CHECK(!memcmp (d.p, a.p+p, n-p), "the unread bytes"); } ostream o4 (d.p,m); t1 = false; try { o4 << os; } catch (...) { t1 = true; } CHECK((!t1 && o4.good()) == (p <= m), "refused exactly when short"); if (p <= m) CHECK(o4.pos() == p && !memcmp (d.p, a.p, p), "the written bytes"); } break;
    }
    OBS(is.pos()); OBS(os.pos());
}
extern "C" void h_insert (int c)
{
    size_t n = sym_pick (0,8,"n"), p = sym_pick (0,n,"pos"), at = sym_pick (0,p,"at"); exact a (n), r (n); for (size_t i = 0; i < n; ++i) r.p[i] = a.p[i] = sym_u8 ("a"); ostream os (a.p,n); const ostream& co = os; os.seek (p); bool ok = true;
    if (!c) { size_t k = sym_pick (0,n-p,"count"); os.insert (os.begin()+at, k); CHECK(sane (co,n,p+k,a.p,false), "cursor moves with its data"); for (size_t i = 0; i < p; ++i) ok &= r.p[i] == a.p[i < at ? i : i+k]; CHECK(ok, "written data kept around the gap"); }
    else { size_t k = sym_pick (0,p-at,"count"); os.erase (os.begin()+at, k); CHECK(sane (co,n,p-k,a.p,false), "cursor moves with its data"); for (size_t i = 0; i < p-k; ++i) ok &= a.p[i] == r.p[i < at ? i : i+k]; CHECK(ok, "written data without the erased"); }
    OBS(os.pos());
}
template <typename T> static void iters (void)
{
    size_t n = sym_pick (1,5,"n"); exact a (n*sizeof(T)); T v [5]; for (size_t i = 0; i < n; ++i) { fillv (v[i],0); memcpy (a.p+i*sizeof(T), &v[i], sizeof(T)); } istream is (a.p, n*sizeof(T)); istream_iterator<T> i (is); size_t at = 0; CHECK(*i == v[0], "first");
    for (unsigned j = 0; j < 3; ++j) { switch (sym_pick (0,5,"op")) { case 0: if (at+1 < n) { CHECK(&++i == &i, "++"); ++at; } break; case 1: if (at+1 < n) { istream_iterator<T> o (i++); CHECK(*o == v[at], "old"); ++at; } break; case 2: if (at) { --i; --at; } break; case 3: if (at) { istream_iterator<T> o (i--); CHECK(*o == v[at], "old"); --at; } break; case 4: { size_t k = sym_pick (0,n-1-at,"k"); i += k; at += k; } break; case 5: { size_t k = sym_pick (0,at,"k"); i -= k; at -= k; } break; } CHECK(*i == v[at] && is.pos() == (at+1)*sizeof(T), "value and cursor"); }
    istream is2 (a.p, n*sizeof(T)); istream_iterator<T> i2 (is2), e; size_t b = sym_pick (0,n-1,"b"); i2 += b; CHECK(i - i2 == (ptrdiff_t)(at) - (ptrdiff_t) b, "difference"); CHECK((i == i2) == (at == b) && (i < i2) == (at < b) && i < e && !(e < i) && !(i == e) && e == istream_iterator<T>(), "order"); CHECK(*(i2 - b) == v[0], "minus");
    exact d (n*sizeof(T)); ostream os (d.p, n*sizeof(T)); ostream_iterator<T> o (os); for (size_t j = 0; j < n; ++j) { if (sym_bool("post")) *o++ = v[j]; else { *o = v[j]; ++o; } } CHECK(!memcmp (a.p, d.p, n*sizeof(T)) && !os.remaining(), "written"); OBS(at);
}
extern "C" void h_iter (int c) { switch (c) { case 0: iters<uint8_t>(); break; case 1: iters<uint16_t>(); break; case 2: iters<uint32_t>(); break; case 3: iters<int>(); break; } }
