//@ property=C06
//@ oracle="character sequence model edited in parallel; NUL after the text; borrowed text compared with its original"
//@ entry=h_edit cases=0-5 tcases=6-11 bound="every history of 2 (thorough 3) operations out of 33 on two strings from 6 starting states (empty, linked constant, owned exactly full, owned with room, link into unterminated text, copied link), all positions, counts 0-3, all character values"
//@ entry=h_ctor cases=0 bound="every constructor on texts of 0-5 characters, substring positions 0-6 and counts 0-6 and npos"
//@ entry=h_size cases=0-1 bound="append, push_back, insert, erase, resize, shrink_to_fit across sizes 0-40 (capacity boundaries)"
//@ entry=h_self cases=0 bound="appending a string to itself, whole or a part, owned and linked, sizes 0-5; replacing and erasing with capacity to spare"
//@ entry=h_cat cases=0 bound="operator+ of strings, C strings, 0-3 characters each"
//@ entry=h_wide cases=0-1 bound="insertion, append and assignment of wide characters: 1-2 characters, each any code point 0-0x7fffffff, repeated 0-2 times at every place"
//@ entry=h_limit cases=0 bound="resize and reserve to sizes near SIZE_MAX are refused"
//@ outside="assign, insert and replace with part of the string itself when that reallocates (documented as unsupported), positions beyond the end for erase and insert (asserted preconditions), using a moved-from string other than to assign to, clear or destroy it"
#include "hx.h"
#include "ustring.h"
#include "ustdxept.h"
typedef Seq<char,64> M;
static exact* src; static char src0[7]; enum { SRC = 6 };
static void sverify (const string& s, const M& m, bool term = true)
{
    CHECK(s.size() == m.n && s.empty() == !m.n && size_t(s.end()-s.begin()) == m.n, "size"); bool ok = true; for (size_t i = 0; i < m.n; ++i) ok &= s.begin()[i] == m.v[i]; CHECK(ok, "text");
    if (term) CHECK(s.c_str() && !s.c_str()[m.n], "NUL after the text"); CHECK(s.is_linked() || s.capacity() >= m.n, "capacity covers the text");
    bool u = true; for (size_t i = 0; i <= SRC; ++i) u &= src->p[i] == src0[i]; CHECK(u, "linked text is never written");
}
static void mksrc (void) { src = new exact(SRC+1); for (int i = 0; i < SRC; ++i) { char c = (char) sym_u8("s"); sym_assume(c != 0); src->p[i] = src0[i] = c; } src->p[SRC] = src0[SRC] = 0; }
static void sinit (string& s, M& m, int st)
{
    size_t k = 0; bool fill = true;
    switch (st) { case 0: break; case 1: s.relink(src->p+SRC-3,3); for (size_t i = SRC-3; i < SRC; ++i) m.push(src0[i]); fill = false; break; case 2: s.reserve(2,true); k = 2; break; case 3: s.reserve(20); k = 3; break; case 4: s.link(src->p,3); fill = false; k = 3; break; case 5: { string q ((const char*)src->p); s = string(q); fill = false; k = SRC; } break; }
    for (size_t i = 0; i < k; ++i) { char c = fill ? (char) sym_u8("c") : src0[i]; if (fill) s.push_back(c); m.push(c); }
}
static const char* lit (size_t n) { return (const char*) src->p+SRC-n; }	// a NUL terminated text of n characters
static void sstep (string& a, M& m, string& b, M& n)
{
    size_t was = m.n, p, k, q, z; char c = (char) sym_u8("c"), d; string::iterator r; char t[2] = { c, src0[0] }; const string::size_type N = string::npos;
    switch (sym_pick(0,32,"op")) {
	case 0: a.push_back(c); m.push(c); break;
	case 1: a += c; m.push(c); break;
	case 2: k = sym_pick(0,3,"n"); a.append(lit(k),k); for (size_t i = 0; i < k; ++i) m.push(src0[SRC-k+i]); break;
	case 3: k = sym_pick(0,3,"n"); if (sym_bool("op")) a += lit(k); else a.append(lit(k)); for (size_t i = 0; i < k; ++i) m.push(src0[SRC-k+i]); break;
	case 4: k = sym_pick(0,3,"n"); a.append(k,c); m.insert(m.n,k,c); break;
	case 5: if (sym_bool("op")) a += b; else a.append(b); for (size_t i = 0; i < n.n; ++i) m.push(n.v[i]); break;
	case 6: p = sym_pick(0,n.n,"o"); k = sym_pick(0,n.n+1-p,"n"); a.append(b,p,k); for (size_t i = p; i < n.n && i < p+k; ++i) m.push(n.v[i]); break;
	case 7: if (was) { a.pop_back(); --m.n; } break;
	case 8: k = sym_pick(0,9,"n"); a.resize(k,c); while (m.n < k) m.push(c); m.n = k; break;
	case 9: k = sym_pick(0,was,"n"); a.resize(k); m.n = k; break;
	case 10: a.clear(); m.n = 0; break;
	case 11: p = sym_pick(0,was,"pos"); k = sym_pick(0,2,"n"); if (sym_bool("it")) { r = a.insert(a.iat(p),k,c); CHECK(r == a.begin()+p, "insert returns the place"); } else a.insert(p,k,c); m.insert(p,k,c); break;
	case 12: p = sym_pick(0,was,"pos"); k = sym_pick(0,2,"n"); switch (sym_pick(0,2,"how")) { case 0: a.insert(p,lit(k)); break; case 1: a.insert(p,lit(k),k); break; case 2: a.insert(p,string(lit(k))); break; } for (size_t i = 0; i < k; ++i) m.insert(p+i,src0[SRC-k+i]); break;
	case 13: p = sym_pick(0,was,"pos"); q = sym_pick(0,n.n,"sp"); k = sym_pick(0,n.n-q,"n"); a.insert(p,b,q,k); for (size_t i = 0; i < k; ++i) m.insert(p+i,n.v[q+i]); break;
	case 14: p = sym_pick(0,was,"pos"); k = sym_pick(0,2,"n"); r = a.insert(a.begin()+p,(const char*)t,(const char*)t+2,k); for (size_t i = 0; i < k*2; ++i) m.insert(p+i,t[i%2]); CHECK(r == a.begin()+p, "insert returns the place"); break;
	case 15: p = sym_pick(0,was,"pos"); r = a.insert(a.begin()+p,c); m.insert(p,c); CHECK(r == a.begin()+p, "insert returns the place"); break;
	case 16: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); if (sym_bool("it")) { r = a.erase(a.iat(p),k); CHECK(r == a.begin()+p, "erase returns the place"); } else a.erase(p,k); m.erase(p,k); break;
	case 17: p = sym_pick(0,was,"pos"); k = sym_pick(p,was,"end"); if (sym_bool("r")) r = a.eraser(p,k); else r = a.erase(a.iat(p),a.iat(k)); m.erase(p,k-p); CHECK(r == a.begin()+p, "erase returns the place"); break;
	case 18: p = sym_pick(0,was,"pos"); if (sym_bool("p")) { a.erase(p); } else { a.erase(p,N); } m.n = p; break;
	case 19: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); z = sym_pick(0,3,"z"); switch (sym_pick(0,3,"how")) { case 0: a.replace(p,k,lit(z)); break; case 1: a.replace(p,k,lit(z),z); break; case 2: a.replace(a.iat(p),a.iat(p+k),lit(z)); break; case 3: a.replace(a.iat(p),a.iat(p+k),lit(z),z); break; } m.erase(p,k); for (size_t i = 0; i < z; ++i) m.insert(p+i,src0[SRC-z+i]); break;
	case 20: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); z = sym_pick(0,2,"z"); if (sym_bool("it")) a.replace(a.iat(p),a.iat(p+k),z,c); else a.replace(p,k,z,c); m.erase(p,k); m.insert(p,z,c); break;
	case 21: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); if (sym_bool("sub")) { q = sym_pick(0,n.n,"sp"); z = sym_pick(0,n.n-q,"z"); a.replace(p,k,b,q,z); } else { q = 0; z = n.n; if (sym_bool("it")) a.replace(a.iat(p),a.iat(p+k),b); else a.replace(p,k,b); } m.erase(p,k); for (size_t i = 0; i < z; ++i) m.insert(p+i,n.v[q+i]); break;
	case 22: p = sym_pick(0,was,"pos"); k = sym_pick(0,was-p,"n"); a.replace(a.iat(p),a.iat(p+k),{c,'x'}); m.erase(p,k); m.insert(p,c); m.insert(p+1,'x'); break;
	case 23: k = sym_pick(0,3,"n"); switch (sym_pick(0,4,"how")) { case 0: a.assign(lit(k)); break; case 1: a.assign(lit(k),k); break; case 2: a = lit(k); break; case 3: a.assign(lit(k),lit(0)); break; case 4: a = string(lit(k),k); break; } m.n = 0; for (size_t i = 0; i < k; ++i) m.push(src0[SRC-k+i]); break;
	case 24: if (sym_bool("n")) { k = sym_pick(0,3,"n"); a.assign(k,c); m.n = 0; m.insert(0,k,c); } else { a = c; m.n = 0; m.push(c); } break;
	case 25: if (sym_bool("op")) a = b; else a.assign(b); m = n; break;
	case 26: p = sym_pick(0,n.n,"o"); k = sym_pick(0,n.n+1-p,"n"); a.assign(b,p,k); m.n = 0; for (size_t i = p; i < n.n && i < p+k; ++i) m.push(n.v[i]); break;
	case 27: a.swap(b); { M x (m); m = n; n = x; } break;
	case 28: if (sym_bool("ctor")) { string x (ustl::move(a)); sverify(x,m,false); a = ustl::move(x); } else { a = ustl::move(b); m = n; b.clear(); n.n = 0; } break;
	case 29: { string x (a); sverify(x,m,false); x.push_back(c); x.insert(x.begin(),c); if (x.size() > 2) x[1] = 'y'; sverify(a,m,false); const string& s = a; a = s; } break;
	case 30: p = sym_pick(0,was,"pos"); k = sym_pick(0,was+1-p,"n"); { string x (a.substr(p,k)); M y; for (size_t i = p; i < was && i < p+k; ++i) y.push(m.v[i]); sverify(x,y); x += c; string w (a.substr(p)); y.n = 0; for (size_t i = p; i < was; ++i) y.push(m.v[i]); sverify(w,y); sverify(a,m,false); } break;
	case 31: k = sym_pick(0,3,"how"); if (k == 0) { a.reserve(sym_pick(0,9,"n")); } else if (k == 1) a.shrink_to_fit(); else if (k == 2) a.copy_link(); else { if (!was || a.is_linked()) break; p = sym_pick(0,was-1,"pos"); a[p] = c; m.v[p] = c; a.at(p) = c; if (p == 0) CHECK(a.front() == c, "front"); if (p+1 == was) CHECK(a.back() == c, "back"); } break;
	case 32: { char buf[8] = "zzzzzzz"; p = sym_pick(0,was,"pos"); k = sym_pick(1,6,"n"); if (!a.begin()) break; if (sym_bool("to")) { size_t w = a.copyto(buf,k,p), e = was-p < k-1 ? was-p : k-1; CHECK(w == e && !buf[e] && buf[e+1] == 'z', "copyto terminates"); for (size_t i = 0; i < e; ++i) CHECK(buf[i] == m.v[p+i], "copyto"); } else { size_t w = a.copy(buf,k,p), e = was-p < k ? was-p : k; CHECK(w == e && buf[e] == 'z', "copy"); for (size_t i = 0; i < e; ++i) CHECK(buf[i] == m.v[p+i], "copy"); } d = 0; } break;
    }
}
extern "C" void h_edit (int c)
{
    mksrc(); { string a, b; M m, n; int st = c % 6; sinit(a,m,st); sinit(b,n,(int) sym_pick(0,1,"b")*2); int steps = c < 6 ? 2 : 3;
    if (c < 6 && st > 3) steps = 1; steps = sym_pick(1,steps,"steps"); sverify(a,m,st != 4);
    for (int i = 0; i < steps; ++i) { sstep(a,m,b,n); sverify(a,m,!a.is_linked() || st != 4); } sverify(b,n,st != 4 || !b.is_linked()); OBS(a.size()); if (m.n) OBS(a[0]); OBS(b.size()); }
    delete src; CHECK(!sym_live_allocs(), "all memory is released");
}
extern "C" void h_ctor (int)
{
    mksrc(); { size_t k = sym_pick(0,5,"n"), p, z; char c = (char) sym_u8("c"); M m; for (size_t i = 0; i < k; ++i) m.push(src0[SRC-k+i]);
    { string s; M e; sverify(s,e); } { string s (lit(k)); sverify(s,m); CHECK(s.is_linked(), "a C string is linked"); string t (s); sverify(t,m); s.push_back(c); sverify(t,m); t.push_back(c); m.push(c); sverify(t,m); --m.n; }
    { string s (lit(k),k); sverify(s,m); string t (s); sverify(t,m); if (k) { s[0] = 0; sverify(t,m); t[0] = c; sverify(t,[&]{ M x (m); x.v[0] = c; return x; }()); } }
    { string s (lit(k),lit(0)); sverify(s,m); cmemlink l (lit(k),k); string t (l); sverify(t,m); }
    { string s ({c,'b',c}); M x; x.push(c); x.push('b'); x.push(c); sverify(s,x); string t (k,c); M y; y.insert(0,k,c); sverify(t,y); string e ((const char*)nullptr); M z2; sverify(e,z2); }
    p = sym_pick(0,6,"pos"); z = sym_pick(0,7,"count"); { string s (lit(k),k); string t (s,p,z == 7 ? size_t(string::npos) : z); M y; for (size_t i = p; i < k && (z == 7 || i < p+z); ++i) y.push(m.v[i]); sverify(t,y); }
    OBS(k); } delete src;
}
extern "C" void h_size (int cc)
{
    mksrc(); { string a; M m; size_t n = sym_pick(0,40,"n"); if (cc) a.reserve(n,true); char c = (char) sym_u8("c"), d = (char) sym_u8("d"); a.append(n,c); m.insert(0,n,c); sverify(a,m); size_t p;
    switch (sym_pick(0,7,"op")) { case 0: a.push_back(d); m.push(d); break; case 1: a.append(lit(5)); for (int i = 1; i < 6; ++i) m.push(src0[i]); break; case 2: p = sym_pick(0,3,"pos")*n/3; a.insert(p,3,d); m.insert(p,3,d); break; case 3: if (n) { a.erase(n/2,1); m.erase(n/2); } break;
	case 4: a.shrink_to_fit(); sverify(a,m); a.push_back(d); m.push(d); break; case 5: a.resize(n+9,d); m.insert(n,9,d); break; case 6: { string b (a); a.clear(); a += b; } break; case 7: a.reserve(n+3); break; }
    sverify(a,m); OBS(a.size()); } delete src;
}
extern "C" void h_self (int)
{
    mksrc(); { string a; M m; sinit(a,m,(int) sym_pick(0,5,"st")); size_t n = m.n, p, k;
    switch (sym_pick(0,4,"op")) { case 0: a += a; for (size_t i = 0; i < n; ++i) m.push(m.v[i]); break; case 1: a.append(a); for (size_t i = 0; i < n; ++i) m.push(m.v[i]); break;
	case 2: p = sym_pick(0,n,"p"); k = sym_pick(0,n-p,"k"); a.append(a,p,k); for (size_t i = 0; i < k; ++i) m.push(m.v[p+i]); break;
	case 3: p = sym_pick(0,n,"p"); a.append(a.begin()+p,a.end()); for (size_t i = p; i < n; ++i) m.push(m.v[i]); break;
	case 4: { string b (a+a); a = b; for (size_t i = 0; i < n; ++i) m.push(m.v[i]); } break; }
    sverify(a,m); OBS(a.size()); } delete src;
}
extern "C" void h_cat (int)
{
    mksrc(); { size_t x = sym_pick(0,3,"x"), y = sym_pick(0,3,"y"); string a, b (lit(y)); M m, r; for (size_t i = 0; i < x; ++i) { char c = (char) sym_u8("c"); a.push_back(c); m.push(c); } r = m; for (size_t i = 0; i < y; ++i) r.push(src0[SRC-y+i]);
    sverify(a+b,r); sverify(a+lit(y),r); M q; for (size_t i = 0; i < y; ++i) q.push(src0[SRC-y+i]); for (size_t i = 0; i < x; ++i) q.push(m.v[i]); sverify(b+a,q); sverify(lit(y)+a,q); sverify(a,m); OBS(x+y); } delete src;
}
static size_t enc (uint32_t v, char* o)	// the definition of UTF-8, extended to 31 bits
{
    if (v < 0x80) { o[0] = char(v); return 1; }
    size_t n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; static const unsigned char H[] = {0,0,0xc0,0xe0,0xf0,0xf8,0xfc};
    for (size_t i = n; --i;) { o[i] = char(0x80 | (v & 0x3f)); v >>= 6; } o[0] = char(H[n] | v); return n;
}
extern "C" void h_wide (int c)
{
    mksrc(); { string a; M m; size_t n = sym_pick(0,2,"n"), z = sym_pick(0,2,"count"), l = 0; for (size_t i = 0; i < n; ++i) { char x = (char) sym_u8("x"); a.push_back(x); m.push(x); } if (c && sym_bool("linked")) { a = string(); a.relink(src->p,3); m.n = 0; for (int i = 0; i < 3; ++i) m.push(src0[i]); n = 3; if (sym_bool("own")) a.copy_link(); }
    wchar_t w[3]; char o[14]; size_t k = c ? sym_pick(0,2,"k") : 1, p = sym_pick(0,n,"pos"); for (size_t i = 0; i < k; ++i) { w[i] = (wchar_t) sym_bits(31,"w"); if (i) sym_assume((w[i] > 0x7f) & (w[i] < 0x20000)); else sym_assume(w[i] != 0); l += enc(w[i],o+l); } w[k] = 0;
    if (!c) switch (sym_pick(0,4,"op")) { case 0: a.insert(p,z,w[0]); break; case 1: p = n; a.append(z,w[0]); break; case 2: a.push_back(w[0]); z = 1; p = n; break; case 3: a += w[0]; z = 1; p = n; break; case 4: a.assign(z,w[0]); m.n = p = 0; break; }
    else switch (sym_pick(0,4,"op")) { case 0: a.insert(p,(const wchar_t*)w,(const wchar_t*)w+k,z); break; case 1: p = n; z = 1; a.append((const wchar_t*)w,(const wchar_t*)w+k); break; case 2: a += (const wchar_t*)w; z = 1; p = n; break; case 3: a.assign((const wchar_t*)w); m.n = p = 0; z = 1; break; case 4: a = (const wchar_t*)w; m.n = p = 0; z = 1; break; }
    for (size_t i = 0; i < z; ++i) for (size_t j = 0; j < l; ++j) m.insert(p+i*l+j,o[j]); sverify(a,m); OBS(a.size()); } delete src;
}
extern "C" void h_limit (int)
{
    mksrc(); { string a; M m; sinit(a,m,(int) sym_pick(0,3,"st")); size_t n = SIZE_MAX - sym_pick(0,2,"less"); bool threw = false; try { if (sym_bool("resize")) a.resize(n); else a.reserve(n,sym_bool("exact")); } catch (exception&) { threw = true; } CHECK(threw, "an impossible size is refused"); sverify(a,m); OBS(threw); } delete src;
}
