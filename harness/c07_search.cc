//@ property=C07
//@ oracle="naive definition of each search as a formula over the bytes"
//@ entry=h_char cases=0-3 bound="texts of 0-6 characters, every character value, every start 0-8 and npos"
//@ entry=h_text cases=0-9 tcases=10-19 bound="texts of 0-7 (thorough 10) characters, patterns of 0-4 characters, all byte values, every start 0 to size+2 and npos, owned and unterminated linked text"
//@ entry=h_set cases=0-3 bound="texts of 0-4 characters, character sets of 0-3, all byte values, all starts"
//@ entry=h_long cases=0 bound="pattern of one to three letters in texts of 0-40 letters a/b with one odd place"
//@ outside="empty patterns: uSTL documents no result for them and consistently reports them as never found, which is what is checked; strings of 2 GB and more (npos is INT_MAX)"
#include "hx.h"
#include "ustring.h"
static const size_t NP = string::npos;
struct T { string s; exact* x; uint8_t c[48]; size_t n; T () : x (nullptr), n (0) {} ~T () { delete x; } };
static void mk (T& t, size_t n, bool linked)
{
    t.n = n; for (size_t i = 0; i < n; ++i) t.c[i] = sym_u8("t");
    if (linked) { t.x = new exact(n); for (size_t i = 0; i < n; ++i) t.x->p[i] = (char) t.c[i]; t.s.link (t.x->p,n); }
    else for (size_t i = 0; i < n; ++i) t.s.push_back ((char) t.c[i]);
}
static size_t start (size_t n, bool& dflt) { size_t p = sym_pick(0,n+3,"pos"); dflt = p == n+3; return dflt ? NP : p; }
template <typename F> static size_t fwd (size_t n, size_t pos, F hit) { size_t e = NP; for (size_t i = n; i-- > 0;) if (i >= pos) e = hit(i) ? i : e; return e; }
template <typename F> static size_t rev (size_t n, size_t pos, F hit) { size_t e = NP; for (size_t i = 0; i < n; ++i) if (i <= pos) e = hit(i) ? i : e; return e; }
extern "C" void h_char (int c)
{
    T t; mk (t, sym_pick(0,6,"n"), c & 1); uint8_t k = sym_u8("k"); bool d; size_t p = start(t.n,d), r, e; auto is = [&](size_t i) -> bool { return t.c[i] == k; };
    if (c < 2) { r = sym_bool("u") ? t.s.find((unsigned char) k,p) : t.s.find(char(k),p); e = fwd(t.n,p,is); if (!p) CHECK(r == t.s.find(char(k)), "default start"); } else { r = sym_bool("u") ? t.s.rfind((unsigned char) k,p) : t.s.rfind(char(k),p); e = rev(t.n,p,is); if (d) CHECK(r == t.s.rfind(char(k)), "default start"); }
    CHECK(r == e, "position"); OBS(r);
}
extern "C" void h_text (int c)
{
    bool deep = c >= 10, back = c & 1; int z = deep ? (c-10)/2 : c/2; size_t pn = z < 5 ? z : 2, n = deep ? sym_pick(8,10,"n") : sym_pick(0,7,"n");
    T t; mk (t, n, sym_bool("linked")); T q; mk (q, pn, sym_bool("plinked")); bool d; size_t p = start(t.n,d), r, e;
    auto is = [&](size_t i) -> bool { if (!pn || i + pn > t.n) return false; bool m = true; for (size_t j = 0; j < pn; ++j) m &= t.c[i+j] == q.c[j]; return m; };
    switch (sym_pick(0,2,"how")) {
	case 0: r = back ? t.s.rfind(q.s,p) : t.s.find(q.s,p); break;
	case 1: r = back ? t.s.rfind(q.s.begin(),p,pn) : t.s.find(q.s.begin(),p,pn); break;
	default: if (back ? !d : p != 0) return; r = back ? t.s.rfind(q.s) : t.s.find(q.s); break; }
    e = back ? rev(t.n,p,is) : fwd(t.n,p,is); CHECK(r == e, "position"); OBS(r);
}
extern "C" void h_set (int c)
{
    T t, q; size_t n = sym_pick(0,4,"n"); bool l = sym_bool("l"); mk (t, n, l); bool d; size_t p = start(t.n,d), r, e, pn = sym_pick(0,3,"k"); l = sym_bool("pl"); mk (q, pn, l);
    auto in = [&](size_t i) -> bool { bool m = false; for (size_t j = 0; j < pn; ++j) m |= t.c[i] == q.c[j]; return m; }; auto out = [&](size_t i) -> bool { return !in(i); };
    int how = (int) sym_pick(0,2,"how"); if (how == 2 && pn != 1) return; char k = (char) q.c[0];
    if (c == 0) { r = how == 0 ? t.s.find_first_of(q.s,p) : how == 1 ? t.s.find_first_of(q.s.begin(),p,pn) : t.s.find_first_of(k,p); e = fwd(t.n,p,in); if (!p) CHECK(r == t.s.find_first_of(q.s), "default start"); }
    else if (c == 1) { r = how == 0 ? t.s.find_first_not_of(q.s,p) : how == 1 ? t.s.find_first_not_of(q.s.begin(),p,pn) : t.s.find_first_not_of(k,p); e = fwd(t.n,p,out); if (!p) CHECK(r == t.s.find_first_not_of(q.s), "default start"); }
    else if (c == 2) { r = how == 0 ? t.s.find_last_of(q.s,p) : how == 1 ? t.s.find_last_of(q.s.begin(),p,pn) : t.s.find_last_of(k,p); e = rev(t.n,p,in); if (d) CHECK(r == t.s.find_last_of(q.s), "default start"); }
    else { r = how == 0 ? t.s.find_last_not_of(q.s,p) : how == 1 ? t.s.find_last_not_of(q.s.begin(),p,pn) : t.s.find_last_not_of(k,p); e = rev(t.n,p,out); if (d) CHECK(r == t.s.find_last_not_of(q.s), "default start"); }
    CHECK(r == e, "position"); OBS(r);
}
extern "C" void h_long (int)
{
    size_t n = sym_pick(0,40,"n"), o = sym_pick(0,n,"odd"), pn = sym_pick(1,3,"k"); string s, q; char t[48]; for (size_t i = 0; i < n; ++i) { t[i] = i == o ? 'b' : 'a'; s.push_back(t[i]); } char pb[3]; for (size_t j = 0; j < pn; ++j) { pb[j] = sym_bool("b") ? 'b' : 'a'; q.push_back(pb[j]); }
    auto is = [&](size_t i) -> bool { if (i + pn > n) return false; for (size_t j = 0; j < pn; ++j) if (t[i+j] != pb[j]) return false; return true; };
    size_t r = s.find(q), w = s.rfind(q); CHECK(r == fwd(n,0,is), "first"); CHECK(w == rev(n,NP,is), "last"); OBS(r); OBS(w);
}
