//@ property=C08
//@ oracle="lexicographic order on unsigned bytes written as a formula"
//@ entry=h_pair cases=0-6 tcases=7-12 bound="all pairs of strings of 0-6 (thorough 12) characters, all byte values including NUL, owned and linked: compare and the six relational operators, both ways"
//@ entry=h_cstr cases=0 bound="string against C string and C string against string, 0-3 characters each: compare and the relational operators both ways"
//@ entry=h_part cases=0-1 bound="compare of every part of a 0-4 character string with every part of a 0-3 character string, positions and lengths up to past the end"
//@ entry=h_chr cases=0 bound="comparison with a single character, strings of 0-3 characters"
//@ entry=h_link cases=0 bound="equality of views (cmemlink, memlink, memblock) of 0-4 bytes, same and different addresses"
//@ entry=h_hash cases=0 bound="hash of texts of 0-6 characters, all byte values: owned, linked, copied and static forms agree"
//@ entry=h_trans cases=0 bound="transitivity over triples of strings of 0-2 characters"
//@ outside="lengths whose difference does not fit an int"
#include "hx.h"
#include "ustring.h"
#include "memblock.h"
struct T { uint8_t c[16]; size_t n; exact* x; T () : n (0), x (nullptr) {} ~T () { delete x; } };
static void mk (T& t, string& s, size_t n, bool linked, bool nul)
{
    t.n = n; t.x = new exact (n+1); for (size_t i = 0; i < n; ++i) { t.c[i] = sym_u8("t"); if (!nul) sym_assume (t.c[i] != 0); t.x->p[i] = (char) t.c[i]; } t.x->p[n] = 0;
    if (linked) s.link (t.x->p, n); else s.assign (t.x->p, n);
}
static int ord (const uint8_t* a, size_t n, const uint8_t* b, size_t m)
{
    int r = n < m ? -1 : n > m ? 1 : 0; for (size_t i = n < m ? n : m; i-- > 0;) r = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : r; return r;
}
static bool sgn (int v, int e) { return ((v < 0) == (e < 0)) & ((v > 0) == (e > 0)); }
extern "C" void h_pair (int c)
{
    string s, t; T a, b; size_t n = c, m = sym_pick(0,c < 6 ? 6 : 12,"m"); bool l = sym_bool("link"); mk(a,s,n,l,true); mk(b,t,m,false,true); int e = ord(a.c,n,b.c,m);
    CHECK(sgn(s.compare(t),e), "compare"); CHECK(sgn(t.compare(s),-e), "compare reversed"); CHECK(s.compare(s) == 0, "reflexive");
    bool ok = (s == t) == (e == 0); ok &= (s != t) == (e != 0); ok &= (s < t) == (e < 0); ok &= (s > t) == (e > 0); ok &= (s <= t) == (e <= 0); ok &= (s >= t) == (e >= 0); CHECK(ok, "operators");
    ok = (t == s) == (e == 0); ok &= (t != s) == (e != 0); ok &= (t < s) == (e > 0); ok &= (t > s) == (e < 0); ok &= (t <= s) == (e >= 0); ok &= (t >= s) == (e <= 0); CHECK(ok, "operators reversed"); OBS(e+1);
}
extern "C" void h_cstr (int)
{
    string s, t; T a, b; size_t n = sym_pick(0,3,"n"), m = sym_pick(0,3,"m"); mk(a,s,n,false,true); mk(b,t,m,true,false); int e = ord(a.c,n,b.c,m); const char* p = t.c_str();
    CHECK(sgn(s.compare(p),e), "compare"); bool ok = (s == p) == (e == 0); ok &= (s != p) == (e != 0); ok &= (s < p) == (e < 0); ok &= (s > p) == (e > 0); CHECK(ok, "operators"); ok = (s <= p) == (e <= 0); ok &= (s >= p) == (e >= 0); CHECK(ok, "operators <= >=");
    ok = (p == s) == (e == 0); ok &= (p != s) == (e != 0); ok &= (p < s) == (e > 0); ok &= (p > s) == (e < 0); CHECK(ok, "operators reversed"); ok = (p <= s) == (e >= 0); ok &= (p >= s) == (e <= 0); CHECK(ok, "operators <= >= reversed"); OBS(e+1);
    CHECK((s == (const char*) nullptr) == !n, "null is the empty text");
}
extern "C" void h_part (int c)
{
    string s, t; T a, b; size_t n = sym_pick(0,4,"n"), m = sym_pick(0,3,"m"), p = sym_pick(0,n,"p"), l = sym_pick(0,n+1,"l"), q = 0, k = m; mk(a,s,n,c,true); mk(b,t,m,false,false); size_t x = p+l < n ? l : n-p, y; int r;
    switch (sym_pick(0,3,"how")) { case 0: r = s.compare(p,l,t); break; case 1: q = sym_pick(0,m,"q"); k = sym_pick(0,m+1,"k"); r = s.compare(p,l,t,q,k); break; case 2: k = sym_pick(0,m,"k"); r = s.compare(p,l,t.begin(),k); break; default: r = s.compare(p,l,t.c_str()); }
    y = q+k < m ? k : m-q; CHECK(sgn(r,ord(a.c+p,x,b.c+q,y)), "part compare"); CHECK(sgn(string::compare(s.iat(p),s.iat(p+x),t.iat(q),t.iat(q+y)),ord(a.c+p,x,b.c+q,y)), "range compare"); OBS(r);
}
extern "C" void h_chr (int)
{
    string s; T a; size_t n = sym_pick(0,3,"n"); bool l = sym_bool("l"); mk(a,s,n,l,true); uint8_t k = sym_u8("k"); int e = ord(a.c,n,&k,1); bool ok = (s == char(k)) == (e == 0); ok &= (s != char(k)) == (e != 0); ok &= (s < char(k)) == (e < 0); ok &= (s == k) == (e == 0); ok &= (s != k) == (e != 0); ok &= (s < k) == (e < 0); CHECK(ok, "character operators"); OBS(e+1);
}
extern "C" void h_link (int)
{
    string s, t; T a, b; size_t n = sym_pick(0,4,"n"), m = sym_pick(0,4,"m"); mk(a,s,n,true,true); mk(b,t,m,true,true); bool e = !ord(a.c,n,b.c,m); cmemlink x (s), y (t), z (s); memlink u, v; u.link(a.x->p,n); v.link(b.x->p,m); memblock g (a.x->p,n), h (b.x->p,m);
    bool ok = (x == y) == e; ok &= x == z; ok &= (u == v) == e; ok &= (g == h) == e; ok &= (x == h) == e; ok &= (g == v) == e; ok &= g == x; CHECK(ok, "equality"); OBS(e);
}
extern "C" void h_hash (int)
{
    string s, t; T a; size_t n = sym_pick(0,6,"n"); mk(a,s,n,true,false); t = s; t.copy_link(); string w (t); hashvalue_t h = string::hash(s.begin(),s.end()); t.push_back('x'); t.pop_back();
    CHECK((h == string::hash(t.begin(),t.end())) & (h == hash_value(s.begin(),s.end())) & (h == hash_value(w.c_str())), "equal texts hash equally"); OBS(h);
}
extern "C" void h_trans (int)
{
    string s, t, u; T a, b, d; size_t n = sym_pick(0,2,"n"), m = sym_pick(0,2,"m"), k = sym_pick(0,2,"k"); mk(a,s,n,false,true); mk(b,t,m,false,true); mk(d,u,k,false,true);
    bool x = s < t, y = t < u, z = s < u; CHECK(!(x & y) | z, "transitive"); CHECK(!(s < t && t < s), "antisymmetric"); OBS(z);
}
