//@ property=C03
//@ oracle="byte by byte definition over saved copies"
//@ entry=h_view cases=0-2 bound="cmemlink, memlink and memblock-as-view over blocks of 0-6 bytes, all contents"
//@ entry=h_equal cases=0 bound="all pairs of blocks of 0-5 bytes, same or different storage"
//@ entry=h_edit cases=0-1 tcases=2-3 bound="insert and erase at every position and length on blocks of 0-20 bytes (thorough 0-70)"
//@ entry=h_fill cases=0 tcases=1 bound="fill with patterns of 0-5,7-9,12,15-17,20,31-33 bytes repeated 0-5 (thorough 0-9) times from start 0-9 (thorough 0-16) of a 136 byte aligned block"
//@ entry=h_swap cases=0 bound="swap and assignment of links"
//@ entry=h_null cases=0 bound="linking a null pointer"
//@ entry=h_stream cases=0-1 bound="memlink and cmemlink streaming of 0-9 bytes; destination blocks of 0-9 bytes"
#include "hx.h"
#include "memblock.h"
#include "mistream.h"
#include "mostream.h"
#include "sistream.h"
#include "sostream.h"
#include "ustdxept.h"
template <typename L> static void view (void)
{
    size_t n = sym_pick(0,6,"n"); exact b(n); for (size_t i = 0; i < n; ++i) b.p[i] = (char) sym_u8("b");
    L l; CHECK(!l.size() && l.empty() && !l.cdata(), "default is empty");
    switch (sym_pick(0,4,"how")) { case 0: l.link(b.p,n); break; case 1: l.link((const void*)b.p,(const void*)(b.p+n)); break; case 2: l.relink(b.p,n); break; case 3: { L k; k.link((const void*)b.p,n); l.link(k); } break; case 4: { cmemlink k((const void*)b.p,n); L q; q.link(k); l.relink(q.cdata(),q.size()); } break; }
    const L& c = l;
    CHECK(c.size() == n && c.max_size() == n && c.readable_size() == n && c.empty() == !n, "size");
    CHECK(c.cdata() == b.p && c.data() == b.p && c.begin() == b.p && c.end() == b.p+n, "extent");
    size_t i = sym_pick(0,n,"i"); CHECK(c.iat(i) == b.p+i && l.iat(i) == b.p+i, "iat");
    size_t k = 0; for (typename L::const_iterator it = c.begin(); it != c.end(); ++it, ++k) CHECK(*it == b.p[k], "iteration"); CHECK(k == n, "iterates all");
    size_t m = sym_pick(0,n,"m"); l.resize(m); CHECK(l.size() == m && l.cdata() == b.p, "shrinking a link"); l.resize(n);
    OBS(n); if (n) OBS(l.cdata()[n-1]);
    l.unlink(); CHECK(!l.size() && !l.cdata(), "unlink");
}
extern "C" void h_view (int c)
{
    if (c == 0) view<cmemlink>(); else if (c == 1) view<memlink>();
    else { char b[4] = {1,2,3,4}; size_t n = sym_pick(0,4,"n"); memlink l(b,n); memlink d(l); cmemlink e(l); memlink f((const void*)b,n); memlink g(e); CHECK(d == l && e == l && f == l && g == l && d.data() == b && e.data() == b && g.data() == b, "copies denote the same block"); CHECK(l.writable_size() == n, "writable"); l.begin()[0] = 9; CHECK(b[0] == 9, "writes through"); OBS(b[0]); }
}
extern "C" void h_equal (int c)
{
    size_t n = sym_pick(0,5,"n"), m = sym_pick(0,5,"m"); exact x(n), y(m); for (size_t i = 0; i < n; ++i) x.p[i] = (char) sym_u8("x"); for (size_t i = 0; i < m; ++i) y.p[i] = (char) sym_u8("y");
    cmemlink a(x.p,n), b(y.p,m); bool eq = n == m; for (size_t i = 0; i < n && i < m; ++i) eq &= x.p[i] == y.p[i];
    CHECK((a == b) == eq, "equality is size and bytes"); CHECK((b == a) == eq, "symmetric"); CHECK(a == a, "reflexive"); cmemlink s(x.p,n); CHECK(s == a, "same storage");
    if (n) { cmemlink t(x.p,n-1); CHECK(!(t == a), "prefix differs"); memlink mm(y.p,m); CHECK((mm == a) == eq, "memlink against cmemlink"); } OBS(a == b);
}
extern "C" void h_edit (int c)
{
    size_t n = sym_pick(0,c < 2 ? 20 : 70,"n"), p = sym_pick(0,n,"p"), k = sym_pick(0,n-p,"k"); exact b(n+2); char o[72]; for (size_t i = 0; i < n+2; ++i) o[i] = b.p[i] = (char) sym_u8("b");
    memlink l(b.p+1,n);
    if (c & 1) { l.erase(l.begin()+p,k); for (size_t i = p; i+k < n; ++i) CHECK(b.p[1+i] == o[1+i+k], "erase moves the tail down"); }
    else { l.insert(l.begin()+p,k); for (size_t i = p+k; i < n; ++i) CHECK(b.p[1+i] == o[1+i-k], "insert moves the tail up"); }
    for (size_t i = 0; i < p+1; ++i) CHECK(b.p[i] == o[i], "nothing before the place changes"); CHECK(b.p[n+1] == o[n+1], "nothing after the block changes"); CHECK(l.size() == n && l.begin() == b.p+1, "size unchanged");
    OBS(b.p[n/2]);
}
extern "C" void h_fill (int c)
{
    // every pattern width the code may treat specially, the block edges in the middle of a larger buffer
    enum { N = 136 }; static const unsigned ess[] = {0,1,2,3,4,5,7,8,9,12,15,16,17,20,31,32,33};
    alignas(16) char b[N]; char o[N], pat[33]; for (int i = 0; i < N; ++i) o[i] = b[i] = (char) sym_u8("b"); for (int i = 0; i < 33; ++i) pat[i] = (char) sym_u8("p");
    size_t es = ess[sym_pick(0,16,"es")], cnt = sym_pick(0,c < 1 ? 5 : 9,"cnt"); if (es*cnt > N-16) sym_stop(); size_t st = sym_pick(0,c < 1 ? 9 : 16,"st"); if (st+es*cnt > N) sym_stop(); memlink l(b,N);
    if (cnt == 1 && sym_bool("default")) l.fill(l.begin()+st,pat,es); else l.fill(l.begin()+st,pat,es,cnt);
    bool ok = true; for (size_t i = 0; i < N; ++i) ok &= b[i] == (i >= st && i < st+es*cnt ? pat[(i-st)%es] : o[i]); CHECK(ok, "fill writes the pattern and nothing else"); OBS(b[st < N ? st : 0]);
}
extern "C" void h_swap (int c)
{
    char x[3] = {1,2,3}, y[2] = {4,5}; size_t n = sym_pick(0,3,"n"), m = sym_pick(0,2,"m");
    { cmemlink a(x,n), b(y,m); a.swap(b); CHECK(a.cdata() == y && a.size() == m && b.cdata() == x && b.size() == n, "swap"); a = b; CHECK(a.cdata() == x && a.size() == n, "assign"); a = a; CHECK(a.cdata() == x && a.size() == n, "self assign"); }
    { memlink a(x,n), b(y,m); a.swap(b); CHECK(a.data() == y && a.size() == m && b.data() == x && b.size() == n, "swap"); a = b; CHECK(a.data() == x && a.size() == n, "assign"); cmemlink q(y,m); a = q; CHECK(a.cdata() == y && a.size() == m, "assign"); }
    CHECK(x[0] == 1 && x[2] == 3 && y[0] == 4 && y[1] == 5, "contents untouched"); OBS(n);
}
extern "C" void h_null (int c)
{
    char b[2]; memlink l(b,2); size_t n = sym_range(0,3,"n"); bool threw = false;
    try { l.link((void*)nullptr,n); } catch (ustl::bad_alloc&) { threw = true; }
    CHECK(threw == (n != 0), "a null link of non-zero size is refused"); if (threw) CHECK(l.data() == b && l.size() == 2, "and the link unchanged"); else CHECK(!l.size(), "null link is empty"); OBS(threw);
}
extern "C" void h_stream (int c)
{
    size_t n = sym_pick(0,9,"n"); char x[9], y[11], o[11]; for (size_t i = 0; i < n; ++i) x[i] = (char) sym_u8("x"); for (int i = 0; i < 11; ++i) o[i] = y[i] = (char) sym_u8("y");
    if (c) { cmemlink a(x,n); ostringstream os; a.text_write(os); string s(os.str()); CHECK(s.size() == n, "text is the bytes"); for (size_t i = 0; i < n; ++i) CHECK(s[i] == x[i], "text bytes"); OBS(n); return; }
    char buf[32]; cmemlink a(x,n); size_t z = a.stream_size(); CHECK(z >= 4+n && z < 8+n && z % 4 == 0, "stream size"); ostream os(buf,z); os << a; CHECK(!os.remaining(), "writes stream_size bytes");
    size_t m = sym_pick(0,9,"m"); memlink d(y+1,m); istream is(buf,z); bool threw = false;
    try { is >> d; } catch (length_error&) { threw = true; }
    CHECK(threw == (n > m), "a block that does not fit is refused");
    if (!threw) { CHECK(d.size() == n && d.data() == y+1 && !is.remaining(), "reads it back"); for (size_t i = 0; i < n; ++i) CHECK(y[1+i] == x[i], "bytes"); for (size_t i = n+1; i < 11; ++i) CHECK(y[i] == o[i], "nothing beyond"); CHECK(y[0] == o[0], "nothing before"); }
    else for (int i = 0; i < 11; ++i) CHECK(y[i] == o[i], "destination untouched");
    OBS(threw); OBS(d.size());
}
