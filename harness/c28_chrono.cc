//@ property=C28 wraps=time,clock_gettime,ctime
//@ oracle="cross multiplication: r is v ticks of p in ticks of q exactly when r*q <= v*p < (r+1)*q away from zero; plain integer arithmetic for the rest"
//@ entry=h_cast cases=0-14,16-19,21,23-26 tcases=15,20,22,27 bound="duration_cast, both ways, between 14 pairs of periods, from 1/3 s to millenia, of int64 counts of 7 symbolic bits anywhere in the range that does not overflow, both signs"
//@ entry=h_rep cases=0-5 bound="duration_cast between int32, int64 and double counts: counts of 7 symbolic bits at any position, 20 fractional ones"
//@ entry=h_implicit cases=0-4 bound="conversion to a finer period, and comparisons of durations of different periods, any counts that do not overflow"
//@ entry=h_arith cases=0-2 bound="every operator of duration: any int64 or int32 counts (8 bits for / and %)"
//@ entry=h_point cases=0 bound="every operator of time_point, conversions and time_point_cast, any counts that do not overflow"
//@ entry=h_hr cases=0-6 tcases=7 bound="hrtime_t of 8-bit seconds near 0 and 2^32 and any nanoseconds: every operator, * and / by 10 factors (with nanoseconds of 7 symbolic bits)"
//@ entry=h_hrcast cases=0-7 bound="duration_cast between hrtime_t durations and 8 others"
//@ entry=h_clock cases=0-1 bound="every clock, for any time the C library reports (seconds of 8 symbolic bits, at 1970 and 2033, nanoseconds of 6)"
//@ entry=h_text cases=0 bound="the text form of each standard duration, of 2-digit counts, of a ratio, hrtime_t and time points"
//@ trusted="time, clock_gettime and ctime are replaced by any result they may give"
//@ outside="ratio arithmetic is evaluated by the compiler: what it gives is seen through the durations built with it; negative hrtime_t; counts that overflow; floating point counts other than the listed ones"
#include "uutility.h"
#include "hx.h"
#include "ustdxept.h"
#include "umap.h"
#include "sistream.h"
#include "sostream.h"
#include "mistream.h"
#include "strmsize.h"
#include "uspecial.h"
#include "uchrono.h"
#include "mistream.h"
#include "mostream.h"
#include "uspecial.h"
#include "sostream.h"
#include <string.h>
#include <time.h>
using namespace chrono;
static long clkS, clkN; static int clkId;
extern "C" time_t __wrap_time (time_t* t) { if (t) *t = clkS; return clkS; }
extern "C" int __wrap_clock_gettime (clockid_t id, struct timespec* t) { clkId = id; t->tv_sec = clkS; t->tv_nsec = clkN; return 0; }
extern "C" char* __wrap_ctime (const time_t* t) { static char b [16]; CHECK(*t == clkS, "ctime of the time"); strcpy (b, "Thu Jan 1\n"); return b; }
static constexpr __int128 mg (__int128 a, __int128 b) { return b ? mg (b, a%b) : a; }
// |v|*A/B, with A and B reduced
template <typename P, typename Q> struct conv { static constexpr __int128 a0 = (__int128) P::num*Q::den, b0 = (__int128) P::den*Q::num, g = mg (a0,b0); static constexpr uint64_t A = uint64_t(a0/g), B = uint64_t(b0/g); };
static int64_t count (uint64_t A)	// 7 symbolic bits at a chosen place, so that count*A stays in range
{
    int top = 0; while (top < 62 && (A >> top)) ++top; int room = 62-top; int sh = room > 7 ? sym_pick (0,2,"shift")*(room-7)/2 : 0;
    uint64_t v = sym_bits (room < 7 ? room : 7,"v"); v <<= sh; if (sh && sym_bool ("low bits set")) v |= (1ull<<sh)-1; return sym_bool ("negative") ? -int64_t(v) : int64_t(v);
}
template <typename D, typename S> static void cast1 (void)
{
    typedef conv<typename S::period, typename D::period> C; int64_t v = count (C::A); int64_t r = duration_cast<D> (S(v)).count();
    uint64_t av = v < 0 ? 0-uint64_t(v) : v, ar = r < 0 ? 0-uint64_t(r) : r; CHECK(!r || (r < 0) == (v < 0), "sign"); uint64_t x = av*C::A; CHECK(ar <= av*C::A, "no overflow"); uint64_t y = ar*C::B; CHECK(y <= x && x-y < C::B, "the scaled count, truncated");
}
typedef duration<intmax_t,ratio<1,3> > thirds; typedef duration<intmax_t,ratio<1,2> > halves; typedef duration<intmax_t,centi> jiffs; typedef duration<intmax_t,ratio<2,7> > odd; typedef duration<intmax_t,ratio<3155,1000> > ncent;
template <typename A, typename B> static void both (int c) { if (c) cast1<B,A>(); else cast1<A,B>(); }
extern "C" void h_cast (int c)
{
    switch (c/2) {
	case 0: both<nanoseconds,microseconds> (c&1); break; case 1: both<microseconds,milliseconds> (c&1); break; case 2: both<milliseconds,seconds> (c&1); break; case 3: both<seconds,minutes> (c&1); break;
	case 4: both<minutes,hours> (c&1); break; case 5: both<hours,days> (c&1); break; case 6: both<days,weeks> (c&1); break; case 7: both<months,years> (c&1); break; case 8: both<years,millenia> (c&1); break;
	case 9: both<milliseconds,hours> (c&1); break; case 10: both<thirds,halves> (c&1); break; case 11: both<jiffs,thirds> (c&1); break; case 12: both<odd,ncent> (c&1); break; case 13: both<centuries,weeks> (c&1); break;
    }
}
static const double Frac [] = { 0, 0.25, 0.999, 1, 1.5, -0.5, -1.75, 2.001, 59.9, 60, 61.5, 119.99, -60, -119.5, 3599.25, 1000000.5, -1e6, 12345.678, 4e9, -4e9 };
extern "C" void h_rep (int c)
{
    typedef duration<int32_t,ratio<60> > imin; typedef duration<int32_t> isec; typedef duration<double> dsec; typedef duration<double,milli> dmil; typedef duration<int16_t,ratio<3600> > shour;
    if (c == 0) { int64_t v = count (1); int64_t m = v/60; sym_assume (m == int32_t(m)); CHECK(duration_cast<imin> (seconds (v)).count() == m, "narrowed after scaling"); }
    else if (c == 1) { int64_t v = count (1); int64_t m = v/3600; sym_assume (m == int16_t(m)); CHECK(duration_cast<shour> (seconds (v)).count() == m, "narrowed after scaling"); }
    else if (c == 2) { int32_t v = sym_u32 ("v"); CHECK(duration_cast<milliseconds> (isec (v)).count() == int64_t(v)*1000, "widened before scaling"); CHECK(milliseconds (isec (v)).count() == int64_t(v)*1000, "implicitly"); }
    else if (c == 3) { double f = Frac[sym_pick (0,19,"f")]; CHECK(duration_cast<seconds> (dsec (f)).count() == int64_t(f), "truncated"); CHECK(duration_cast<milliseconds> (dsec (f)).count() == int64_t(f*1000), "scaled, then truncated"); CHECK(duration_cast<minutes> (dsec (f)).count() == int64_t(f/60), "scaled, then truncated"); CHECK(duration_cast<dmil> (dsec (f)).count() == f*1000, "kept fractional"); CHECK(dsec (dmil (f)).count() == f/1000, "implicitly"); }
    else if (c == 4) { int k = int (sym_pick (0,9,"k"))*1237 - 5000; CHECK(dsec (milliseconds (k)).count() == k/1000.0, "integer to fractional"); CHECK(duration_cast<dmil> (seconds (k)).count() == k*1000.0, "integer to fractional"); }
    else { uint32_t v = sym_u32 ("v"); typedef duration<uint32_t> usec; CHECK(milliseconds (usec (v)).count() == int64_t(v)*1000, "unsigned"); CHECK(duration_cast<usec> (milliseconds (int64_t(v))).count() == v/1000, "unsigned"); }
}
template <typename S, typename L> static void impl (int64_t K)	// S is 1/K of L
{
    int64_t a = count (K), b = count (1); if (sym_bool ("close")) { int64_t d = sym_pick (0,2,"d"); b = a*K+d-1; }
    S s (b); L l (a); CHECK(S(l).count() == a*K, "to a finer period"); s = l; CHECK(s.count() == a*K, "assigned"); s = S(b);
    CHECK((s == l) == (b == a*K) && (l == s) == (b == a*K), "=="); CHECK((s < l) == (b < a*K) && (l < s) == (a*K < b), "<"); CHECK((S(l) >= s) == (a*K >= b) && (S(l) != s) == (a*K != b), "derived comparisons"); S t (s); t += l; CHECK(t.count() == int64_t(uint64_t(b)+uint64_t(a*K)), "mixed +="); CHECK((s - l).count() == int64_t(uint64_t(b)-uint64_t(a*K)), "mixed -");
}
extern "C" void h_implicit (int c) { switch (c) { case 0: impl<milliseconds,seconds> (1000); break; case 1: impl<seconds,hours> (3600); break; case 2: impl<nanoseconds,milliseconds> (1000000); break; case 3: impl<hours,weeks> (168); break; case 4: impl<halves,seconds> (2); break; } }
template <typename D> static void arith (void)
{
    typedef typename D::rep R; R a = R (sym_bits (sizeof(R)*8,"a")), b = R (sym_bits (sizeof(R)*8,"b")); typedef typename conditional<sizeof(R)==8,uint64_t,uint32_t>::type U; D x (a), y (b), z (x); U ua = a, ub = b;
    CHECK(x.count() == a && (+x).count() == a && z == x, "count"); CHECK(D::zero().count() == 0 && D::min().count() == numeric_limits<R>::min() && D::max().count() == numeric_limits<R>::max(), "limits");
    if (a != numeric_limits<R>::min()) CHECK((-x).count() == -a, "negated");
    CHECK((x == y) == (a == b) && (x < y) == (a < b) && (x != y) == (a != b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparisons");
    R s, d; bool so = __builtin_add_overflow (a,b,&s), dO = __builtin_sub_overflow (a,b,&d); (void) ua; (void) ub;
    if (!so) { CHECK((x + y).count() == s, "+"); z += y; CHECK(z.count() == s, "+="); z = x; } if (!dO) { CHECK((x - y).count() == d, "-"); z -= y; CHECK(z.count() == d, "-="); z = x; }
    if (a != numeric_limits<R>::max()) { CHECK((z++).count() == a && z.count() == a+1, "post ++"); z = x; CHECK((++z).count() == a+1 && z.count() == a+1, "++"); z = x; }
    if (a != numeric_limits<R>::min()) { CHECK((z--).count() == a && z.count() == a-1, "post --"); z = x; CHECK((--z).count() == a-1 && z.count() == a-1, "--"); }
}
extern "C" void h_arith (int c)
{
    if (c == 0) arith<milliseconds>(); else if (c == 1) arith<duration<int32_t,ratio<60> > >();
    else { int a = int8_t (sym_u8 ("a")), b = sym_concretize (int8_t (sym_u8 ("b"))%16); seconds x (a); CHECK((x *= b).count() == a*b, "*="); if (!b) return; x = seconds (a); CHECK((x /= b).count() == a/b, "/="); x = seconds (a); CHECK((x %= b).count() == a%b, "%="); x = seconds (a); CHECK((x %= seconds (b)).count() == a%b, "%= duration"); }
}
extern "C" void h_point (int)
{
    typedef time_point<system_clock,milliseconds> tp; typedef time_point<system_clock,seconds> tps; int64_t a = count (1)/4, b = count (1)/4; tp x {milliseconds(a)}, y {milliseconds(b)}; milliseconds d (b);
    CHECK(x.time_since_epoch().count() == a && tp::zero().time_since_epoch().count() == 0 && tp::min() < tp::max(), "since the epoch"); CHECK((x+d).time_since_epoch().count() == a+b && (x-d).time_since_epoch().count() == a-b && (x-y).count() == a-b, "+ and -");
    tp z (x); z += d; CHECK(z.time_since_epoch().count() == a+b, "+="); z -= d; CHECK(z == x, "-="); CHECK((x == y) == (a == b) && (x < y) == (a < b) && (x >= y) == (a >= b), "comparisons");
    int64_t s = count (1000); tps ws {seconds (s)}; tp w (ws); CHECK(w.time_since_epoch().count() == s*1000, "to a finer point"); CHECK(time_point_cast<seconds> (w).time_since_epoch().count() == s, "and back"); CHECK(system_clock::to_time_t (tps (seconds (s))) == s && system_clock::from_time_t (s) == tps (seconds (s)), "time_t");
}
static const long G = 1000000000;
static long secs (void) { long s = sym_u8 ("s"); return sym_bool ("high") ? s | 1l<<32 : s; }
static hrtime_t anyhr (void) { long s = secs(), n = sym_bits (30,"ns"); sym_assume (n < G); return hrtime_t (s,n); }
static hrtime_t fewhr (long& t) { static const long B [] = {0, 499999872, 999999872}; long s = sym_u8 ("s"), n = B[sym_pick (0,2,"base")] | sym_bits (7,"ns"); t = s*G+n; return hrtime_t (s,n); }
static bool norm (const hrtime_t& t) { return (t.tv_nsec >= 0) & (t.tv_nsec < G); }
static const long F [] = {0,1,2,3,7,10,60,1000,4096,1000000};
extern "C" void h_hr (int c)
{
    hrtime_t a = c < 4 ? anyhr() : hrtime_t();
    if (c == 0) { hrtime_t b = anyhr(), r = a+b; long n = a.tv_nsec+b.tv_nsec; CHECK(r.tv_sec == a.tv_sec+b.tv_sec+(n >= G) && r.tv_nsec == (n >= G ? n-G : n), "+"); r = a; r += b; CHECK(r == a+b, "+="); r -= b; CHECK(r == a, "-= undoes +="); }
    else if (c == 1) { hrtime_t b = anyhr(), r = a-b; CHECK(norm (r), "normalized"); bool br = a.tv_nsec < b.tv_nsec; CHECK(r.tv_sec == a.tv_sec-b.tv_sec-br && r.tv_nsec == a.tv_nsec-b.tv_nsec+(br ? G : 0), "-"); CHECK((a < b) == (a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec)), "<"); CHECK((a == b) == (a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec), "=="); }
    else if (c == 2) { hrtime_t r (a); ++r; bool w = a.tv_nsec == G-1; CHECK(r.tv_sec == a.tv_sec+w && r.tv_nsec == (w ? 0 : a.tv_nsec+1), "++"); --r; CHECK(r == a, "-- undoes ++"); CHECK(r++ == a && r-- == a+hrtime_t(0,1) && r == a, "post ++ and --"); }
    else if (c == 3) { CHECK(intmax_t (a) == a.tv_sec*G+a.tv_nsec, "in nanoseconds"); CHECK(+a == a && (-(-a)) == a && intmax_t(-a) == -intmax_t(a), "negation"); CHECK(intmax_t(hrtime_t()) == 0, "zero"); }
    else if (c == 4) { long t; hrtime_t x = fewhr (t), r = hrtime_t (intmax_t (t)); CHECK(r == x, "of nanoseconds"); }
    else { long t; hrtime_t x = fewhr (t); long f = F[c == 6 ? sym_pick (1,9,"f") : sym_pick (0,4,"f")+(c == 7)*5]; if (c != 6) { hrtime_t r = x*f; CHECK(norm (r), "normalized"); CHECK(r.tv_sec*G+r.tv_nsec == t*f, "*"); } else { hrtime_t r = x/f; CHECK(norm (r), "normalized"); long q = r.tv_sec*G+r.tv_nsec; CHECK(q*f <= t && t < q*f+f, "/"); } }
}
typedef duration<hrtime_t,nano> hrd;
extern "C" void h_hrcast (int c)
{
    long t; hrtime_t x = fewhr (t); hrd d (x);
    switch (c) {
	case 0: CHECK(duration_cast<nanoseconds> (d).count() == t, "to ns"); break;
	case 1: { long r = duration_cast<microseconds> (d).count(); CHECK(r*1000 <= t && t < r*1000+1000, "to us"); } break;
	case 2: { long r = duration_cast<milliseconds> (d).count(); CHECK(r*1000000 <= t && t < r*1000000+1000000, "to ms"); } break;
	case 3: CHECK(duration_cast<seconds> (d).count() == x.tv_sec, "to s"); break;
	case 4: CHECK(duration_cast<minutes> (d).count() == x.tv_sec/60, "to min"); break;
	case 5: { long s = secs(); hrd e (duration_cast<hrd> (seconds (s))); CHECK(e.count().tv_sec == s && e.count().tv_nsec == 0, "from s"); s &= 255; hrd f = minutes (s); CHECK(f.count().tv_sec == s*60 && f.count().tv_nsec == 0, "from min"); } break;
	case 6: { long m = sym_bits (13,"ms"); hrd e = milliseconds (m); CHECK(norm (e.count()) && e.count().tv_sec == m/1000 && e.count().tv_nsec == m%1000*1000000, "from ms"); hrd f = nanoseconds (t); CHECK(f.count() == x, "from ns"); } break;
	case 7: { hrd e (x); e += milliseconds (1500); CHECK(intmax_t (e.count()) == t+1500000000, "arithmetic"); CHECK((e - d).count() == hrtime_t (1,500000000), "difference"); CHECK(d < e && hrd::min() < d && d < hrd::max() && hrd::zero() <= d, "order"); CHECK(intmax_t(hrd::min().count().tv_nsec) == 0, "least"); } break;
    }
}
extern "C" void h_clock (int c)
{
    clkS = sym_u8 ("s") + (sym_bool ("late") ? 0x77777700 : 0); static const long B [] = { 0, 499999936, 999999936 }; clkN = sym_bits (6,"ns") | B[sym_pick (0,2,"base")]; sym_assume (clkN < G);
    if (c) { auto h = high_resolution_clock::now().time_since_epoch().count(); CHECK((h.tv_sec == clkS) & (h.tv_nsec == clkN), "high_resolution_clock"); CHECK(clkId == CLOCK_REALTIME, "its clock"); CHECK(system_clock::now().time_since_epoch().count() == clkS, "system_clock"); CHECK(steady_clock::now().time_since_epoch().count() == clkS*G+clkN, "steady_clock"); CHECK(clkId == CLOCK_MONOTONIC, "its clock"); CHECK(system_clock_ns::now().time_since_epoch().count() == clkS*G+clkN, "system_clock_ns"); CHECK(steady_clock::is_steady && !system_clock::is_steady, "steadiness"); return; }
    long m = system_clock_ms::now().time_since_epoch().count(); CHECK(clkId == CLOCK_REALTIME, "its clock"); long d = m-clkS*1000; CHECK((d >= 0) & (d < 1000), "system_clock_ms"); CHECK((d*1000000 <= clkN) & (clkN < d*1000000+1000000), "system_clock_ms"); long u = system_clock_us::now().time_since_epoch().count(); d = u-clkS*1000000; CHECK((d >= 0) & (d < 1000000), "system_clock_us"); CHECK((d*1000 <= clkN) & (clkN < d*1000+1000), "system_clock_us");
}
template <typename T> static void txt (const T& v, const char* s) { ostringstream os; os << v; string r (os.str()); CHECK(r.size() == strlen (s), "text length"); bool ok = true; for (size_t i = 0; i < r.size(); ++i) ok &= r[i] == s[i]; CHECK(ok, "text"); }
template <typename D> static void dtxt (const char* suf) { int n = sym_bits (6,"n"); char b [24]; size_t k = 0; if (n >= 10) b[k++] = '0'+n/10; b[k++] = '0'+n%10; strcpy (b+k, suf); txt (D (n), b); txt (time_point<steady_clock,D> (D (n)), b); }
extern "C" void h_text (int)
{
    switch (sym_pick (0,14,"what")) {
	case 0: dtxt<nanoseconds> ("_ns"); break; case 1: dtxt<microseconds> ("_us"); break; case 2: dtxt<milliseconds> ("_ms"); break; case 3: dtxt<seconds> ("_s"); break; case 4: dtxt<minutes> ("_min"); break; case 5: dtxt<hours> ("_hours"); break; case 6: dtxt<days> ("_days"); break; case 7: dtxt<weeks> ("_weeks"); break;
	case 8: dtxt<months> ("_months"); break; case 9: dtxt<years> ("_years"); break; case 10: dtxt<centuries> ("_centuries"); break; case 11: dtxt<millenia> ("_millenia"); break;
	case 12: txt (ratio<6,-4>(), "-3/2"); txt (ratio_add<ratio<1,6>,ratio<1,3> >::type(), "1/2"); break; case 13: { ostringstream os; hrtime_t (5,42).text_write (os); string r (os.str()); CHECK(r.size() == 11 && !memcmp (r.c_str(), "5.000000042", 11), "text"); } break; case 14: clkS = sym_u16 ("t"); txt (system_clock::from_time_t (clkS), "Thu Jan 1"); break;
    }
}
