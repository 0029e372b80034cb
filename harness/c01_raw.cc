//@ property=C01
//@ oracle="element by element definition over copies of the original arrays; guard bytes around every destination; heap blocks of exact size"
//@ entry=h_copy cases=0-11 bound="element types u8,i8,char,u16,i16,u32,i32,float,u64,double,void and const sources; source offsets 0-15, destination offsets 0,1,8,15 (in elements, modulo 16 bytes), byte lengths 0-4,14-18,30-34,46-50,62-66,95-99"
//@ entry=h_copy_all cases=0 tier=thorough bound="u8: every source offset 0-15, destination offset 0-15 and length 0-100"
//@ entry=h_copy_overlap cases=0-3 bound="copy and copy_n downwards inside one buffer: shifts 0-40 bytes, lengths 0-72 in steps around block edges, every source alignment class"
//@ entry=h_back cases=0-6 bound="copy_backward over u8,i8,char,u16,i16,u32,void: source offsets 0-4, destination offsets 0-4 elements, lengths 0-12"
//@ entry=h_back_overlap cases=0-2 bound="copy_backward upwards inside one buffer: shifts 0-9 elements, lengths 0-12, offsets 0-3"
//@ entry=h_fill cases=0-10 bound="fill and fill_n of every specialised type: offsets 0-17 elements, lengths 0-4,14-18,30-34,47-49,63-66"
//@ entry=h_rotate cases=0-4 bound="rotate of u8,u16,u32,u64 and 3-byte struct arrays, all lengths 0-9 and middles; u8 also lengths up to 70"
//@ entry=h_big cases=0-3 tcases=4-7 bound="fill, overlapping copy (by 0-16) and copy_backward and rotate of u8,u16,u32,u64 over long ranges: about 110,127-129,200,255-257,300,511,512 bytes (thorough up to 4150), every element alignment modulo 16"
//@ entry=h_swap_ranges cases=0-1 bound="lengths 0-5"
//@ entry=h_fpu cases=0 bound="x87 stack usable (emms executed) after fills and copies of up to 96 bytes"
#include "sym.h"
#include "ualgo.h"
#include "hx.h"
using namespace ustl;

static size_t pick_len (size_t es)
{
    static const unsigned char L[] = {0,1,2,3,4,14,15,16,17,18,30,31,32,33,34,46,47,48,49,50,62,63,64,65,66,95,96,97,98,99};
    return L[sym_pick(0,sizeof(L)-1,"len")] / es;
}
template <typename T> static bool same (const T& a, const T& b)
{
    const uint8_t *x = (const uint8_t*) &a, *y = (const uint8_t*) &b; bool r = true;
    for (size_t i = 0; i < sizeof(T); ++i) r &= x[i] == y[i];
    return r;
}
template <typename T> static void symfill (T* p, size_t n) { uint8_t* b = (uint8_t*) p; for (size_t i = 0; i < n*sizeof(T); ++i) b[i] = sym_u8("b"); }

template <typename T, typename CT, bool N> struct Do { static T* go (CT* f, size_t n, T* r) { return N ? copy_n(f,n,r) : copy(f,f+n,r); } };
template <typename CT, bool N> struct Do<void,CT,N> { static void* go (CT* f, size_t n, void* r) { return N ? copy_n(f,n,r) : copy(f,(CT*)((const char*)f+n),r); } };

template <typename T> static void verify_copy (const T* s0, const T* s1, const T* d0, const T* d1, size_t total, size_t so, size_t dof, size_t n)
{
    for (size_t i = 0; i < total; ++i) {
	CHECK(same(s0[i],s1[i]), "source unchanged");
	if (i >= dof && i < dof+n) CHECK(same(d1[i],s0[so+i-dof]), "element copied");
	else CHECK(same(d1[i],d0[i]), "no write outside the destination range");
    }
}
template <typename T, typename CT, typename RT, bool N> static void run_copy (size_t so, size_t dof, size_t n)
{
    enum { TOTAL = 15+100/sizeof(T)+1 };
    alignas(16) T s[TOTAL], d[TOTAL], s0[TOTAL], d0[TOTAL];
    symfill(s,so+n+1 < TOTAL ? so+n+1 : TOTAL); symfill(d,TOTAL);
    for (size_t i = so+n+1; i < TOTAL; ++i) s[i] = T();
    memcpy(s0,s,sizeof(s)); memcpy(d0,d,sizeof(d));
    RT* r = Do<RT,CT,N>::go(s+so,n,d+dof);
    CHECK((T*)r == d+dof+n, "returns the end of the destination");
    verify_copy(s0,s,d0,d,TOTAL,so,dof,n);
    OBS(n); for (size_t i = 0; i < sizeof(d); i += 5) OBS(((uint8_t*)d)[i]);
}
template <typename T, typename CT, typename RT> static void pick_copy (void)
{
    static const unsigned char D[] = {0,1,8,15};
    const size_t per = sizeof(T) > 8 ? 1 : 16/sizeof(T);
    size_t so = sym_pick(0,per-1,"so"), dof = D[sym_pick(0,3,"do")] % per, n = pick_len(sizeof(T));
    if (sym_bool("n")) run_copy<T,CT,RT,true>(so,dof,n); else run_copy<T,CT,RT,false>(so,dof,n);
}
extern "C" void h_copy (int c)
{
    switch (c) {
	case 0: pick_copy<uint8_t,const uint8_t,uint8_t>(); break;
	case 1: if (sym_bool("c")) pick_copy<int8_t,const int8_t,int8_t>(); else pick_copy<int8_t,int8_t,int8_t>(); break;
	case 2: if (sym_bool("c")) pick_copy<char,const char,char>(); else pick_copy<char,char,char>(); break;
	case 3: if (sym_bool("c")) pick_copy<uint16_t,const uint16_t,uint16_t>(); else pick_copy<uint16_t,uint16_t,uint16_t>(); break;
	case 4: if (sym_bool("c")) pick_copy<int16_t,const int16_t,int16_t>(); else pick_copy<int16_t,int16_t,int16_t>(); break;
	case 5: if (sym_bool("c")) pick_copy<uint32_t,const uint32_t,uint32_t>(); else pick_copy<uint32_t,uint32_t,uint32_t>(); break;
	case 6: if (sym_bool("c")) pick_copy<int32_t,const int32_t,int32_t>(); else pick_copy<int32_t,int32_t,int32_t>(); break;
	case 7: if (sym_bool("c")) pick_copy<float,const float,float>(); else pick_copy<float,float,float>(); break;
	case 8: if (sym_bool("c")) pick_copy<uint64_t,const uint64_t,uint64_t>(); else pick_copy<int64_t,int64_t,int64_t>(); break;
	case 9: pick_copy<double,const double,double>(); break;
	case 10: if (sym_bool("c")) pick_copy<uint8_t,const void,void>(); else pick_copy<uint8_t,void,void>(); break;
	case 11: pick_copy<uint8_t,uint8_t,uint8_t>(); break;
    }
}
extern "C" void h_copy_all (int c)
{
    run_copy<uint8_t,const uint8_t,uint8_t,true>(sym_pick(0,15,"so"),sym_pick(0,15,"do"),sym_pick(0,100,"n"));
}
// forward copy whose destination starts below its source in the same buffer
template <typename T, bool N> static void overlap (void)
{
    enum { TOTAL = 144/sizeof(T) };
    alignas(16) T b[TOTAL], b0[TOTAL];
    static const unsigned char K[] = {0,1,2,4,8,12,15,16,17,20,31,32,33,40};
    static const unsigned char L[] = {0,1,2,3,8,15,16,17,31,32,33,47,48,49,63,64,65,72};
    size_t k = K[sym_pick(0,sizeof(K)-1,"shift")]/sizeof(T), n = L[sym_pick(0,sizeof(L)-1,"len")]/sizeof(T), off = sym_pick(0,3,"off")*5/sizeof(T);
    symfill(b,TOTAL); memcpy(b0,b,sizeof(b));
    T* r = N ? copy_n((const T*)b+off+k,n,b+off) : copy((const T*)b+off+k,(const T*)b+off+k+n,b+off);
    CHECK(r == b+off+n, "returns the end of the destination");
    for (size_t i = 0; i < TOTAL; ++i) CHECK(same(b[i], i >= off && i < off+n ? b0[i+k] : b0[i]), "overlapping copy towards lower addresses");
    OBS(b[off]); OBS(b[off+n]);
}
extern "C" void h_copy_overlap (int c)
{
    switch (c) { case 0: overlap<uint8_t,false>(); break; case 1: overlap<char,true>(); break; case 2: overlap<uint16_t,false>(); break; case 3: overlap<uint32_t,true>(); break; }
}
template <typename T, typename CT, typename RT> struct DoB { static RT* go (CT* f, CT* l, RT* r) { return copy_backward(f,l,r); } };
template <typename T, typename CT, typename RT> static void back (void)
{
    enum { TOTAL = 20 };
    alignas(16) T s[TOTAL], d[TOTAL], s0[TOTAL], d0[TOTAL];
    size_t so = sym_pick(0,4,"so"), dof = sym_pick(0,4,"do"), n = sym_pick(0,12,"n");
    symfill(s,TOTAL); symfill(d,TOTAL); memcpy(s0,s,sizeof(s)); memcpy(d0,d,sizeof(d));
    RT* r = DoB<T,CT,RT>::go((CT*)(s+so),(CT*)(s+so+n),(RT*)(d+dof+n));
    CHECK((T*)r == d+dof, "copy_backward returns the beginning of the destination");
    verify_copy(s0,s,d0,d,TOTAL,so,dof,n);
    for (size_t i = 0; i < TOTAL; i += 3) OBS(d[i]);
}
extern "C" void h_back (int c)
{
    switch (c) {
	case 0: if (sym_bool("c")) back<uint8_t,const uint8_t,uint8_t>(); else back<uint8_t,uint8_t,uint8_t>(); break;
	case 1: if (sym_bool("c")) back<int8_t,int8_t,int8_t>(); else back<int8_t,const int8_t,int8_t>(); break;
	case 2: if (sym_bool("c")) back<char,char,char>(); else back<char,const char,char>(); break;
	case 3: if (sym_bool("c")) back<uint16_t,const uint16_t,uint16_t>(); else back<uint16_t,uint16_t,uint16_t>(); break;
	case 4: if (sym_bool("c")) back<int16_t,const int16_t,int16_t>(); else back<int16_t,int16_t,int16_t>(); break;
	case 5: if (sym_bool("c")) back<uint32_t,const uint32_t,uint32_t>(); else back<int64_t,const int64_t,int64_t>(); break;
	case 6: if (sym_bool("c")) back<uint8_t,const void,void>(); else back<uint8_t,void,void>(); break;
    }
}
template <typename T> static void back_overlap (void)
{
    enum { TOTAL = 28 };
    alignas(16) T b[TOTAL], b0[TOTAL];
    size_t off = sym_pick(0,3,"off"), k = sym_pick(0,9,"shift"), n = sym_pick(0,12,"n");
    symfill(b,TOTAL); memcpy(b0,b,sizeof(b));
    copy_backward((const T*)b+off,(const T*)b+off+n,b+off+n+k);
    for (size_t i = 0; i < TOTAL; ++i) CHECK(same(b[i], i >= off+k && i < off+k+n ? b0[i-k] : b0[i]), "overlapping copy towards higher addresses");
    OBS(b[off]); OBS(b[off+n]);
}
extern "C" void h_back_overlap (int c) { if (c == 0) back_overlap<uint8_t>(); else if (c == 1) back_overlap<uint16_t>(); else back_overlap<uint32_t>(); }

template <typename T, typename PT, typename V, bool N> struct DoF { static PT* go (T* f, size_t n, const V& v) { if (N) return fill_n((PT*)f,n,v); fill((PT*)f,(PT*)(f+n),v); return (PT*)(f+n); } };
template <typename T, typename PT, typename V> static void tfill (void)
{
    enum { TOTAL = 18+66/sizeof(T)+1 };
    alignas(16) T d[TOTAL], d0[TOTAL]; V v; symfill(&v,1);
    static const unsigned char L[] = {0,1,2,3,4,14,15,16,17,18,30,31,32,33,34,47,48,49,63,64,65,66};
    size_t off = sym_pick(0,17,"off"), n = L[sym_pick(0,sizeof(L)-1,"len")]/sizeof(T);
    symfill(d,TOTAL); memcpy(d0,d,sizeof(d));
    PT* r = sym_bool("n") ? DoF<T,PT,V,true>::go(d+off,n,v) : DoF<T,PT,V,false>::go(d+off,n,v);
    CHECK((T*)r == d+off+n, "fill_n returns the end");
    T t; memcpy(&t,&v,sizeof(T));
    for (size_t i = 0; i < TOTAL; ++i) CHECK(same(d[i], i >= off && i < off+n ? t : d0[i]), "fill writes exactly its range");
    for (size_t i = 0; i < TOTAL; i += 7) OBS(((uint8_t*)d)[i]);
}
extern "C" void h_fill (int c)
{
    switch (c) {
	case 0: tfill<uint8_t,uint8_t,uint8_t>(); break;
	case 1: tfill<int8_t,int8_t,int8_t>(); break;
	case 2: if (sym_bool("v")) tfill<char,char,char>(); else tfill<char,char,uint8_t>(); break;
	case 3: tfill<uint16_t,uint16_t,uint16_t>(); break;
	case 4: tfill<int16_t,int16_t,int16_t>(); break;
	case 5: tfill<uint32_t,uint32_t,uint32_t>(); break;
	case 6: tfill<int32_t,int32_t,int32_t>(); break;
	case 7: tfill<float,float,float>(); break;
	case 8: if (sym_bool("v")) tfill<uint8_t,void,char>(); else tfill<uint8_t,void,uint8_t>(); break;
	case 9: tfill<uint64_t,uint64_t,uint64_t>(); break;
	case 10: tfill<double,double,double>(); break;
    }
}
struct S3 { uint8_t a[3]; };
template <typename T> static void rot (size_t maxn, bool edges)
{
    static const unsigned char L[] = {15,16,17,31,33,48,64,70};
    size_t n = edges ? L[sym_pick(0,sizeof(L)-1,"n")] : sym_pick(0,maxn,"n"); size_t m = edges ? sym_pick(0,n,"mid") : sym_pick(0,n,"mid");
    alignas(16) T b[74], b0[74]; size_t off = 1, tot = n+2;
    symfill(b,tot); memcpy(b0,b,tot*sizeof(T));
    T* r = sym_bool("generic") ? rotate(iter<T>(b+off),iter<T>(b+off+m),iter<T>(b+off+n)).p : rotate(b+off,b+off+m,b+off+n);
    CHECK(r == b+off+(n-m), "rotate returns the new place of the first element");
    for (size_t i = 0; i < tot; ++i) CHECK(same(b[i], i >= off && i < off+n ? b0[off+(i-off+m)%n] : b0[i]), "rotate exchanges the two halves");
    OBS(((uint8_t*)b)[sizeof(T)]);
}
extern "C" void h_rotate (int c)
{
    switch (c) { case 0: if (sym_bool("e")) rot<uint8_t>(0,true); else rot<uint8_t>(9,false); break; case 1: rot<uint16_t>(9,false); break; case 2: rot<uint32_t>(9,false); break; case 3: rot<uint64_t>(9,false); break; case 4: rot<S3>(9,false); break; }
}
extern "C" void h_swap_ranges (int c)
{
    size_t n = sym_pick(0,5,"n"); int a[7], b[7], a0[7], b0[7]; symfill(a,7); symfill(b,7); memcpy(a0,a,sizeof a); memcpy(b0,b,sizeof b);
    if (c) { int* r = swap_ranges(a+1,a+1+n,b+1); CHECK(r == b+1+n, "swap_ranges returns the end of the second range"); for (size_t i = 0; i < 7; ++i) { bool in = i >= 1 && i <= n; CHECK(a[i] == (in?b0:a0)[i] && b[i] == (in?a0:b0)[i], "swap_ranges"); } }
    else { iter_swap(a+n,b+6-n); for (size_t i = 0; i < 7; ++i) { CHECK(a[i] == (i == n ? b0[6-n] : a0[i]), "iter_swap a"); CHECK(b[i] == (i == 6-n ? a0[n] : b0[i]), "iter_swap b"); } swap(a[0],a[1]); }
    OBS(a[1]); OBS(b[1]);
}
extern "C" void h_fpu (int c)
{
    alignas(16) uint8_t a[96], b[96]; symfill(a,96);
    size_t n = sym_pick(0,3,"n")*32;
    copy_n((const uint8_t*)a,n,b); fill_n(b,n,uint8_t(3)); fill_n((uint16_t*)b,n/2,uint16_t(3)); fill_n((uint32_t*)b,n/4,uint32_t(3));
    if (n) OBS(b[0]);
    double x = sym_range(1,3,"x"); OBS(x * 2 + 0.5 > 2.0);
}
// long ranges: thresholds for a different strategy may lie anywhere, so lengths around several powers of two
template <typename T> static void big (unsigned maxl)
{
    static const uint16_t L[] = {110,127,128,129,200,255,256,257,300,511,512,513,700,1000,1023,1024,1025,1030,2047,2049,3000,4095,4096,4097,4150};
    size_t bytes = L[sym_pick(0,maxl,"len")], n = bytes/sizeof(T)+sym_pick(0,1,"more"), tot = n+40; size_t al = sym_pick(0,sizeof(T) > 8 ? 0 : 16/sizeof(T)-1,"align");
    T* m = (T*) malloc(tot*sizeof(T)); T* o = (T*) malloc(tot*sizeof(T)); symfill(m,tot); memcpy(o,m,tot*sizeof(T));
    size_t what = sym_pick(0,3,"what"); T v; symfill(&v,1); bool ok = true;
    if (what == 0) {	// fill
	fill_n(m+al,n,v); for (size_t i = 0; i < tot; ++i) ok &= same(m[i], i >= al && i < al+n ? v : o[i]);
    } else if (what == 1) {	// copy down within
	size_t k = sym_pick(0,16,"by"); copy_n((const T*)m+al+k,n,m+al); for (size_t i = 0; i < tot; ++i) ok &= same(m[i], i >= al && i < al+n ? o[i+k] : o[i]);
    } else if (what == 2) {	// copy up within
	size_t k = sym_pick(0,16,"by"); copy_backward((const T*)m+al,(const T*)m+al+n,m+al+n+k); for (size_t i = 0; i < tot; ++i) ok &= same(m[i], i >= al+k && i < al+k+n ? o[i-k] : o[i]);
    } else {	// rotate
	static const uint16_t K[] = {1,15,16,17,33,63,64,65,100,128,129,200,257,600}; size_t k = K[sym_pick(0,13,"k")]; if (k > n) sym_stop(); if (sym_bool("end")) k = n-k;
	rotate(m+al,m+al+k,m+al+n); for (size_t i = 0; i < tot; ++i) ok &= same(m[i], i >= al && i < al+n ? o[al+(i-al+k)%n] : o[i]);
    }
    CHECK(ok, "long ranges follow the definition"); OBS(((uint8_t*)m)[5]); free(m); free(o);
}
extern "C" void h_big (int c) { unsigned l = c < 4 ? 10 : 24; switch (c%4) { case 0: big<uint8_t>(l); break; case 1: big<uint16_t>(l); break; case 2: big<uint32_t>(l); break; case 3: big<uint64_t>(l); break; } }
