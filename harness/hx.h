// Shared pieces of the harnesses.
#pragma once
#include "sym.h"
#include "uiterator.h"
#include "ualgo.h"
#include <stdlib.h>
using namespace ustl;
// a plain random access iterator that is not a pointer
template <typename T> struct iter {
    typedef T value_type; typedef T& reference; typedef T* pointer; typedef ptrdiff_t difference_type; typedef random_access_iterator_tag iterator_category;
    T* p; iter () : p(nullptr) {} explicit iter (T* v) : p(v) {}
    T& operator* () const { return *p; } iter& operator++ () { ++p; return *this; } iter& operator-- () { --p; return *this; }
    iter operator++ (int) { iter r(*this); ++p; return r; } iter operator-- (int) { iter r(*this); --p; return r; }
    iter operator+ (ptrdiff_t n) const { return iter(p+n); } iter operator- (ptrdiff_t n) const { return iter(p-n); } ptrdiff_t operator- (const iter& i) const { return p-i.p; }
    iter& operator+= (ptrdiff_t n) { p += n; return *this; } iter& operator-= (ptrdiff_t n) { p -= n; return *this; }
    bool operator== (const iter& i) const { return p == i.p; } bool operator!= (const iter& i) const { return p != i.p; } bool operator< (const iter& i) const { return p < i.p; }
    T& operator[] (ptrdiff_t n) const { return p[n]; }
};

// a block of exactly n bytes on the heap: any access beyond it is an error
struct exact { char* p; size_t n; explicit exact (size_t sz) : p((char*) malloc(sz ? sz : 1)), n(sz) {} ~exact () { free(p); } };
// mathematical sequence with fixed room
template <typename T, size_t N = 64> struct Seq {
    T v[N]; size_t n; Seq () : n(0) {}
    void insert (size_t p, const T& x) { for (size_t i = n; i > p; --i) v[i] = v[i-1]; v[p] = x; ++n; }
    void insert (size_t p, size_t k, const T& x) { while (k--) insert(p,x); }
    void erase (size_t p, size_t k = 1) { for (size_t i = p; i + k < n; ++i) v[i] = v[i+k]; n -= k; }
    void push (const T& x) { v[n++] = x; }
    bool operator== (const Seq& s) const { if (n != s.n) return false; for (size_t i = 0; i < n; ++i) if (!(v[i] == s.v[i])) return false; return true; }
};
