// An element that owns memory: a skipped, doubled or early destructor call is a leak, a double free or a use after free.
#pragma once
#include "hx.h"
static int res_live, res_made;
struct R {
    int* p;
    R () : p((int*)malloc(4)) { *p = -1; ++res_live; ++res_made; }
    explicit R (int v) : p((int*)malloc(4)) { *p = v; ++res_live; ++res_made; }
    R (const R& r) : p((int*)malloc(4)) { *p = *r.p; ++res_live; ++res_made; }
    R (R&& r) : p((int*)malloc(4)) { *p = *r.p; *r.p = -2; ++res_live; ++res_made; }
    R& operator= (const R& r) { *p = *r.p; return *this; }
    R& operator= (R&& r) { *p = *r.p; if (this != &r) *r.p = -2; return *this; }
    ~R () { free(p); --res_live; }
    bool operator== (const R& r) const { return *p == *r.p; } bool operator!= (const R& r) const { return *p != *r.p; } bool operator< (const R& r) const { return *p < *r.p; }
};
