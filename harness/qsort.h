// qsort is the C library's: in the engine an insertion sort that obeys ISO C stands in for it (order of equal elements unspecified); the native replay uses the real one.
#pragma once
#include <string.h>
extern "C" void __real_qsort (void*, size_t, size_t, int (*)(const void*, const void*));
extern "C" void __wrap_qsort (void* b, size_t n, size_t z, int (*cmp)(const void*, const void*))
{
    if (sym_native()) { __real_qsort(b,n,z,cmp); return; }
    char* p = (char*) b; char t[64]; if (z > sizeof t) sym_stop();
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j && cmp(p+(j-1)*z,p+j*z) > 0; --j) { memcpy(t,p+j*z,z); memcpy(p+j*z,p+(j-1)*z,z); memcpy(p+(j-1)*z,t,z); }
}
