// Native side of the harness interface: reads input vectors (one per line), runs
// each in its own child process, prints one result line each.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <errno.h>
#include <dlfcn.h>
#include "entries.inc"
static uint64_t in[65536]; static unsigned nin, pin; static int outfd = 1, failBudget, direct;
static uint64_t live, allocs; static char obuf[1<<20]; static unsigned on;
static uint64_t fillByte = 0xA5; static int bits1 (void);
static void flushOut (void) { unsigned o = 0; while (o < on) { ssize_t w = write(outfd, obuf+o, on-o); if (w <= 0) break; o += w; } on = 0; }
static void puts_ (const char* s) { size_t l = strlen(s); if (on + l < sizeof obuf) { memcpy(obuf+on, s, l); on += l; } }
static void finish (const char* st, const char* msg) { puts_("\n@"); puts_(st); puts_(" "); puts_(msg); puts_("\n"); flushOut(); _exit(0); }
uint64_t sym_bits (unsigned bits, const char* name) { (void) name; uint64_t v = pin < nin ? in[pin] : 0; ++pin; return bits >= 64 ? v : v & ((1ull<<bits)-1); }
void sym_assume (int c) { if (!c) finish("ASSUME",""); }
void sym_assert_ (int c, const char* msg) { if (!c) finish("ASSERT",msg); }
void sym_observe (uint64_t v) { char b[32]; snprintf(b,sizeof b,"%llu ",(unsigned long long) v); puts_(b); }
void sym_reach (const char* l) { (void) l; }
uint64_t sym_concretize (uint64_t v) { return v; }
void sym_stop (void) { finish("STOP",""); _exit(0); }
void sym_malloc_fail (int b) { failBudget = b; }
void sym_isconst_mode (int m) { (void) m; }
uint64_t sym_live_allocs (void) { return live; }
uint64_t sym_alloc_count (void) { return allocs; }
int sym_native (void) { return 1; }
int sym_valid (const void* p, size_t n) { (void) p; (void) n; return 1; }
static int inexc;
static int mfail (void) { if (inexc || failBudget <= 0) return 0; if (sym_bits(1,"mallocfail")) { --failBudget; errno = ENOMEM; return 1; } return 0; }
void* __real_malloc (size_t); void* __real_calloc (size_t,size_t); void* __real_realloc (void*,size_t); void __real_free (void*);
void* __wrap_malloc (size_t n) { if (n > (1ull<<40) || mfail()) return 0; void* p = __real_malloc(n); if (p && !inexc) { ++live; ++allocs; if (n < 65536 && fillByte) memset(p,(int) fillByte,n); } return p; }
void* __wrap_calloc (size_t n, size_t k) { if (mfail()) return 0; void* p = __real_calloc(n,k); if (p) { ++live; ++allocs; } return p; }
void* __wrap_realloc (void* o, size_t n) { if (o && !n) { --live; __real_free(o); return 0; } if (n > (1ull<<40) || mfail()) return 0; void* p = __real_realloc(o,n); if (p && !o) ++live; if (p) ++allocs; return p; }
void __wrap_free (void* p) { if (p && !inexc) --live; __real_free(p); }
void* __real___cxa_allocate_exception (size_t); void __real___cxa_free_exception (void*);
void* __wrap___cxa_allocate_exception (size_t n) { ++inexc; void* p = __real___cxa_allocate_exception(n); --inexc; return p; }
void __wrap___cxa_free_exception (void* p) { ++inexc; __real___cxa_free_exception(p); --inexc; }
char* strdup (const char* s) { size_t n = strlen(s)+1; char* p = __wrap_malloc(n); if (p) memcpy(p,s,n); return p; }
// file functions replaced by the engine's stand-ins
int backtrace (void** b, int n) { (void) b; (void) n; return 0; }
char** backtrace_symbols (void* const* b, int n) { (void) b; (void) n; return (char**) __wrap_calloc(1,8); }
static void (*entryFn)(int);
static void onsig (int s) { char b[32]; snprintf(b,sizeof b,"%d",s); finish(s == SIGALRM ? "HANG" : "CRASH", b); }
int main (int argc, char** argv)
{
    if (argc < 3) return 3; for (unsigned i = 0; entries[i].n; ++i) if (!strcmp(entries[i].n,argv[1])) entryFn = entries[i].f; if (!entryFn) return 3; int arg = atoi(argv[2]); unsigned tmo = argc > 3 ? atoi(argv[3]) : 10; direct = argc > 4;	// direct: one vector, no child
    static char line[1<<20]; static char altstk[65536];
    while (fgets(line, sizeof line, stdin)) {
	nin = pin = 0; char* p = line;
	for (;;) { while (*p == ' ') ++p; if (*p < '0' || *p > '9') break; in[nin++] = strtoull(p,&p,10); }
	fflush(stdout);
	if (direct) { entryFn(arg); finish("OK",""); }
	pid_t c = fork();
	if (!c) {
	    stack_t ss = { .ss_sp = altstk, .ss_size = sizeof altstk }; sigaltstack(&ss,0);
	    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
#ifndef SANITIZE
	    int sg[] = {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}; for (unsigned i = 0; i < 6; ++i) sigaction(sg[i],&sa,0);
#endif
	    alarm(tmo); live = allocs = 0;
	    entryFn(arg);
	    finish("OK","");
	}
	int st = 0; waitpid(c,&st,0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { char b[64]; int n = snprintf(b,sizeof b,"\n@CRASH status %d\n",WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st)); (void)!write(1,b,n); }
    }
    return 0;
}
