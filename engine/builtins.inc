// External functions modelled natively.
static std::map<string,int> g_builtins;
typedef bool (*BFn) (State& s, const DInst& d, vector<Val>& a, Val& r);
static vector<BFn> g_bfn;
static void callFn (State& s, Fn* fn, vector<Val>& args, const DInst* site);
static void raiseExc (State& s, bool);
static u64 excAdjusted (State& s, u64 obj, u64 handlerTi);
static ExcInfo* excOf (State& s, u64 obj);
static vector<pair<u64,u64>> g_atexit;
static u64 g_errno; static vector<u64> g_strerr;
static string cstr (State& s, u64 a, const char* what = "string")
{
    string r; for (;;) { Val v = loadAt(s, a + r.size(), 1, 8); u64 c = concretize(s, v, what); if (!c) break; r += (char) c; } return r;
}
static u64 C (State& s, vector<Val>& a, unsigned i, const char* what) { return concretize(s, a[i], what); }
static void reg (const char* n, BFn f) { if (g_bfn.empty()) g_bfn.push_back(nullptr); g_builtins[n] = g_bfn.size(); g_bfn.push_back(f); }
static Val newInput (State& s, unsigned bits, const string& name)
{
    E e;
    if (g_concrete) { u64 v = s.inputs.size() < g_concIn.size() ? g_concIn[s.inputs.size()] : 0; e = xConst(v, bits); }
    else {
	// reuse the symbol of the same ordinal and name on other paths so that query caches hit
	static std::map<pair<pair<size_t,unsigned>,string>,E> pool;
	auto& p = pool[{{s.inputs.size(),bits},name}]; if (!p) p = xSym(name, bits, false); e = p;
    }
    s.inputs.push_back(e);
    return Val::ofE(e);
}
static void doAssert (State& s, const Val& c, const string& msg)
{
    ++n_asserts;
    if (!c.sym()) { if (!((c.e ? (u64) c.e->c : c.c) & 1)) fail(s, "assert", msg); return; }
    uninitCheck(s, c.e, "assertion");
    E e = c.e;
    ModelRef m; Sat r = check(s, xNot(e), m);
    if (r == UNKNOWN) incomplete(s, "solver timeout");
    if (r == SAT) {
	violation(s, "assert", msg, m);
	if (check(s, e, m) != SAT) throw Killed();
	s.model = m; addC(s, e);
    }
}
static bool mallocFails (State& s, u64 n)
{
    if (n > (1ull << 40)) return true;
    if (s.mallocFail <= 0) return false;
    // a boolean input chosen by the solver; forking re-executes, so decide before recording
    Val b = newInput(s, 1, "mallocfail");
    E e = b.ex();
    if (isC(e)) { if (e->c) --s.mallocFail; return e->c; }
    // both sides are feasible (fresh symbol)
    State c = s; addC(c, e); auto m = std::make_shared<Model>(*c.model); if (m->size() < g_syms.size()) m->resize(g_syms.size(), 0); (*m)[e->aux] = 1; c.model = m; c.mallocFail--;
    // child continues at the call's return with NULL: emulate by recording a pending return
    c.tag += "";
    extern void finishCallNull (State& c);
    finishCallNull(c);
    pushState(std::move(c));
    auto m2 = std::make_shared<Model>(*s.model); if (m2->size() < g_syms.size()) m2->resize(g_syms.size(), 0); (*m2)[e->aux] = 0; s.model = m2;
    addC(s, xNot(e));
    return false;
}
static u64 heapBase (State& s, u64 p, const char* op)
{
    ObjRef* o = findObj(s, p);
    if (!o || (*o)->kind != OK_HEAP) fail(s, "memory", string(op) + " of " + (o ? string("a non-heap object ") + (*o)->name : (p >> SHIFT) >= g_firstDynSlot && (p >> SHIFT) < s.nextSlot ? string("already freed memory") : string("a wild pointer")));
    if ((*o)->base != p) fail(s, "memory", string(op) + " of a pointer inside a heap block");
    return p;
}
static u64 heapAlign (u64 n) { return 16; }
static Val strErr (u64 n) { return Val(g_strerr[n < g_strerr.size() ? n : g_strerr.size()-1], 64); }
static void initBuiltins (void)
{
    // harness interface
    reg("sym_bits", [](State& s, const DInst& d, vector<Val>& a, Val& r) { unsigned w = C(s,a,0,"bits"); Val v = newInput(s, w, cstr(s, C(s,a,1,"name"))); r = Val::ofE(xZExt(v.ex(), 64)); return true; });
    reg("sym_assume", [](State& s, const DInst& d, vector<Val>& a, Val& r) {
	if (!a[0].sym()) { if (!(a[0].e ? (u64) a[0].e->c : a[0].c)) { ++n_assumed; throw Killed(); } return true; }
	E c = xNot(xCmp(X_EQ, a[0].e, xConst(0, a[0].w))); ModelRef m; Sat q = check(s, c, m); if (q == UNKNOWN) incomplete(s,"solver timeout"); if (q == UNSAT) { ++n_assumed; throw Killed(); }
	s.model = m; addC(s, c); return true; });
    reg("sym_assert_", [](State& s, const DInst& d, vector<Val>& a, Val& r) {
	Val c = a[0].sym() ? Val::ofE(xNot(xCmp(X_EQ, a[0].e, xConst(0,a[0].w)))) : Val((a[0].e ? a[0].e->c : a[0].c) != 0, 1);
	doAssert(s, c, cstr(s, C(s,a,1,"msg"))); return true; });
    reg("sym_observe", [](State& s, const DInst& d, vector<Val>& a, Val& r) { E e = a[0].ex(); uninitCheck(s, e, "observed value"); s.obs.push_back({"",e}); return true; });
    reg("sym_reach", [](State& s, const DInst& d, vector<Val>& a, Val& r) { ++g_reach[cstr(s, C(s,a,0,"label"))]; return true; });
    reg("sym_concretize", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(C(s,a,0,"value"), 64); return true; });
    reg("sym_stop", [](State& s, const DInst& d, vector<Val>& a, Val& r) -> bool { throw Killed(); });
    reg("sym_malloc_fail", [](State& s, const DInst& d, vector<Val>& a, Val& r) { s.mallocFail = (int) C(s,a,0,"n"); return true; });
    reg("sym_isconst_mode", [](State& s, const DInst& d, vector<Val>& a, Val& r) { s.isConstMode = (int) C(s,a,0,"n"); return true; });
    reg("sym_live_allocs", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(s.liveHeap, 64); return true; });
    reg("sym_native", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(0, 32); return true; });
    reg("sym_alloc_count", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(s.allocCount, 64); return true; });
    // is [p,p+n) entirely inside one live object?
    reg("sym_valid", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 p = C(s,a,0,"p"), n = C(s,a,1,"n"); ObjRef* o = findObj(s,p); bool ok = o && !(*o)->dead && p >= (*o)->base && p - (*o)->base <= (*o)->size && n <= (*o)->size - (p - (*o)->base); r = Val(ok, 32); return true; });
    reg("sym_fmt_double", [](State& s, const DInst& d, vector<Val>& a, Val& r) {	// (char* out, size_t n, const char* fmt, int width, int prec, double v)
	u64 out = C(s,a,0,"out"), n = C(s,a,1,"n"); string fmt = cstr(s, C(s,a,2,"fmt")); int w = (int) C(s,a,3,"w"), p = (int) C(s,a,4,"p"); u64 bits = C(s,a,5,"double"); double v; memcpy(&v,&bits,8);
	char b[512]; int len = snprintf(b, sizeof b, fmt.c_str(), w, p, v); for (int i = 0; i < (int) n; ++i) { storeAt(s, out+i, 1, Val(i <= len ? (u8) b[i] : 0, 8)); if (i >= len) break; } r = Val((u32) len, 32); return true; });
#define FPFN(n) reg(#n, [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 b = C(s,a,0,"fp argument"); double v; memcpy(&v,&b,8); v = ::n(v); memcpy(&b,&v,8); r = Val(b,64); return true; }); \
    reg(#n "f", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 b = C(s,a,0,"fp argument"); u32 q = b; float v; memcpy(&v,&q,4); v = ::n##f(v); memcpy(&q,&v,4); r = Val(q,32); return true; });
    FPFN(rint) FPFN(sqrt) FPFN(floor) FPFN(ceil) FPFN(trunc)
    reg("strtod", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 p = C(s,a,0,"p"), ep = C(s,a,1,"ep");
	string t; for (;;) { Val v = loadAt(s, p + t.size(), 1, 8); u64 c = concretize(s, v, "strtod input"); if (!c || !strchr("0123456789+-.eExXpPaAbBcCdDfFiInNtTyY \t\n\v\f\r()_", (int) c)) break; t += (char) c; }
	char* e; double v = strtod(t.c_str(), &e); u64 b; memcpy(&b,&v,8); if (ep) storeAt(s, ep, 8, Val(p + (e - t.c_str()), 64)); r = Val(b,64); return true; });
    // heap
    reg("malloc", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 n = C(s,a,0,"allocation size"); if (mallocFails(s,n)) { storeAt(s,g_errno,4,Val(ENOMEM,32)); r = Val(0,64); return true; } r = Val(allocObj(s,n,OK_HEAP,heapAlign(n),false,"malloc"),64); return true; });
    reg("calloc", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 n = C(s,a,0,"allocation size"), k = C(s,a,1,"allocation size"); if ((k && n > ~0ull/k) || mallocFails(s,n*k)) { r = Val(0,64); return true; } r = Val(allocObj(s,n*k,OK_HEAP,16,true,"calloc"),64); return true; });
    reg("realloc", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 p = C(s,a,0,"pointer"), n = C(s,a,1,"allocation size");
	if (p) heapBase(s, p, "realloc");
	if (p && !n) { freeObj(s,p); r = Val(0,64); return true; }
	if (mallocFails(s,n)) { storeAt(s,g_errno,4,Val(ENOMEM,32)); r = Val(0,64); return true; }
	u64 q = allocObj(s,n,OK_HEAP,16,false,"realloc"); if (p) { u64 os = (*findObj(s,p))->size; copyMem(s,q,p,os<n?os:n); freeObj(s,p); } r = Val(q,64); return true; });
    reg("free", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 p = C(s,a,0,"pointer"); if (p) freeObj(s, heapBase(s,p,"free")); return true; });
    // strings
    reg("memcmp", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 n = C(s,a,2,"length"), p = C(s,a,0,"pointer"), q = C(s,a,1,"pointer"); if (n) { access(s,p,n,false); access(s,q,n,false); }
	E e = xConst(0,32); for (u64 i = n; i--;) { E x = loadAt(s,p+i,1,8).ex(), y = loadAt(s,q+i,1,8).ex(); E eq = xCmp(X_EQ,x,y); if (isC(eq) && eq->c) continue; e = xIte(eq, e, xIte(xCmp(X_ULT,x,y), xConst((u32) -1,32), xConst(1,32))); } r = Val::ofE(e); return true; });
    for (const char* n : {"memcpy","memmove"}) reg(n, [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 n = C(s,a,2,"length"), p = C(s,a,0,"pointer"), q = C(s,a,1,"pointer"); if (n) copyMem(s,p,q,n); r = Val(p,64); return true; });
    reg("memset", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 n = C(s,a,2,"length"), p = C(s,a,0,"pointer"); setMem(s,p,xExtract(a[1].ex(),0,8),n); r = Val(p,64); return true; });
    reg("__errno_location", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(g_errno,64); return true; });
    reg("strerror", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = strErr(C(s,a,0,"errno")); return true; });
    reg("backtrace", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(0,32); return true; });
    reg("backtrace_symbols", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(allocObj(s,8,OK_HEAP,16,true,"backtrace_symbols"),64); return true; });
    reg("__cxa_atexit", [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (g_concrete) g_atexit.push_back({a[0].c,a[1].c}); r = Val(0,32); return true; });
    reg("abort", [](State& s, const DInst& d, vector<Val>& a, Val& r) -> bool { fail(s,"abort","abort called"); });
    reg("exit", [](State& s, const DInst& d, vector<Val>& a, Val& r) -> bool { fail(s,"abort","exit called"); });
    reg("_ZSt9terminatev", [](State& s, const DInst& d, vector<Val>& a, Val& r) -> bool { fail(s,"terminate","std::terminate called (exception escaped a noexcept function)"); });
    reg("__cxa_pure_virtual", [](State& s, const DInst& d, vector<Val>& a, Val& r) -> bool { fail(s,"abort","pure virtual call"); });
    // exceptions
    reg("__cxa_allocate_exception", [](State& s, const DInst& d, vector<Val>& a, Val& r) { r = Val(allocObj(s,C(s,a,0,"size"),OK_EXC,16,false,"exception"),64); return true; });
    reg("__cxa_free_exception", [](State& s, const DInst& d, vector<Val>& a, Val& r) { freeObj(s,C(s,a,0,"p")); return true; });
    reg("__cxa_throw", [](State& s, const DInst& d, vector<Val>& a, Val& r) { ExcInfo x{a[0].c,a[1].c,a[2].c,0,false}; s.exc.push_back(x); s.inflight = x.obj; raiseExc(s,true); return false; });
    reg("__cxa_rethrow", [](State& s, const DInst& d, vector<Val>& a, Val& r) { 
	for (size_t i = s.exc.size(); i--;) if (s.exc[i].handlers > 0) { s.exc[i].rethrown = true; --s.exc[i].handlers; s.inflight = s.exc[i].obj; 
	    ExcInfo x = s.exc[i]; s.exc.erase(s.exc.begin()+i); s.exc.push_back(x); raiseExc(s,true); return false; }
	fail(s,"terminate","rethrow without an active exception"); });
    reg("__cxa_begin_catch", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 o = a[0].c; ExcInfo* x = excOf(s,o); if (!x) fail(s,"memory","begin_catch of a dead exception"); ++x->handlers; x->rethrown = false; u64 h = 0; for (auto& p : s.caught) if (p.first == o) h = p.second;
	ExcInfo y = *x; for (size_t i = 0; i < s.exc.size(); ++i) if (s.exc[i].obj == o) { s.exc.erase(s.exc.begin()+i); break; } s.exc.push_back(y);
	r = Val(excAdjusted(s,o,h),64); return true; });
    reg("__cxa_get_exception_ptr", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 o = a[0].c, h = 0; for (auto& p : s.caught) if (p.first == o) h = p.second; r = Val(excAdjusted(s,o,h),64); return true; });
    reg("__cxa_end_catch", [](State& s, const DInst& d, vector<Val>& a, Val& r) {
	for (size_t i = s.exc.size(); i--;) {
	    ExcInfo& x = s.exc[i];
	    if (x.rethrown) { if (x.handlers == 0) { x.rethrown = false; return true; } }
	    if (x.handlers > 0) {
		if (--x.handlers == 0) { ExcInfo y = x; s.exc.erase(s.exc.begin()+i);
		    if (y.dtor) { // call the destructor, then continue after this instruction
			auto it = g_fnAt.find(y.dtor); if (it == g_fnAt.end()) incomplete(s,"exception destructor");
			Fn* f = it->second; if (f->f->isDeclaration()) return true;
			vector<Val> av{Val(y.obj,64)}; callFn(s, f, av, &d); return false; }
		    freeObj(s,y.obj); }
		return true; } }
	return true; });
    reg("_Unwind_Resume", [](State& s, const DInst& d, vector<Val>& a, Val& r) { s.inflight = a[0].c; raiseExc(s,true); return false; });
    reg("__dynamic_cast", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 p = C(s,a,0,"p"); extern u64 g_dynCast (State&, u64, u64); r = Val(g_dynCast(s,p,a[2].c),64); return true; });
    // only for running the project's own test programs concretely (translator validation)
    for (const char* n : {"signal","_ZSt13set_terminatePFvvE","_ZSt14set_unexpectedPFvvE","ioctl","fsync","alarm"}) reg(n, [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (!g_concrete) incomplete(s,"host call"); r = Val(0,d.w ? d.w : 32); return true; });
    reg("write", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 fd = C(s,a,0,"fd"), p = C(s,a,1,"p"), n = C(s,a,2,"n"); if (!g_concrete || (fd != 1 && fd != 2)) incomplete(s,"call to write"); string t; for (u64 i = 0; i < n; ++i) t += (char) loadAt(s,p+i,1,8).c; (void)!write(1,t.data(),n); r = Val(n,64); return true; });
    reg("fcntl", [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (!g_concrete) incomplete(s,"call to fcntl"); r = Val(0,32); return true; });
    reg("read", [](State& s, const DInst& d, vector<Val>& a, Val& r) { u64 fd = C(s,a,0,"fd"), p = C(s,a,1,"p"), n = C(s,a,2,"n"); if (!g_concrete || fd) incomplete(s,"call to read"); string t(n,0); ssize_t k = read(0,&t[0],n); for (ssize_t i = 0; i < k; ++i) storeAt(s,p+i,1,Val((u8) t[i],8)); r = Val((u64) k,64); return true; });
    reg("open", [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (!g_concrete) incomplete(s,"call to open"); storeAt(s,g_errno,4,Val(ENOENT,32)); r = Val((u32) -1,32); return true; });
    reg("close", [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (!g_concrete) incomplete(s,"call to close"); r = Val(0,32); return true; });
    reg("isprint", [](State& s, const DInst& d, vector<Val>& a, Val& r) { E x = a[0].ex(); r = Val::ofE(xZExt(xBin(X_AND,xCmp(X_ULE,xConst(32,32),x),xCmp(X_ULE,x,xConst(126,32))),32)); return true; });
    reg("strtof", [](State& s, const DInst& d, vector<Val>& a, Val& r) { string t = cstr(s,C(s,a,0,"p"),"strtof input"); char* e; float v = strtof(t.c_str(),&e); u32 b; memcpy(&b,&v,4); if (a[1].c) storeAt(s,a[1].c,8,Val(a[0].c+(e-t.c_str()),64)); r = Val(b,32); return true; });
    for (const char* n : {"isatty"}) reg(n, [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (!g_concrete) incomplete(s,"host call"); r = Val(0,32); return true; });
    reg("rand", [](State& s, const DInst& d, vector<Val>& a, Val& r) { if (g_concrete) r = Val(rand(),32); else r = Val::ofE(xExtract(newInput(s,32,"rand").ex(),0,32)); if (!g_concrete) r = Val::ofE(xBin(X_AND,r.ex(),xConst(0x7fffffff,32))); return true; });
}
