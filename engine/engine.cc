// symx: a small KLEE-class symbolic executor for LLVM 18 IR, written for this project.
#include "engine.h"
#include <malloc.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>
#include <cxxabi.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
using namespace llvm;
using std::string; using std::vector; using std::pair;
struct AsmOpnd { string reg; bool out=false, mem=false; int tied=-1; int arg=-1; int outIdx=-1; unsigned bits=64; unsigned msize=0; };
struct AsmInfo { vector<AsmOpnd> ops; string text; std::set<string> clob; bool memClob=false; };

enum { SHIFT = 24 };
static Module* g_mod; static const DataLayout* DL;
static vector<std::unique_ptr<Fn>> g_fns; static std::map<Function*,Fn*> g_fnOf; static std::map<u64,Fn*> g_fnAt; static std::map<string,Fn*> g_fnByName;
static std::map<const GlobalValue*,u64> g_gaddr; static std::map<u64,string> g_tiName; static std::map<string,u64> g_tiByName;
static vector<pair<u64,int>> g_globIdx;	// slot -> index in State.globals
static u64 g_firstDynSlot;
static double g_deadline = 0; static u64 g_maxSteps = 20000000; static u64 g_maxPaths = ~0ull;
static int g_logFd = 1; static int g_tokR = -1, g_tokW = -1;
static bool g_isChild = false, g_logPaths = true, g_concrete = false; static vector<pid_t> g_kids; static vector<u64> g_concIn; static int g_trace = 0;
static u64 n_paths, n_ok, n_steps, n_viol, n_incomplete, n_assumed, n_asserts, n_forks, n_branches, n_instsTotal;
static std::map<string,u64> g_reach; static std::map<string,u64> g_inc; static std::set<string> g_violSeen; static std::map<string,int> g_violCount;
static std::set<u64> g_touchedLines;
static double now () { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
static string jesc (const string& s) { string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b,sizeof b,"\\u%04x",c); r += b; } else r += c; } return r; }
static void logLine (string s) { s += '\n'; size_t o = 0; while (o < s.size()) { ssize_t w = write(g_logFd, s.data()+o, s.size()-o); if (w <= 0) break; o += w; } }
struct Killed {};			// current path ended
static std::list<State> g_work;
static string demangle (const string& s) { int st; char* p = abi::__cxa_demangle(s.c_str(), 0, 0, &st); if (!p) return s; string r = p; free(p); return r; }

//--- objects -----------------------------------------------------------
void Obj::init (u64 n, bool zero) { size = n; zeroDef = zero; if (n > 65536) { big = true; return; } d.assign(n, 0); if (zero) allConc = true; else f.assign(n, B_UNINIT); }
u8 Obj::flag (u64 i) const { if (big) { auto it = bm.find(i); return it == bm.end() ? (zeroDef ? B_CONC : B_UNINIT) : it->second.f; } return allConc ? (u8) B_CONC : f[i]; }
void Obj::setUninit () { if (big) { bm.clear(); zeroDef = false; return; } allConc = false; f.assign(size, B_UNINIT); }

static string where (const State& s)
{
    string r; int n = 0;
    for (size_t i = s.st.size(); i-- && n < 8; ++n) {
	const Frame& f = s.st[i];
	if (!r.empty()) r += " < ";
	r += demangle(f.fn->name);
	const Blk& b = f.fn->blks[f.blk];
	if (f.pc < (int) b.ins.size()) if (auto& dl = b.ins[f.pc].I->getDebugLoc()) { r += ":" + std::to_string(dl.getLine()); }
    }
    return r;
}
static string siteOf (const State& s)	// innermost function:line
{
    if (s.st.empty()) return "exit";
    const Frame& f = s.st.back(); string r = demangle(f.fn->name);
    const Blk& b = f.fn->blks[f.blk];
    if (f.pc < (int) b.ins.size()) if (auto& dl = b.ins[f.pc].I->getDebugLoc()) { r += ":" + std::to_string(dl.getLine()); }
    return r;
}
static string inputsJson (const State& s, const ModelRef& m)
{
    string r = "[";
    for (size_t i = 0; i < s.inputs.size(); ++i) { if (i) r += ","; r += std::to_string((u64) xEval(s.inputs[i], m)); }
    return r + "]";
}
static string namesJson (const State& s)
{
    string r = "[";
    for (size_t i = 0; i < s.inputs.size(); ++i) { if (i) r += ","; r += "\"" + jesc(s.inputs[i]->op == X_SYM ? g_syms[s.inputs[i]->aux].name : xStr(s.inputs[i])) + "\""; }
    return r + "]";
}
static string obsJson (const State& s, const ModelRef& m)
{
    string r = "[";
    for (size_t i = 0; i < s.obs.size(); ++i) { if (i) r += ","; r += "\"" + std::to_string((u64) xEval(s.obs[i].second, m)) + "\""; }
    return r + "]";
}
static void violation (State& s, const string& kind, const string& msg, const ModelRef& m)
{
    ++n_viol;
    string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : siteOf(s));
    int& cnt = g_violCount[key];
    if (cnt++ >= 3) return;
    logLine("{\"t\":\"viol\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"site\":\"" + jesc(siteOf(s)) + "\",\"stack\":\"" + jesc(where(s)) + "\",\"tag\":\"" + jesc(s.tag) + "\",\"inputs\":" + inputsJson(s,m) + ",\"names\":" + namesJson(s) + ",\"obs\":" + obsJson(s,m) + "}");
}
[[noreturn]] static void fail (State& s, const string& kind, const string& msg) { violation(s, kind, msg, s.model); throw Killed(); }
[[noreturn]] static void incomplete (State& s, const string& why)
{
    ++n_incomplete; if (g_inc[why]++ < 2) logLine("{\"t\":\"inc\",\"why\":\"" + jesc(why) + "\",\"stack\":\"" + jesc(where(s)) + "\",\"inputs\":" + inputsJson(s,s.model) + "}");
    throw Killed();
}
static void addC (State& s, E c) { if (isC(c)) return; 
    if (c->op == X_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
    for (E x : s.cs) if (x == c) return; s.cs.push_back(c); }
static Sat check (State& s, E cond, ModelRef& m) { return satCheck(s.cs, cond, s.model, m); }

//--- address space -----------------------------------------------------
static ObjRef* findObj (State& s, u64 a)
{
    u64 slot = a >> SHIFT;
    if (slot < g_firstDynSlot) {
	auto it = std::upper_bound(g_globIdx.begin(), g_globIdx.end(), std::make_pair(slot, INT32_MAX));
	if (it == g_globIdx.begin()) return nullptr;
	--it; if (it->first != slot) return nullptr;
	return &s.globals[it->second];
    }
    auto it = std::upper_bound(s.dyn.begin(), s.dyn.end(), slot, [](u64 v, const pair<u64,ObjRef>& p){ return v < p.first; });
    if (it == s.dyn.begin()) return nullptr;
    --it; Obj* o = it->second.p;
    u64 last = (o->base + o->size) >> SHIFT;
    if (slot > last) return nullptr;
    return &it->second;
}
static Obj* writable (ObjRef& r) { if (r.p->rc > 1) r = ObjRef(new Obj(*r.p)); return r.p; }
static u64 allocObj (State& s, u64 size, ObjKind k, unsigned align, bool zero, const string& name)
{
    Obj* o = new Obj; o->kind = k; o->name = name;
    u64 slot = s.nextSlot; u64 base = (slot << SHIFT) + (align > 16 ? align : 16);
    if (align < 16 && k == OK_STACK) { base = (slot << SHIFT) + 32 - 0; base += align & 15; if (align == 0) base += 0; base = (base + align - 1) / (align ? align : 1) * (align ? align : 1); }
    o->base = base; o->init(size, zero);
    s.nextSlot = ((base + size) >> SHIFT) + 1;
    if (s.nextSlot >= (1ull << (47 - SHIFT))) incomplete(s, "address space exhausted");
    s.dyn.push_back({slot, ObjRef(o)});
    if (k == OK_HEAP) { ++s.liveHeap; ++s.allocCount; }
    return base;
}
static void freeObj (State& s, u64 base)
{
    u64 slot = base >> SHIFT;
    auto it = std::lower_bound(s.dyn.begin(), s.dyn.end(), slot, [](const pair<u64,ObjRef>& p, u64 v){ return p.first < v; });
    if (it == s.dyn.end() || it->first != slot) return;
    if (it->second->kind == OK_HEAP) --s.liveHeap;
    s.dyn.erase(it);
}
static string hex (u64 v) { char b[32]; snprintf(b,sizeof b,"%#llx",(unsigned long long) v); return b; }
static string objDesc (State& s, u64 a, u64 n, bool wr)
{
    string r = string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes ";
    ObjRef* o = findObj(s, a);
    if (a < 4096) return r + "at null page (" + hex(a) + ")";
    if (!o) { 
	// perhaps just before / after
	ObjRef* q = findObj(s, a + (1<<16)); if (q && *q) return r + "far outside any object";
	return r + ((a >> SHIFT) >= g_firstDynSlot && (a >> SHIFT) < s.nextSlot ? "in freed memory" : "at wild address"); }
    Obj* p = o->p; s64 off = (s64)(a - p->base);
    static const char* kn[] = {"global","stack","heap","exception","host"};
    return r + "at offset " + std::to_string(off) + " of a " + std::to_string(p->size) + "-byte " + kn[p->kind] + " object " + p->name;
}
static ObjRef& access (State& s, u64 a, u64 n, bool wr)
{
    ObjRef* o = findObj(s, a);
    if (!o) fail(s, "memory", objDesc(s,a,n,wr));
    Obj* p = o->p;
    if (a < p->base || a - p->base > p->size || n > p->size - (a - p->base)) fail(s, "memory", objDesc(s,a,n,wr));
    if (p->dead) fail(s, "memory", objDesc(s,a,n,wr) + " after its lifetime ended");
    if (wr && p->ro) fail(s, "memory", objDesc(s,a,n,wr) + " which is constant");
    return *o;
}
// The same symbol serves the n-th uninitialised value of every path: paths never share constraints on it.
static E xUninit (State& s, const string& nm, unsigned w)
{
    static std::map<std::pair<std::pair<unsigned,unsigned>,string>,E> pool;
    E& e = pool[{{s.nUninit++,w},nm}]; if (!e) e = xSym(nm, w, true);
    return e;
}
static E readByte (State& s, ObjRef& r, u64 off)
{
    Obj* p = r.p;
    u8 fl = p->flag(off);
    if (p->big) {
	auto it = p->bm.find(off);
	if (fl == B_CONC) return xConst(it == p->bm.end() ? 0 : it->second.v, 8);
	if (fl == B_SYM) return it->second.e;
	p = writable(r); E e = xUninit(s, "uninit:" + p->name, 8); p->bm[off] = {B_SYM, 0, e}; return e;
    }
    if (fl == B_CONC) return xConst(p->d[off], 8);
    if (fl == B_SYM) return p->s[off];
    p = writable(r);
    E e = xUninit(s, "uninit:" + p->name, 8);
    if (p->s.empty()) p->s.resize(p->size);
    p->f[off] = B_SYM; p->s[off] = e;
    return e;
}
static void writeByteE (Obj* p, u64 off, E e)
{
    if (p->big) { if (isC(e)) p->bm[off] = {B_CONC, (u8) e->c, nullptr}; else p->bm[off] = {B_SYM, 0, e}; return; }
    if (isC(e)) { p->d[off] = (u8) e->c; if (!p->allConc) p->f[off] = B_CONC; return; }
    p->fix();
    if (p->s.empty()) p->s.resize(p->size);
    p->f[off] = B_SYM; p->s[off] = e;
}
static Val loadAt (State& s, u64 a, unsigned n, unsigned w)
{
    ObjRef& r = access(s, a, n, false);
    Obj* p = r.p; u64 off = a - p->base;
    if (!p->big && n <= 8) {
	bool conc = p->allConc;
	if (!conc) { conc = true; for (unsigned i = 0; i < n; ++i) if (p->f[off+i] != B_CONC) { conc = false; break; } }
	if (conc) { u64 v = 0; memcpy(&v, &p->d[off], n); return Val(v, w); }
    }
    E e = nullptr;
    for (unsigned i = n; i--;) { E b = readByte(s, r, off+i); e = e ? xConcat(e, b) : b; }
    if (e->w > w) e = xExtract(e, 0, w);
    return Val::ofE(e);
}
static void storeAt (State& s, u64 a, unsigned n, const Val& v)
{
    ObjRef& r = access(s, a, n, true);
    Obj* p = writable(r); u64 off = a - p->base;
    if (!v.e && !p->big && n <= 8) {
	memcpy(&p->d[off], &v.c, n);
	if (!p->allConc) for (unsigned i = 0; i < n; ++i) p->f[off+i] = B_CONC;
	return;
    }
    E e = v.ex(); if (e->w < n*8) e = xZExt(e, n*8);
    for (unsigned i = 0; i < n; ++i) writeByteE(p, off+i, xExtract(e, i*8, 8));
}
static void copyMem (State& s, u64 dst, u64 src, u64 n)	// memmove semantics
{
    if (!n) return;
    if (n > (64u<<20)) incomplete(s, "memory copy of more than 64MB");
    ObjRef keep = access(s, src, n, false);
    ObjRef& rd = access(s, dst, n, true);
    Obj* q = writable(rd); Obj* p = keep.p;
    u64 so = src - p->base, d0 = dst - q->base;
    if (!p->big && !q->big && p->allConc) { 
	memmove(&q->d[d0], &p->d[so], n); if (!q->allConc) for (u64 i = 0; i < n; ++i) q->f[d0+i] = B_CONC; return; }
    if (!p->big && !q->big && n > 0) {
	vector<u8> td(p->d.begin()+so, p->d.begin()+so+n), tf(p->f.begin()+so, p->f.begin()+so+n); vector<E> ts; if (!p->s.empty()) ts.assign(p->s.begin()+so, p->s.begin()+so+n);
	q->fix();
	memcpy(&q->d[d0], td.data(), n); memcpy(&q->f[d0], tf.data(), n);
	if (!ts.empty()) { if (q->s.empty()) q->s.resize(q->size); for (u64 i = 0; i < n; ++i) q->s[d0+i] = ts[i]; }
	return;
    }
    vector<BigByte> t; t.reserve(n);
    for (u64 i = 0; i < n; ++i) { u8 fl = p->flag(so+i); BigByte b{fl,0,nullptr}; 
	if (p->big) { auto it = p->bm.find(so+i); if (it != p->bm.end()) b = it->second; }
	else { b.v = p->d[so+i]; if (fl == B_SYM) b.e = p->s[so+i]; } t.push_back(b); }
    if (!q->big) q->fix();
    for (u64 i = 0; i < n; ++i) {
	if (q->big) { if (t[i].f == B_UNINIT) q->bm.erase(d0+i); else q->bm[d0+i] = t[i]; }
	else { q->f[d0+i] = t[i].f; q->d[d0+i] = t[i].v; if (t[i].f == B_SYM) { if (q->s.empty()) q->s.resize(q->size); q->s[d0+i] = t[i].e; } }
    }
}
static void setMem (State& s, u64 dst, E byte, u64 n)
{
    if (!n) return;
    ObjRef& rd = access(s, dst, n, true); Obj* q = writable(rd); u64 d0 = dst - q->base;
    if (q->big && n > (64u<<20)) incomplete(s, "memset of more than 64MB");
    if (isC(byte) && !q->big) { memset(&q->d[d0], (int)(u8) byte->c, n); if (!q->allConc) memset(&q->f[d0], B_CONC, n); return; }
    for (u64 i = 0; i < n; ++i) writeByteE(q, d0+i, byte);
}

//--- forking -----------------------------------------------------------
static void pushState (State&& c) { ++n_forks; ++c.forks; g_work.push_back(std::move(c)); }
static void uninitCheck (State& s, E e, const char* what)
{
    if (isC(e) || !xHasUninit(e)) return;
    string nm; for (u32 v : xVars(e)) if (g_syms[v].uninit) { nm = g_syms[v].name; break; }
    fail(s, "uninit", string(what) + " depends on uninitialized memory (" + nm + ")");
}
// Make v concrete in s, forking off the alternatives (which re-execute the current instruction).
static u64 concretize (State& s, const Val& v, const char* what)
{
    if (!v.e) return v.c;
    if (isC(v.e)) return (u64) v.e->c;
    E e = v.e;
    uninitCheck(s, e, what);
    u128 val = xEval(e, s.model);
    E eq = xCmp(X_EQ, e, xConst(val, e->w)), ne = xNot(eq);
    ModelRef m; Sat r = check(s, ne, m);
    if (r == UNKNOWN) { ++n_incomplete; if (g_inc["solver timeout"]++ < 2) logLine("{\"t\":\"inc\",\"why\":\"solver timeout\",\"stack\":\"" + jesc(where(s)) + "\"}"); }
    if (r == SAT) { State c = s; addC(c, ne); c.model = m; pushState(std::move(c)); addC(s, eq); }
    return (u64) val;
}
// Decide a boolean in s: returns the side taken by s; the other side is forked off re-executing.
static bool decide (State& s, const Val& v, const char* what)
{
    if (!v.e) return v.c & 1;
    if (isC(v.e)) return v.e->c & 1;
    E e = v.e; ++n_branches;
    uninitCheck(s, e, what);
    bool side = xEval(e, s.model);
    E mine = side ? e : xNot(e), other = side ? xNot(e) : e;
    ModelRef m; Sat r = check(s, other, m);
    if (r == UNKNOWN) { ++n_incomplete; if (g_inc["solver timeout"]++ < 2) logLine("{\"t\":\"inc\",\"why\":\"solver timeout\",\"stack\":\"" + jesc(where(s)) + "\"}"); }
    if (r == SAT) { State c = s; addC(c, other); c.model = m; pushState(std::move(c)); addC(s, mine); }
    return side;
}
// After this the access [e, e+n) is inside one object on every model of s; out-of-bounds models are reported.
static Obj* resolve (State& s, E e, u64 n, bool wr)
{
    uninitCheck(s, e, "address");
    u64 a = (u64) xEval(e, s.model);
    ObjRef& r = access(s, a, n, wr);		// a model outside every object is a violation
    Obj* p = r.p;
    E off = xBin(X_SUB, e, xConst(p->base, 64));
    E in = xCmp(X_ULE, off, xConst(p->size - n, 64));
    ModelRef m; Sat q = check(s, xNot(in), m);
    if (q == UNKNOWN) incomplete(s, "solver timeout");
    if (q == SAT) { State c = s; addC(c, xNot(in)); c.model = m; pushState(std::move(c)); addC(s, in); }
    return p;
}
static Val loadV (State& s, const Val& a, unsigned n, unsigned w)
{
    if (!a.sym()) return loadAt(s, a.e ? (u64) a.e->c : a.c, n, w);
    Obj* p = resolve(s, a.e, n, false);
    if (p->size <= 256 && !p->big) {
	u64 base = p->base, cnt = p->size - n + 1;
	E off = xBin(X_SUB, a.e, xConst(base, 64));
	E r = nullptr;
	// only offsets feasible by stride: cheap filter through alignment of the low bits is left to the solver
	for (u64 i = cnt; i--;) {
	    E eq = xCmp(X_EQ, off, xConst(i, 64));
	    if (isC(eq) && !eq->c) continue;
	    // skip reading uninitialised bytes unless reachable
	    bool un = false; Obj* q = findObj(s, base)->p; for (unsigned j = 0; j < n; ++j) if (q->flag(i+j) == B_UNINIT) un = true;
	    if (un) { ModelRef m; if (check(s, eq, m) == UNSAT) continue; }
	    E v = loadAt(s, base + i, n, w).ex();
	    r = r ? xIte(eq, v, r) : v;
	}
	return Val::ofE(r);
    }
    return loadAt(s, concretize(s, a, "address"), n, w);
}
static void storeV (State& s, const Val& a, unsigned n, const Val& v)
{
    if (!a.sym()) { storeAt(s, a.e ? (u64) a.e->c : a.c, n, v); return; }
    resolve(s, a.e, n, true);
    storeAt(s, concretize(s, a, "address"), n, v);
}

//--- constants and decoding --------------------------------------------
static unsigned bitsOf (Type* t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isVoidTy()) return 0;
    return (unsigned) DL->getTypeSizeInBits(t).getFixedValue();
}
static unsigned bytesOf (Type* t) { return (unsigned) DL->getTypeStoreSize(t).getFixedValue(); }
static Val zeroVal (Type* t)
{
    if (t->isStructTy() || t->isArrayTy()) {
	Val v; v.agg = std::make_shared<vector<Val>>();
	unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
	for (unsigned i = 0; i < n; ++i) v.agg->push_back(zeroVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
	return v;
    }
    unsigned w = bitsOf(t);
    return w <= 64 ? Val(0,w) : Val::ofE(xConst(0,w));
}
static Fn* fnFor (Function* f);
static Val evalConst (const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue(), ci->getBitWidth()); auto* r = ci->getValue().getRawData(); return Val::ofE(xConst(((u128) r[1] << 64) | r[0], ci->getBitWidth())); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return Val(a.getZExtValue(), a.getBitWidth()); auto* r = a.getRawData(); return Val::ofE(xConst(((u128) r[1] << 64) | r[0], a.getBitWidth())); }
    if (isa<ConstantPointerNull>(c)) return Val(0,64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto* f = dyn_cast<Function>(c)) return Val(fnFor(const_cast<Function*>(f))->addr, 64);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val(g_gaddr.at(g), 64);
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
	if (t->isVectorTy()) { E e = nullptr; for (unsigned i = 0; i < cd->getNumElements(); ++i) { E x = evalConst(cd->getElementAsConstant(i)).ex(); e = e ? xConcat(x, e) : x; } return Val::ofE(e); }
	Val v; v.agg = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(evalConst(cd->getElementAsConstant(i))); return v;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
	if (t->isVectorTy()) { E e = nullptr; for (unsigned i = 0; i < ca->getNumOperands(); ++i) { E x = evalConst(ca->getOperand(i)).ex(); e = e ? xConcat(x, e) : x; } return Val::ofE(e); }
	Val v; v.agg = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < ca->getNumOperands(); ++i) v.agg->push_back(evalConst(ca->getOperand(i))); return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
	switch (ce->getOpcode()) {
	    case Instruction::GetElementPtr: {
		APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
		return Val(evalConst(ce->getOperand(0)).c + off.getSExtValue(), 64); }
	    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return Val(evalConst(ce->getOperand(0)).c, bitsOf(t));
	    case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
	    case Instruction::Sub: return Val(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c, bitsOf(t));
	    case Instruction::Add: return Val(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c, bitsOf(t));
	    default: break;
	}
    }
    string str; raw_string_ostream os(str); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", str.c_str()); _exit(3);
}
static void writeInit (Obj* o, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (isa<ConstantArray>(c)) { u64 st = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < c->getNumOperands(); ++i) writeInit(o, off + i*st, cast<Constant>(c->getOperand(i))); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 st = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); ++i) writeInit(o, off + i*st, cd->getElementAsConstant(i)); return; }
    Val v = evalConst(c); unsigned n = bytesOf(t); E e = nullptr;
    if (v.e || n > 8) { e = v.ex(); if (e->w < n*8) e = xZExt(e, n*8); }
    for (unsigned i = 0; i < n; ++i) { u8 b = e ? (u8) xExtract(e,i*8,8)->c : (u8)(v.c >> (i*8)); if (o->big) o->bm[off+i] = {B_CONC,b,nullptr}; else o->d[off+i] = b; }
}

#include "builtins.inc"

static Fn* fnFor (Function* f)
{
    auto it = g_fnOf.find(f); if (it != g_fnOf.end()) return it->second;
    auto p = std::make_unique<Fn>(); Fn* r = p.get(); r->f = f; r->name = f->getName().str(); r->id = g_fns.size(); r->addr = 0x10000 + 16 * g_fns.size();
    g_fns.push_back(std::move(p)); g_fnOf[f] = r; g_fnAt[r->addr] = r; g_fnByName[r->name] = r;
    return r;
}
static Fn* resolveCallee (Function* f)
{
    if (!f->isDeclaration()) {
	string n = f->getName().str();
	return fnFor(f);
    }
    if (f->isIntrinsic()) { Fn* r = fnFor(f); return r; }
    string n = f->getName().str();
    for (const char* pre : {"__wrap_", "symx_"}) if (Function* w = g_mod->getFunction(pre + n)) if (!w->isDeclaration()) return fnFor(w);
    if (n.rfind("__real_",0) == 0) n = n.substr(7);
    Fn* r = fnFor(f); auto it = g_builtins.find(n); r->builtin = it == g_builtins.end() ? 0 : it->second;
    return r;
}
static AsmInfo* parseAsm (InlineAsm* ia, CallBase* cb)
{
    AsmInfo* r = new AsmInfo; r->text = ia->getAsmString();
    string cs = ia->getConstraintString(); int arg = 0, outIdx = 0;
    size_t p = 0;
    while (p < cs.size()) {
	size_t q = p; int br = 0; while (q < cs.size() && (cs[q] != ',' || br)) { if (cs[q] == '{') ++br; if (cs[q] == '}') --br; ++q; }
	string c = cs.substr(p, q-p); p = q + 1;
	if (c[0] == '~') { string n = c.substr(2, c.find('}')-2); if (n == "memory") r->memClob = true; else r->clob.insert(n); continue; }
	AsmOpnd o; size_t i = 0;
	if (c[i] == '=') { o.out = true; ++i; }
	if (i < c.size() && c[i] == '&') ++i;
	bool ind = false;
	if (i < c.size() && c[i] == '*') { ind = true; ++i; }
	if (i < c.size() && c[i] == '%') ++i;
	if (i < c.size() && c[i] == '{') o.reg = c.substr(i+1, c.find('}') - i - 1);
	if (i < c.size() && isdigit(c[i])) o.tied = atoi(c.c_str()+i);
	{ size_t bar = c.rfind('|'); if (bar != string::npos && isdigit(c[bar+1]) && !ind && o.tied < 0 && isdigit(c.back())) {} }
	o.mem = ind;
	if (o.out && !ind) {
	    o.outIdx = outIdx++;
	} else o.arg = arg++;
	if (o.arg >= 0) {
	    Type* t = cb->getArgOperand(o.arg)->getType();
	    if (ind) { if (Type* et = cb->getParamElementType(o.arg)) o.msize = bytesOf(et); }
	    else o.bits = bitsOf(t);
	}
	r->ops.push_back(o);
    }
    Type* rt = cb->getType();
    for (auto& o : r->ops) if (o.outIdx >= 0) { Type* t = rt->isStructTy() ? rt->getStructElementType(o.outIdx) : rt; o.bits = bitsOf(t); }
    return r;
}
static void decode (Fn* fn)
{
    fn->decoded = true; Function* f = fn->f;
    std::map<const Value*,int> slot; std::map<const BasicBlock*,int> bi; int n = 0;
    for (auto& a : f->args()) slot[&a] = n++;
    fn->nargs = n;
    int k = 0; for (auto& b : *f) { bi[&b] = k++; for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
    fn->nslots = n;
    auto op = [&](const Value* v) -> Op { Op o; auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; return o; }
	if (auto* c = dyn_cast<Constant>(v)) o.k = evalConst(c); return o; };
    fn->blks.resize(k); k = 0;
    for (auto& b : *f) {
	Blk& B = fn->blks[k++];
	for (auto& i : b) {
	    if (auto* ph = dyn_cast<PHINode>(&i)) { PhiD d; d.dst = slot[ph]; for (unsigned j = 0; j < ph->getNumIncomingValues(); ++j) d.in.push_back({bi[ph->getIncomingBlock(j)], op(ph->getIncomingValue(j))}); B.phis.push_back(std::move(d)); continue; }
	    if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID();
		if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::assume) continue; }
	    DInst d; d.I = &i; d.opc = i.getOpcode(); d.ty = i.getType(); d.w = i.getType()->isVoidTy() || i.getType()->isAggregateType() ? 0 : bitsOf(i.getType());
	    auto it = slot.find(&i); if (it != slot.end()) d.dst = it->second;
	    if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
		d.ops.push_back(op(g->getPointerOperand()));
		for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
		    Value* v = gi.getOperand();
		    if (StructType* st = gi.getStructTypeOrNull()) d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
		    else { s64 sz = gi.getSequentialElementStride(*DL); if (auto* ci = dyn_cast<ConstantInt>(v)) d.off += sz * ci->getSExtValue(); else d.idx.push_back({op(v), sz}); }
		}
	    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
		d.b0 = bi[br->getSuccessor(0)]; if (br->isConditional()) { d.ops.push_back(op(br->getCondition())); d.b1 = bi[br->getSuccessor(1)]; }
	    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
		d.ops.push_back(op(sw->getCondition())); d.b0 = bi[sw->getDefaultDest()];
		for (auto& c : sw->cases()) d.cases.push_back({evalConst(c.getCaseValue()), bi[c.getCaseSuccessor()]});
	    } else if (auto* cb = dyn_cast<CallBase>(&i)) {
		for (auto& a : cb->args()) if (!a->getType()->isMetadataTy()) d.ops.push_back(op(a)); else d.ops.push_back(Op());
		if (cb->isInlineAsm()) { d.as = parseAsm(cast<InlineAsm>(cb->getCalledOperand()), cb); }
		else {
		    Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
		    if (auto* cf = dyn_cast<Function>(cv)) d.callee = resolveCallee(cf);
		    else d.ops.push_back(op(cb->getCalledOperand()));
		}
		if (auto* iv = dyn_cast<InvokeInst>(&i)) { d.b0 = bi[iv->getNormalDest()]; d.b1 = bi[iv->getUnwindDest()]; }
	    } else {
		for (auto& o : i.operands()) d.ops.push_back(op(o.get()));
		if (auto* c = dyn_cast<CmpInst>(&i)) d.aux = c->getPredicate();
		if (auto* a = dyn_cast<AllocaInst>(&i)) { d.aux = (u32) a->getAlign().value(); d.off = DL->getTypeAllocSize(a->getAllocatedType()); }
		if (isa<LoadInst>(&i)) d.aux = bytesOf(i.getType());
		if (auto* st = dyn_cast<StoreInst>(&i)) { d.aux = bytesOf(st->getValueOperand()->getType()); d.ty = st->getValueOperand()->getType(); }
	    }
	    B.ins.push_back(std::move(d));
	}
    }
}
static inline const Val& val (const Frame& f, const Op& o) { return o.slot >= 0 ? f.regs[o.slot] : o.k; }
static void jump (State& s, int b)
{
    Frame& f = s.st.back(); int from = f.blk; Blk& B = f.fn->blks[b];
    if (!B.phis.empty()) {
	Val tmp[16]; vector<Val> big; Val* t = tmp; if (B.phis.size() > 16) { big.resize(B.phis.size()); t = big.data(); }
	for (size_t i = 0; i < B.phis.size(); ++i) for (auto& p : B.phis[i].in) if (p.first == from) { t[i] = val(f, p.second); break; }
	for (size_t i = 0; i < B.phis.size(); ++i) f.regs[B.phis[i].dst] = std::move(t[i]);
    }
    f.blk = b; f.pc = 0;
}
static Val loadTyped (State& s, const Val& a, Type* t)
{
    if (t->isStructTy() || t->isArrayTy()) {
	Val v; v.agg = std::make_shared<vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
	u64 base = concretize(s, a, "address");
	for (unsigned i = 0; i < n; ++i) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); u64 o = t->isStructTy() ? (u64) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et).getFixedValue(); v.agg->push_back(loadTyped(s, Val(base+o,64), et)); }
	return v;
    }
    return loadV(s, a, bytesOf(t), bitsOf(t));
}
static void storeTyped (State& s, const Val& a, const Val& v, Type* t)
{
    if (v.agg) {
	u64 base = concretize(s, a, "address");
	for (unsigned i = 0; i < v.agg->size(); ++i) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); u64 o = t->isStructTy() ? (u64) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et).getFixedValue(); storeTyped(s, Val(base+o,64), (*v.agg)[i], et); }
	return;
    }
    storeV(s, a, bytesOf(t), v);
}
static void popFrame (State& s)
{
    Frame& f = s.st.back();
    for (u64 a : f.allocas) freeObj(s, a);
    s.st.pop_back();
}
static void callFn (State& s, Fn* fn, vector<Val>& args, const DInst* site)
{
    if (!fn->decoded) decode(fn);
    fn->executed = true;
    if (s.st.size() > 2000) fail(s, "recursion", "call depth exceeds 2000");
    s.st.emplace_back(); Frame& f = s.st.back();
    f.fn = fn; f.site = site; f.regs.resize(fn->nslots);
    Function* F = fn->f;
    for (int i = 0; i < fn->nargs; ++i) {
	if (i < (int) args.size()) {
	    if (F->getArg(i)->hasByValAttr()) {
		Type* t = F->getArg(i)->getParamByValType(); u64 n = DL->getTypeAllocSize(t);
		u64 b = allocObj(s, n, OK_STACK, 16, false, "byval"); s.st.back().allocas.push_back(b);
		copyMem(s, b, args[i].c, n); s.st.back().regs[i] = Val(b,64);
	    } else f.regs[i] = std::move(args[i]);
	}
    }
    if (F->isVarArg()) {
	u64 n = 0; vector<pair<u64,Val>> sl;
	for (size_t i = fn->nargs; i < args.size(); ++i) { sl.push_back({n, args[i]}); n += 8; }
	u64 b = allocObj(s, n, OK_STACK, 16, true, "varargs"); s.st.back().allocas.push_back(b);
	for (auto& p : sl) { Val v = p.second; if (!v.e) v.w = 64; else v = Val::ofE(xZExt(v.e,64)); storeAt(s, b + p.first, 8, v); }
	s.st.back().va = b;
    }
}
static void retTo (State& s, const Val& rv, const DInst* site)	// frame already popped
{
    if (!site) return;
    Frame& f = s.st.back();
    if (site->dst >= 0) f.regs[site->dst] = rv;
    if (site->opc == Instruction::Invoke) jump(s, site->b0); else ++f.pc;
}
//--- exceptions --------------------------------------------------------
static u64 rdPtr (State& s, u64 a) { Val v = loadAt(s, a, 8, 64); return v.c; }
static u64 g_vtSi, g_vtVmi, g_vtClass;
// Does a thrown object of type t match handler type h?  Adjusts the object offset.
static bool tiMatch (State& s, u64 t, u64 h, u64 objAddr, s64& adj)
{
    if (t == h) return true;
    auto nt = g_tiName.find(t), nh = g_tiName.find(h);
    if (nt != g_tiName.end() && nh != g_tiName.end() && nt->second == nh->second) return true;
    ObjRef* o = findObj(s, t); if (!o || (*o)->size < 24) return false;
    u64 vt = rdPtr(s, t);
    if (vt == g_vtSi + 16) return tiMatch(s, rdPtr(s, t + 16), h, objAddr, adj);
    if (vt == g_vtVmi + 16) {
	u64 cnt = loadAt(s, t + 20, 4, 32).c;
	for (u64 i = 0; i < cnt; ++i) {
	    u64 b = rdPtr(s, t + 24 + i*16); s64 fl = (s64) rdPtr(s, t + 32 + i*16);
	    if (!(fl & 2)) continue;		// not public
	    s64 off = fl >> 8, a2 = 0;
	    if (fl & 1) { u64 vp = rdPtr(s, objAddr + adj); off = (s64) rdPtr(s, vp + off); }
	    a2 = adj + off;
	    if (tiMatch(s, b, h, objAddr, a2)) { adj = a2; return true; }
	}
    }
    return false;
}
static ExcInfo* excOf (State& s, u64 obj) { for (auto& e : s.exc) if (e.obj == obj) return &e; return nullptr; }
static int selFor (u64 ti) { return (int)((ti >> 4) & 0x7ffffff) + 1; }
static u64 excAdjusted (State& s, u64 obj, u64 handlerTi)
{
    ExcInfo* x = excOf(s, obj); s64 adj = 0;
    auto nt = g_tiName.find(x->tinfo);
    if (nt != g_tiName.end() && nt->second[0] == 'P') return rdPtr(s, obj);
    if (handlerTi) tiMatch(s, x->tinfo, handlerTi, obj, adj);
    return obj + adj;
}
// Propagate s.inflight; the current instruction of the top frame is the throwing call.
static void raiseExc (State& s, bool atCurrent = true)
{
    u64 obj = s.inflight; ExcInfo* x = excOf(s, obj);
    const DInst* site = &s.st.back().fn->blks[s.st.back().blk].ins[s.st.back().pc];
    for (;;) {
	if (site && site->opc == Instruction::Invoke) {
	    BasicBlock* ub = cast<InvokeInst>(site->I)->getUnwindDest();
	    auto* lp = cast<LandingPadInst>(ub->getFirstNonPHI());
	    int sel = -1; bool match = false; u64 hti = 0;
	    for (unsigned i = 0; i < lp->getNumClauses() && !match; ++i) {
		if (lp->isCatch(i)) {
		    u64 h = evalConst(lp->getClause(i)).c; s64 adj = 0;
		    if (!h) { match = true; sel = selFor(0); }
		    else if (tiMatch(s, x->tinfo, h, obj, adj)) { match = true; sel = selFor(h); hti = h; }
		} else { Constant* fc = lp->getClause(i); bool in = false;
		    for (unsigned j = 0; j < fc->getNumOperands(); ++j) { u64 h = evalConst(cast<Constant>(fc->getOperand(j))).c; s64 adj = 0; if (!h || tiMatch(s, x->tinfo, h, obj, adj)) in = true; }
		    if (!in) { match = true; sel = -(int) i - 1; } }
	    }
	    if (match || lp->isCleanup()) {
		jump(s, site->b1); Frame& f = s.st.back();
		DInst& l = f.fn->blks[f.blk].ins[0];
		Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back(Val(obj,64)); v.agg->push_back(Val((u64)(u32)(match ? sel : 0),32));
		f.regs[l.dst] = v; f.pc = 1;
		s.caught.erase(std::remove_if(s.caught.begin(), s.caught.end(), [&](auto& p){ return p.first == obj; }), s.caught.end());
		s.caught.push_back({obj, hti});
		return;
	    }
	}
	const DInst* up = s.st.back().site;
	if (!up || s.st.size() == 1) { string tn = g_tiName.count(x->tinfo) ? g_tiName[x->tinfo] : "?"; fail(s, "uncaught", "exception of type " + demangle("_ZTI" + tn) + " escapes"); }
	popFrame(s); site = up;
    }
}
#include "exec.inc"
