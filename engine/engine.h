#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <unordered_map>
#include <list>

struct Agg;
// A value: concrete (e==null, w<=64), symbolic/wide (e), or aggregate (agg).
struct Val {
    E e = nullptr; u64 c = 0; u32 w = 0; std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(u64 v, u32 width) : c(width >= 64 ? v : v & ((1ull<<width)-1)), w(width) {}
    static Val ofE (E x) { Val v; v.w = x->w; if (isC(x) && x->w <= 64) v.c = (u64) x->c; else v.e = x; return v; }
    bool sym() const { return e && !isC(e); }
    E ex() const { return e ? e : xConst(c, w); }
};

template <typename T> struct Ref {		// intrusive, non-atomic
    T* p = nullptr;
    Ref() {} Ref(T* x) : p(x) { if (p) ++p->rc; }
    Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
    Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
    Ref& operator= (Ref o) { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && !--p->rc) delete p; }
    T* operator-> () const { return p; }
    explicit operator bool() const { return p; }
};

enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_EXC, OK_HOST };
enum ByteState : u8 { B_UNINIT, B_CONC, B_SYM };
struct BigByte { u8 f, v; E e; };
struct Obj {
    int rc = 0;
    u64 base = 0, size = 0; ObjKind kind = OK_GLOBAL; bool ro = false, dead = false, allConc = false, big = false, zeroDef = false;
    std::string name;
    std::vector<u8> d, f; std::vector<E> s;
    std::unordered_map<u64,BigByte> bm;
    Obj() {}
    Obj(const Obj& o) : rc(0), base(o.base), size(o.size), kind(o.kind), ro(o.ro), dead(o.dead), allConc(o.allConc), big(o.big), zeroDef(o.zeroDef), name(o.name), d(o.d), f(o.f), s(o.s), bm(o.bm) {}
    void init (u64 n, bool zero);
    u8 flag (u64 i) const;
    void fix (void) { if (allConc) { f.assign(size, B_CONC); allConc = false; } }
    void setUninit (void);
};
typedef Ref<Obj> ObjRef;

struct Op { int slot = -1; Val k; };
struct DInst {
    unsigned opc = 0; int dst = -1; u32 w = 0, aux = 0; std::vector<Op> ops; llvm::Instruction* I = nullptr;
    int b0 = -1, b1 = -1;			// successor blocks
    s64 off = 0; std::vector<std::pair<Op,s64>> idx; // GEP
    struct Fn* callee = nullptr; int builtin = 0; llvm::Type* ty = nullptr;
    std::vector<std::pair<Val,int>> cases;	// switch
    struct AsmInfo* as = nullptr;
};
struct PhiD { int dst; std::vector<std::pair<int,Op>> in; };
struct Blk { std::vector<PhiD> phis; std::vector<DInst> ins; };
struct Fn { llvm::Function* f = nullptr; std::vector<Blk> blks; int nslots = 0, nargs = 0; bool decoded = false, executed = false; u64 addr = 0; int builtin = 0; std::string name; unsigned id = 0; };

struct Frame {
    Fn* fn = nullptr; int blk = 0, pc = 0; std::vector<Val> regs; std::vector<u64> allocas; u64 va = 0;
    const DInst* site = nullptr;		// call instruction in the caller; null: plain return
};
struct ExcInfo { u64 obj; u64 tinfo; u64 dtor; int handlers; bool rethrown; };
struct State {
    std::vector<Frame> st;
    std::vector<ObjRef> globals; std::vector<std::pair<u64,ObjRef>> dyn; u64 nextSlot = 0;	// dyn sorted by first slot
    std::vector<E> cs; ModelRef model;
    std::vector<E> inputs; std::vector<std::pair<std::string,E>> obs;
    std::vector<ExcInfo> exc; std::vector<std::pair<u64,u64>> caught;	// object, count handled in exc
    u64 inflight = 0;				// exception object being propagated
    u64 steps = 0; int mallocFail = 0; bool df = false, mmx = false; int isConstMode = 0; u64 liveHeap = 0; u64 allocCount = 0;
    Val asmRegs[16]; unsigned forks = 0, nUninit = 0;
    std::string tag;
};
