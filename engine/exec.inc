u64 g_dynCast (State& s, u64 p, u64 dst)
{
    u64 vt = rdPtr(s, p); u64 ti = rdPtr(s, vt - 8); s64 top = (s64) rdPtr(s, vt - 16);
    u64 full = p + top; s64 adj = 0;
    return tiMatch(s, ti, dst, full, adj) ? full + adj : 0;
}
void finishCallNull (State& c)
{
    Frame& f = c.st.back(); const DInst& d = f.fn->blks[f.blk].ins[f.pc];
    storeAt(c, g_errno, 4, Val(ENOMEM,32));
    retTo(c, Val(0,64), &d);
}
static unsigned fpw (Type* t) { return bitsOf(t->getScalarType()); }
static E evec (State& s, ExOp op, bool cmp, E a, E b, unsigned n) { unsigned ew = a->w / n; E r = nullptr; for (unsigned i = 0; i < n; ++i) { E x = xExtract(a,i*ew,ew), y = xExtract(b,i*ew,ew); E z = cmp ? xCmp(op,x,y) : xBin(op,x,y); r = r ? xConcat(z,r) : z; } return r; }
#include "asm.inc"
static bool intrinsic (State& s, const DInst& d, Function* f, vector<Val>& a, Val& r)	// true: handled, advance
{
    unsigned w = d.w;
    switch (f->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n = C(s,a,2,"length"); u64 p = C(s,a,0,"pointer"), q = C(s,a,1,"pointer"); 
	    if (n && f->getIntrinsicID() == Intrinsic::memcpy && p != q && p < q + n && q < p + n) {} copyMem(s,p,q,n); return true; }
	case Intrinsic::memset: { u64 n = C(s,a,2,"length"); u64 p = C(s,a,0,"pointer"); setMem(s,p,a[1].ex(),n); return true; }
	case Intrinsic::lifetime_start: { ObjRef* o = findObj(s,a[1].c); if (o && (*o)->kind == OK_STACK) { Obj* p = writable(*o); p->dead = false; p->setUninit(); } return true; }
	case Intrinsic::lifetime_end: { ObjRef* o = findObj(s,a[1].c); if (o && (*o)->kind == OK_STACK) writable(*o)->dead = true; return true; }
	case Intrinsic::stacksave: r = Val(0,64); return true;
	case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
	case Intrinsic::vastart: { u64 p = a[0].c; Frame& fr = s.st.back(); u64 va = fr.va; storeAt(s,p,4,Val(48,32)); storeAt(s,p+4,4,Val(304,32)); storeAt(s,p+8,8,Val(va,64)); storeAt(s,p+16,8,Val(0,64)); return true; }
	case Intrinsic::vaend: return true;
	case Intrinsic::vacopy: copyMem(s,a[0].c,a[1].c,24); return true;
	case Intrinsic::is_constant: r = Val(s.isConstMode == 1, 1); return true;
	case Intrinsic::objectsize: r = Val(~0ull, w); return true;
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return true;
	case Intrinsic::trap: fail(s,"trap","trap instruction executed");
	case Intrinsic::eh_typeid_for: r = Val((u64)(u32) selFor(a[0].c), 32); return true;
	case Intrinsic::umin: { E x=a[0].ex(),y=a[1].ex(); r = Val::ofE(xIte(xCmp(X_ULT,x,y),x,y)); return true; }
	case Intrinsic::umax: { E x=a[0].ex(),y=a[1].ex(); r = Val::ofE(xIte(xCmp(X_ULT,x,y),y,x)); return true; }
	case Intrinsic::smin: { E x=a[0].ex(),y=a[1].ex(); r = Val::ofE(xIte(xCmp(X_SLT,x,y),x,y)); return true; }
	case Intrinsic::smax: { E x=a[0].ex(),y=a[1].ex(); r = Val::ofE(xIte(xCmp(X_SLT,x,y),y,x)); return true; }
	case Intrinsic::abs: { E x=a[0].ex(); r = Val::ofE(xIte(xCmp(X_SLT,x,xConst(0,w)),xBin(X_SUB,xConst(0,w),x),x)); return true; }
	case Intrinsic::bswap: { E x=a[0].ex(),z=nullptr; for (unsigned i = 0; i < w; i += 8) { E b = xExtract(x,i,8); z = z ? xConcat(z,b) : b; } r = Val::ofE(z); return true; }
	case Intrinsic::ctpop: { E x=a[0].ex(),z=xConst(0,w); for (unsigned i = 0; i < w; ++i) z = xBin(X_ADD,z,xZExt(xExtract(x,i,1),w)); r = Val::ofE(z); return true; }
	case Intrinsic::ctlz: { E x=a[0].ex(),z=xConst(w,w); for (unsigned i = 0; i < w; ++i) z = xIte(xExtract(x,i,1),xConst(w-1-i,w),z); r = Val::ofE(z); return true; }
	case Intrinsic::cttz: { E x=a[0].ex(),z=xConst(w,w); for (unsigned i = w; i--;) z = xIte(xExtract(x,i,1),xConst(i,w),z); r = Val::ofE(z); return true; }
	case Intrinsic::fshl: case Intrinsic::fshr: { E h=a[0].ex(),l=a[1].ex(),sh=xBin(X_UREM,a[2].ex(),xConst(w,w)); if (w > 64) incomplete(s,"wide funnel shift"); E cat = xConcat(h,l); E zs = xZExt(sh,2*w);
	    if (f->getIntrinsicID() == Intrinsic::fshl) r = Val::ofE(xExtract(xBin(X_SHL,cat,zs),w,w)); else r = Val::ofE(xExtract(xBin(X_LSHR,cat,zs),0,w)); return true; }
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
	    E x=a[0].ex(),y=a[1].ex(); unsigned n = x->w; bool sg = f->getIntrinsicID() == Intrinsic::sadd_with_overflow || f->getIntrinsicID() == Intrinsic::ssub_with_overflow || f->getIntrinsicID() == Intrinsic::smul_with_overflow;
	    ExOp o = f->getIntrinsicID() == Intrinsic::uadd_with_overflow || f->getIntrinsicID() == Intrinsic::sadd_with_overflow ? X_ADD : f->getIntrinsicID() == Intrinsic::usub_with_overflow || f->getIntrinsicID() == Intrinsic::ssub_with_overflow ? X_SUB : X_MUL;
	    E xx = sg ? xSExt(x,2*n) : xZExt(x,2*n), yy = sg ? xSExt(y,2*n) : xZExt(y,2*n); E big = xBin(o,xx,yy), lo = xExtract(big,0,n); E back = sg ? xSExt(lo,2*n) : xZExt(lo,2*n);
	    r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(Val::ofE(lo)); r.agg->push_back(Val::ofE(xNot(xCmp(X_EQ,big,back)))); return true; }
	case Intrinsic::fabs: r = Val::ofE(xBin(X_AND,a[0].ex(),xConst(maskw(w-1),w))); return true;
	case Intrinsic::fmuladd: case Intrinsic::fma: r = Val::ofE(xFp(X_FADD,w,0,xFp(X_FMUL,w,0,a[0].ex(),a[1].ex()),a[2].ex())); return true;
	case Intrinsic::rint: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::nearbyint: case Intrinsic::trunc: { u64 b = C(s,a,0,"fp argument"); double v; if (w == 32) { float t; u32 q = b; memcpy(&t,&q,4); v = t; } else memcpy(&v,&b,8);
	    auto id = f->getIntrinsicID(); v = id == Intrinsic::sqrt ? sqrt(v) : id == Intrinsic::floor ? floor(v) : id == Intrinsic::ceil ? ceil(v) : id == Intrinsic::trunc ? trunc(v) : rint(v);
	    if (w == 32) { float t = v; u32 q; memcpy(&q,&t,4); r = Val(q,32); } else { memcpy(&b,&v,8); r = Val(b,64); } return true; }
	default: break;
    }
    incomplete(s, "unsupported intrinsic " + f->getName().str());
}
static bool step (State& s);
static void endPath (State& s)
{
    if (g_concrete) while (!g_atexit.empty()) { auto p = g_atexit.back(); g_atexit.pop_back(); auto it = g_fnAt.find(p.first); if (it == g_fnAt.end() || it->second->f->isDeclaration()) continue; vector<Val> av{Val(p.second,64)}; callFn(s,it->second,av,nullptr); while (step(s)) {} }
    if (s.df) fail(s, "abi", "the CPU direction flag is left set");
    if (s.mmx) fail(s, "abi", "MMX state is left active (no emms)");
    ++n_ok;
    if (g_logPaths) logLine("{\"t\":\"path\",\"inputs\":" + inputsJson(s,s.model) + ",\"obs\":" + obsJson(s,s.model) + ",\"steps\":" + std::to_string(s.steps) + ",\"nc\":" + std::to_string(s.cs.size()) + "}");
}
static inline u64 hwShift (u64 y, unsigned w) { return w == 32 || w == 64 ? y & (w-1) : y; }
static inline ExOp binop (unsigned o)
{
    switch (o) { case Instruction::Add: return X_ADD; case Instruction::Sub: return X_SUB; case Instruction::Mul: return X_MUL; case Instruction::UDiv: return X_UDIV; case Instruction::SDiv: return X_SDIV; case Instruction::URem: return X_UREM; case Instruction::SRem: return X_SREM;
	case Instruction::And: return X_AND; case Instruction::Or: return X_OR; case Instruction::Xor: return X_XOR; case Instruction::Shl: return X_SHL; case Instruction::LShr: return X_LSHR; case Instruction::AShr: return X_ASHR;
	case Instruction::FAdd: return X_FADD; case Instruction::FSub: return X_FSUB; case Instruction::FMul: return X_FMUL; case Instruction::FDiv: return X_FDIV; }
    return X_ADD;
}
static Val cmpVal (unsigned p, const Val& a, const Val& b)
{
    if (!a.e && !b.e) {
	u64 x = a.c, y = b.c; s64 sx = (s64) sextc(x,a.w), sy = (s64) sextc(y,a.w); bool r = false;
	switch (p) { case CmpInst::ICMP_EQ: r = x==y; break; case CmpInst::ICMP_NE: r = x!=y; break; case CmpInst::ICMP_UGT: r = x>y; break; case CmpInst::ICMP_UGE: r = x>=y; break; case CmpInst::ICMP_ULT: r = x<y; break; case CmpInst::ICMP_ULE: r = x<=y; break;
	    case CmpInst::ICMP_SGT: r = sx>sy; break; case CmpInst::ICMP_SGE: r = sx>=sy; break; case CmpInst::ICMP_SLT: r = sx<sy; break; case CmpInst::ICMP_SLE: r = sx<=sy; break; }
	return Val(r,1);
    }
    E x = a.ex(), y = b.ex(), r = nullptr;
    switch (p) { case CmpInst::ICMP_EQ: r = xCmp(X_EQ,x,y); break; case CmpInst::ICMP_NE: r = xNot(xCmp(X_EQ,x,y)); break; case CmpInst::ICMP_UGT: r = xCmp(X_ULT,y,x); break; case CmpInst::ICMP_UGE: r = xCmp(X_ULE,y,x); break; case CmpInst::ICMP_ULT: r = xCmp(X_ULT,x,y); break; case CmpInst::ICMP_ULE: r = xCmp(X_ULE,x,y); break;
	case CmpInst::ICMP_SGT: r = xCmp(X_SLT,y,x); break; case CmpInst::ICMP_SGE: r = xCmp(X_SLE,y,x); break; case CmpInst::ICMP_SLT: r = xCmp(X_SLT,x,y); break; case CmpInst::ICMP_SLE: r = xCmp(X_SLE,x,y); break; }
    return Val::ofE(r);
}
// Executes one instruction of s.  Returns false when the path is complete.
static bool step (State& s)
{
    Frame& f = s.st.back(); const DInst& d = f.fn->blks[f.blk].ins[f.pc];
    ++s.steps; ++n_steps;
    if (g_trace) { string t; raw_string_ostream os(t); d.I->print(os); fprintf(stderr, "[%s] %s\n", f.fn->name.c_str(), t.c_str()); }
    switch (d.opc) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
	    const Val &a = val(f,d.ops[0]), &b = val(f,d.ops[1]);
	    if (!a.e && !b.e && d.w <= 64 && !d.ty->isVectorTy()) {
		u64 x = a.c, y = b.c, r = 0; unsigned w = d.w;
		switch (d.opc) { case Instruction::Add: r = x+y; break; case Instruction::Sub: r = x-y; break; case Instruction::Mul: r = x*y; break; case Instruction::And: r = x&y; break; case Instruction::Or: r = x|y; break; case Instruction::Xor: r = x^y; break;
		    default:
			if (d.opc == Instruction::Shl || d.opc == Instruction::LShr || d.opc == Instruction::AShr) y = hwShift(y,w);
			if ((d.opc == Instruction::UDiv || d.opc == Instruction::SDiv || d.opc == Instruction::URem || d.opc == Instruction::SRem) && !y) fail(s,"divide","division by zero");
			if ((d.opc == Instruction::SDiv || d.opc == Instruction::SRem) && sextc(y,w) == -1 && x == (1ull << (w-1))) fail(s,"divide","signed division overflow");
			{ u128 t = 0; Expr ea, eb; (void) ea; (void) eb; t = xBin(binop(d.opc), xConst(x,w), xConst(y,w))->c; r = (u64) t; } }
		f.regs[d.dst] = Val(r,w); ++f.pc; return true;
	    }
	    E x = a.ex(), y = b.ex();
	    if (d.ty->isVectorTy()) { f.regs[d.dst] = Val::ofE(evec(s,binop(d.opc),false,x,y,cast<FixedVectorType>(d.ty)->getNumElements())); ++f.pc; return true; }
	    unsigned w = d.w;
	    if (d.opc == Instruction::UDiv || d.opc == Instruction::SDiv || d.opc == Instruction::URem || d.opc == Instruction::SRem) {
		if (decide(s, Val::ofE(xCmp(X_EQ,y,xConst(0,w))), "divisor")) fail(s,"divide","division by zero");
		if (d.opc == Instruction::SDiv || d.opc == Instruction::SRem)
		    if (decide(s, Val::ofE(xBin(X_AND,xCmp(X_EQ,y,xConst(~(u128)0,w)),xCmp(X_EQ,x,xConst((u128)1<<(w-1),w)))), "divisor")) fail(s,"divide","signed division overflow");
	    } else if (d.opc == Instruction::Shl || d.opc == Instruction::LShr || d.opc == Instruction::AShr) {
		if (w == 32 || w == 64) y = xBin(X_AND,y,xConst(w-1,w));	// as the x86 shift instructions do
	    }
	    Frame& g = s.st.back();
	    g.regs[d.dst] = Val::ofE(xBin(binop(d.opc),x,y)); ++g.pc; return true; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
	    E x = val(f,d.ops[0]).ex(), y = val(f,d.ops[1]).ex(); unsigned n = 1; if (auto* vt = dyn_cast<FixedVectorType>(d.ty)) n = vt->getNumElements();
	    E r = nullptr; unsigned ew = d.w/n; if (ew > 64) incomplete(s,"long double arithmetic");
	    for (unsigned i = 0; i < n; ++i) { E z = xFp(binop(d.opc),ew,0,xExtract(x,i*ew,ew),xExtract(y,i*ew,ew)); r = r ? xConcat(z,r) : z; }
	    f.regs[d.dst] = Val::ofE(r); ++f.pc; return true; }
	case Instruction::FNeg: { E x = val(f,d.ops[0]).ex(); f.regs[d.dst] = Val::ofE(xBin(X_XOR,x,xConst((u128)1<<(d.w-1),d.w))); ++f.pc; return true; }
	case Instruction::FRem: { u64 x = concretize(s,val(f,d.ops[0]),"fp"), y = concretize(s,val(f,d.ops[1]),"fp"); double p, q; if (d.w != 64) incomplete(s,"frem"); memcpy(&p,&x,8); memcpy(&q,&y,8); p = fmod(p,q); memcpy(&x,&p,8); f.regs[d.dst] = Val(x,64); ++f.pc; return true; }
	case Instruction::FCmp: { E x = val(f,d.ops[0]).ex(), y = val(f,d.ops[1]).ex(); if (x->w > 64 || d.ty->isVectorTy()) incomplete(s,"wide fcmp"); f.regs[d.dst] = Val::ofE(xFp(X_FCMP,1,d.aux,x,y)); ++f.pc; return true; }
	case Instruction::ICmp: { 
	    if (d.ty->isVectorTy()) incomplete(s,"vector icmp");
	    f.regs[d.dst] = cmpVal(d.aux, val(f,d.ops[0]), val(f,d.ops[1])); ++f.pc; return true; }
	case Instruction::Trunc: { const Val& a = val(f,d.ops[0]); f.regs[d.dst] = a.e ? Val::ofE(xExtract(a.e,0,d.w)) : Val(a.c,d.w); ++f.pc; return true; }
	case Instruction::ZExt: { const Val& a = val(f,d.ops[0]); f.regs[d.dst] = a.e || d.w > 64 ? Val::ofE(xZExt(a.ex(),d.w)) : Val(a.c,d.w); ++f.pc; return true; }
	case Instruction::SExt: { const Val& a = val(f,d.ops[0]); f.regs[d.dst] = a.e || d.w > 64 ? Val::ofE(xSExt(a.ex(),d.w)) : Val((u64)(s64) sextc(a.c,a.w),d.w); ++f.pc; return true; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val& a = val(f,d.ops[0]); f.regs[d.dst] = a.e ? Val::ofE(a.e->w > d.w ? xExtract(a.e,0,d.w) : xZExt(a.e,d.w)) : Val(a.c,d.w); ++f.pc; return true; }
	case Instruction::BitCast: case Instruction::Freeze: { f.regs[d.dst] = val(f,d.ops[0]); ++f.pc; return true; }
	case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
	    E x = val(f,d.ops[0]).ex(); if (d.w > 64 || x->w > 64 || d.ty->isVectorTy()) incomplete(s,"wide fp conversion");
	    ExOp o = d.opc == Instruction::SIToFP ? X_SITOFP : d.opc == Instruction::UIToFP ? X_UITOFP : d.opc == Instruction::FPToSI ? X_FPTOSI : d.opc == Instruction::FPToUI ? X_FPTOUI : X_FPCVT;
	    f.regs[d.dst] = Val::ofE(xFp(o,d.w,0,x)); ++f.pc; return true; }
	case Instruction::Select: {
	    const Val& c = val(f,d.ops[0]); const Val &a = val(f,d.ops[1]), &b = val(f,d.ops[2]);
	    if (!c.sym()) f.regs[d.dst] = (c.e ? (u64) c.e->c : c.c) & 1 ? a : b;
	    else if (a.agg || b.agg || d.ty->isPointerTy()) { bool t = decide(s,c,"selection"); Frame& g = s.st.back(); g.regs[d.dst] = t ? val(g,d.ops[1]) : val(g,d.ops[2]); ++g.pc; return true; }
	    else f.regs[d.dst] = Val::ofE(xIte(c.e,a.ex(),b.ex()));
	    ++f.pc; return true; }
	case Instruction::GetElementPtr: {
	    const Val& b = val(f,d.ops[0]); bool sym = b.e; for (auto& p : d.idx) if (val(f,p.first).e) sym = true;
	    if (!sym) { u64 r = b.c + d.off; for (auto& p : d.idx) { const Val& v = val(f,p.first); r += (u64)((s64) sextc(v.c,v.w) * p.second); } f.regs[d.dst] = Val(r,64); }
	    else { E r = b.ex(); r = xBin(X_ADD,r,xConst((u128)(s128) d.off,64)); for (auto& p : d.idx) { E v = val(f,p.first).ex(); v = v->w < 64 ? xSExt(v,64) : v; r = xBin(X_ADD,r,xBin(X_MUL,v,xConst((u128)(s128) p.second,64))); } f.regs[d.dst] = Val::ofE(r); }
	    ++f.pc; return true; }
	case Instruction::Load: { 
	    Val v = d.ty->isAggregateType() ? loadTyped(s, val(f,d.ops[0]), d.ty) : loadV(s, val(f,d.ops[0]), d.aux, d.w);
	    Frame& g = s.st.back(); g.regs[d.dst] = std::move(v); ++g.pc; return true; }
	case Instruction::Store: { Val v = val(f,d.ops[0]), a = val(f,d.ops[1]); if (v.agg) storeTyped(s,a,v,d.ty); else storeV(s,a,d.aux,v); ++s.st.back().pc; return true; }
	case Instruction::Alloca: { u64 n = concretize(s,val(f,d.ops[0]),"alloca size"); u64 b = allocObj(s, n * d.off, OK_STACK, d.aux, false, (d.I->hasName() ? d.I->getName().str() : string("local")) + " in " + f.fn->name); Frame& g = s.st.back(); g.allocas.push_back(b); g.regs[d.dst] = Val(b,64); ++g.pc; return true; }
	case Instruction::Br: { if (d.b1 < 0) { jump(s,d.b0); return true; } bool t = decide(s, val(f,d.ops[0]), "branch"); jump(s, t ? d.b0 : d.b1); return true; }
	case Instruction::Switch: {
	    const Val& v = val(f,d.ops[0]);
	    if (!v.sym()) { u64 c = v.e ? (u64) v.e->c : v.c; for (auto& p : d.cases) if (p.first.c == c) { jump(s,p.second); return true; } jump(s,d.b0); return true; }
	    for (auto& p : d.cases) if (decide(s, Val::ofE(xCmp(X_EQ,v.e,p.first.ex())), "switch")) { jump(s,p.second); return true; }
	    jump(s,d.b0); return true; }
	case Instruction::Ret: {
	    Val rv; if (!d.ops.empty()) rv = val(f,d.ops[0]);
	    const DInst* site = f.site; popFrame(s);
	    if (s.st.empty()) return false;
	    retTo(s, rv, site); return true; }
	case Instruction::Unreachable: fail(s,"unreachable","control reaches a point the language makes undefined (missing return or impossible branch)");
	case Instruction::Call: case Instruction::Invoke: {
	    vector<Val> a; a.reserve(d.ops.size()); for (auto& o : d.ops) a.push_back(val(f,o));
	    Val r;
	    if (d.as) { execAsm(s, d, a, r); retTo(s, r, &d); return true; }
	    Fn* fn = d.callee;
	    if (!fn) { u64 p = concretize(s, a.back(), "call target"); a.pop_back(); auto it = g_fnAt.find(p); if (it == g_fnAt.end()) fail(s,"memory","call through an invalid function pointer " + hex(p)); fn = resolveCallee(it->second->f); }
	    if (fn->f->isIntrinsic()) { intrinsic(s,d,fn->f,a,r); retTo(s,r,&d); return true; }
	    if (!fn->f->isDeclaration()) { callFn(s,fn,a,&d); return true; }
	    if (!fn->builtin) incomplete(s, "call to unmodelled external function " + fn->name);
	    if (g_bfn[fn->builtin](s,d,a,r)) retTo(s,r,&d);
	    return true; }
	case Instruction::Resume: { const Val& v = val(f,d.ops[0]); s.inflight = (*v.agg)[0].c; raiseExc(s); return true; }
	case Instruction::ExtractValue: { const Val* v = &val(f,d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) v = &(*v->agg)[i]; Val t = *v; f.regs[d.dst] = t; ++f.pc; return true; }
	case Instruction::InsertValue: { Val v = val(f,d.ops[0]); Val* p = &v; for (unsigned i : cast<InsertValueInst>(d.I)->indices()) { p->agg = std::make_shared<vector<Val>>(*p->agg); p = &(*p->agg)[i]; } *p = val(f,d.ops[1]); f.regs[d.dst] = v; ++f.pc; return true; }
	case Instruction::ExtractElement: { E x = val(f,d.ops[0]).ex(); u64 i = concretize(s,val(f,d.ops[1]),"index"); Frame& g = s.st.back(); g.regs[d.dst] = Val::ofE(xExtract(x,i*d.w,d.w)); ++g.pc; return true; }
	case Instruction::InsertElement: { E x = val(f,d.ops[0]).ex(), y = val(f,d.ops[1]).ex(); u64 i = concretize(s,val(f,d.ops[2]),"index"); unsigned ew = y->w, w = x->w; E r = y; if (i) r = xConcat(r,xExtract(x,0,i*ew)); if ((i+1)*ew < w) r = xConcat(xExtract(x,(i+1)*ew,w-(i+1)*ew),r); Frame& g = s.st.back(); g.regs[d.dst] = Val::ofE(r); ++g.pc; return true; }
	case Instruction::ShuffleVector: { E x = val(f,d.ops[0]).ex(), y = val(f,d.ops[1]).ex(); auto* sv = cast<ShuffleVectorInst>(d.I); unsigned ew = fpw(d.ty); E cat = xConcat(y,x), r = nullptr; for (int m : sv->getShuffleMask()) { E z = xExtract(cat,(m < 0 ? 0 : m)*ew,ew); r = r ? xConcat(z,r) : z; } f.regs[d.dst] = Val::ofE(r); ++f.pc; return true; }
	case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(d.I); Val p = val(f,d.ops[0]), v = val(f,d.ops[1]); unsigned n = bytesOf(d.ty); Val old = loadV(s,p,n,d.w); E x = old.ex(), y = v.ex(), z = nullptr;
	    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: z = y; break; case AtomicRMWInst::Add: z = xBin(X_ADD,x,y); break; case AtomicRMWInst::Sub: z = xBin(X_SUB,x,y); break; case AtomicRMWInst::And: z = xBin(X_AND,x,y); break; case AtomicRMWInst::Or: z = xBin(X_OR,x,y); break; case AtomicRMWInst::Xor: z = xBin(X_XOR,x,y); break; default: incomplete(s,"atomicrmw"); }
	    storeV(s,p,n,Val::ofE(z)); Frame& g = s.st.back(); g.regs[d.dst] = old; ++g.pc; return true; }
	case Instruction::AtomicCmpXchg: { Val p = val(f,d.ops[0]), c = val(f,d.ops[1]), v = val(f,d.ops[2]); Type* t = d.ops.size() ? cast<AtomicCmpXchgInst>(d.I)->getCompareOperand()->getType() : nullptr; unsigned n = bytesOf(t), w = bitsOf(t); Val old = loadV(s,p,n,w); bool eq = decide(s, cmpVal(CmpInst::ICMP_EQ,old,c), "compare-exchange"); if (eq) storeV(s,p,n,v);
	    Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val(eq,1)); Frame& g = s.st.back(); g.regs[d.dst] = r; ++g.pc; return true; }
	case Instruction::Fence: ++f.pc; return true;
	case Instruction::LandingPad: incomplete(s,"landingpad reached normally");
    }
    incomplete(s, string("unsupported instruction ") + d.I->getOpcodeName());
}
static bool token (bool take) { if (g_tokR < 0) return false; char c = 0; if (take) return read(g_tokR,&c,1) == 1; (void)!write(g_tokW,"t",1); return true; }
static int* g_procs;			// how many processes explore or wait for those that do, shared by them
static bool maybeSplit (void)		// true in the new process
{
    if (!g_procs) { g_procs = (int*) mmap (nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }
    if (__atomic_load_n (g_procs, __ATOMIC_RELAXED) > 40) return false;
    static u64 next = 0;		// asking costs a system call
    if (g_tokR < 0 || g_work.size() < 1 || n_steps + g_sst.solved*100000 < next) return false;
    next = n_steps + g_sst.solved*100000 + 400000;
    if (!token(true)) return false;
    pid_t p = fork();
    if (p < 0) { token(false); return false; }
    if (p) __atomic_add_fetch (g_procs, 1, __ATOMIC_RELAXED);
    if (p == 0) {
	g_isChild = true; g_kids.clear();
	State keep = std::move(g_work.front()); g_work.clear(); g_work.push_back(std::move(keep));
	next = 20000; n_paths = n_ok = n_steps = n_viol = n_incomplete = n_assumed = n_asserts = n_forks = n_branches = 0; g_reach.clear(); g_inc.clear(); g_sst = SolverStats();
	for (auto& f : g_fns) f->executed = false;
	return true;
    }
    g_kids.push_back(p); g_work.pop_front();
    return false;
}
static void emitStats (double wall)
{
    string r = "{\"t\":\"stat\",\"paths\":" + std::to_string(n_paths) + ",\"ok\":" + std::to_string(n_ok) + ",\"steps\":" + std::to_string(n_steps) + ",\"viol\":" + std::to_string(n_viol) + ",\"incomplete\":" + std::to_string(n_incomplete) + ",\"assumed\":" + std::to_string(n_assumed) + ",\"asserts\":" + std::to_string(n_asserts) + ",\"forks\":" + std::to_string(n_forks) + ",\"branches\":" + std::to_string(n_branches)
	+ ",\"queries\":" + std::to_string(g_sst.queries) + ",\"solved\":" + std::to_string(g_sst.solved) + ",\"sat\":" + std::to_string(g_sst.sat) + ",\"unsat\":" + std::to_string(g_sst.unsat) + ",\"unknown\":" + std::to_string(g_sst.unknown) + ",\"modelhits\":" + std::to_string(g_sst.modelHits) + ",\"cachehits\":" + std::to_string(g_sst.cacheHits) + ",\"solver_s\":" + std::to_string(g_sst.secs) + ",\"wall\":" + std::to_string(wall) + ",\"exprs\":" + std::to_string(xCount()) + ",\"reach\":{";
    bool first = true; for (auto& p : g_reach) { if (!first) r += ","; first = false; r += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
    r += "},\"fns\":["; first = true;
    for (auto& p : g_fns) if (p->executed) { if (!first) r += ","; first = false; r += "\"" + jesc(p->name) + "\""; }
    logLine(r + "]}");
}
static u64 residentMB (void) { unsigned long a = 0, b = 0; FILE* f = fopen("/proc/self/statm","r"); if (f) { if (fscanf(f,"%lu %lu",&a,&b) != 2) b = 0; fclose(f); } return b >> 8; }
static void explore (double t0)
{
    while (!g_work.empty()) {
	State s = std::move(g_work.back()); g_work.pop_back();
	++n_paths;
	try {
	    u64 k = 0;
	    while (step(s)) {
		if (!(++k & 255) && !g_work.empty() && maybeSplit()) throw Killed();
		if (!(k & 4095) && now() > g_deadline) { g_work.push_back(std::move(s)); ++n_incomplete; logLine("{\"t\":\"inc\",\"why\":\"time limit\",\"left\":" + std::to_string(g_work.size()) + ",\"stack\":\"" + jesc(where(g_work.back())) + "\",\"inputs\":" + inputsJson(g_work.back(),g_work.back().model) + "}"); g_work.clear(); return; }
		if (!(k & 65535) && residentMB() > 3000) { g_work.clear(); ++n_incomplete; logLine("{\"t\":\"inc\",\"why\":\"memory limit\",\"stack\":\"" + jesc(where(s)) + "\",\"inputs\":" + inputsJson(s,s.model) + "}"); return; }
		if (s.steps > g_maxSteps) { violation(s, "hang", "no end after " + std::to_string(g_maxSteps) + " instructions", s.model); throw Killed(); }
	    }
	    endPath(s);
	} catch (Killed&) {}
	if (now() > g_deadline && !g_work.empty()) { ++n_incomplete; logLine("{\"t\":\"inc\",\"why\":\"time limit\",\"left\":" + std::to_string(g_work.size()) + "}"); g_work.clear(); return; }
	if (n_viol > 200) { if (!g_work.empty()) { ++n_incomplete; logLine("{\"t\":\"inc\",\"why\":\"too many violations\",\"left\":" + std::to_string(g_work.size()) + "}"); } g_work.clear(); return; }
	if (!g_work.empty()) maybeSplit();
    }
}
int main (int argc, char** argv)
{
    string bc, entry = "harness", log; u64 arg = 0; double tl = 600; bool hasArg = false; int fatalRc = 0;
    for (int i = 1; i < argc; ++i) { string a = argv[i]; auto is = [&](const char* p){ return a.rfind(p,0) == 0; }; string v = a.find('=') != string::npos ? a.substr(a.find('=')+1) : "";
	if (is("--entry=")) entry = v; else if (is("--arg=")) { arg = strtoull(v.c_str(),0,0); hasArg = true; } else if (is("--log=")) log = v; else if (is("--time=")) tl = atof(v.c_str());
	else if (is("--deadline=")) g_deadline = atof(v.c_str()); else if (is("--max-steps=")) g_maxSteps = strtoull(v.c_str(),0,0); else if (is("--tokens=")) { sscanf(v.c_str(), "%d,%d", &g_tokR, &g_tokW); } else if (is("--query-ms=")) g_queryTimeoutMs = atoi(v.c_str());
	else if (is("--trace")) g_trace = 1; else if (is("--no-paths")) g_logPaths = false; else if (is("--concrete=")) { g_concrete = true; const char* p = v.c_str(); while (*p) { char* e; g_concIn.push_back(strtoull(p,&e,0)); p = *e == ',' ? e+1 : e; if (e == p && *p) break; } } else if (is("--concrete")) g_concrete = true;
	else bc = a; }
    mallopt(M_TRIM_THRESHOLD, 1<<30); mallopt(M_MMAP_THRESHOLD, 1<<28); mallopt(M_TOP_PAD, 64<<20);
    double t0 = now(); if (!g_deadline) g_deadline = t0 + tl;
    if (!log.empty()) { g_logFd = open(log.c_str(), O_WRONLY|O_APPEND|O_CREAT, 0644); if (g_logFd < 0) { perror(log.c_str()); return 3; } }
    LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(bc, err, ctx); if (!M) { err.print("symx", errs()); return 3; }
    g_mod = M.get(); DL = &M->getDataLayout();
    initBuiltins();
    State s; s.model = std::make_shared<Model>();
    // functions and globals
    for (auto& f : *M) fnFor(&f);
    u64 slot = 16;
    vector<GlobalVariable*> gv; 
    for (auto& g : M->globals()) {
	Obj* o = new Obj; string n = g.getName().str(); u64 sz; bool ext = g.isDeclaration();
	sz = ext && n.rfind("_ZTI",0) == 0 ? 32 : ext && n.rfind("_ZTV",0) == 0 ? 128 : g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
	if (ext && n == "__dso_handle") sz = 8;
	unsigned al = g.getAlign() ? (unsigned) g.getAlign()->value() : 16; if (al < 16) al = 16;
	o->kind = OK_GLOBAL; o->name = n; o->init(sz, true); o->base = (slot << SHIFT) + (al > 64 ? al : 64); o->ro = g.isConstant();
	g_globIdx.push_back({slot, (int) s.globals.size()}); s.globals.push_back(ObjRef(o)); g_gaddr[&g] = o->base; slot = ((o->base + sz) >> SHIFT) + 1;
	if (n.rfind("_ZTI",0) == 0) { g_tiName[o->base] = n.substr(4); g_tiByName[n.substr(4)] = o->base; }
	if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") g_vtSi = o->base; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") g_vtVmi = o->base; if (n == "_ZTVN10__cxxabiv117__class_type_infoE") g_vtClass = o->base;
    }
    auto extraObj = [&](const string& n, const string& data, bool ro) { Obj* o = new Obj; o->kind = OK_HOST; o->name = n; o->init(data.size(), true); o->base = (slot << SHIFT) + 64; o->ro = ro; memcpy(o->d.data(), data.data(), data.size()); g_globIdx.push_back({slot,(int) s.globals.size()}); s.globals.push_back(ObjRef(o)); ++slot; return o->base; };
    g_errno = extraObj("errno", string(4,'\0'), false);
    for (int i = 0; i <= 140; ++i) g_strerr.push_back(extraObj("strerror text", string(strerror(i)) + string(1,'\0'), true));
    int gi = 0;
    for (auto& g : M->globals()) { Obj* o = s.globals[gi++].p;
	if (g.hasInitializer()) writeInit(o, 0, g.getInitializer());
	else { string n = g.getName().str(); if (n.rfind("_ZTI",0) == 0) { u64 na = extraObj(n + " name", n.substr(4) + string(1,'\0'), true); memcpy(&o->d[8], &na, 8); }
	    if (n == "stdout" || n == "stderr" || n == "stdin") {} } }
    g_firstDynSlot = slot; s.nextSlot = slot;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
	auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()); vector<pair<u64,Function*>> v;
	if (ca) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
	std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b){ return a.first < b.first; });
	for (auto& p : v) if (p.second) { vector<Val> no; callFn(s, fnFor(p.second), no, nullptr); try { while (step(s)) {} } catch (Killed&) { logLine("{\"t\":\"inc\",\"why\":\"global constructor failed\"}"); return 3; } }
    }
    Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
    { vector<Val> av; if (hasArg || ef->arg_size()) av.push_back(Val(arg, bitsOf(ef->getArg(0)->getType()))); if (ef->arg_size() > 1) { u64 p = 0; av.push_back(Val(p,64)); } callFn(s, fnFor(ef), av, nullptr); }
    s.steps = 0; n_steps = 0; s.liveHeap = s.allocCount = 0;
    g_work.push_back(std::move(s));
    explore(t0);
    emitStats(now() - t0);
    token(false);
    for (pid_t k : g_kids) { int st = 0; waitpid(k,&st,0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { logLine("{\"t\":\"inc\",\"why\":\"engine process died\"}"); if (!WIFEXITED(st)) token(false); fatalRc = 3; } }
    if (g_procs && g_isChild) __atomic_sub_fetch (g_procs, 1, __ATOMIC_RELAXED);
    fflush(0); _exit(fatalRc);
}
