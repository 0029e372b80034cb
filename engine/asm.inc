// A small AT&T-syntax x86-64 interpreter for the inline assembly of the code under test.
// General registers are 64-bit values, mm0-7 64-bit, xmm0-15 128-bit.
struct AsmM {
    State& s; const DInst& d; AsmInfo& ai; vector<Val>& args;
    std::map<string,E> regs; vector<string> loc;	// location of each operand
    AsmM (State& st, const DInst& di, vector<Val>& a) : s(st), d(di), ai(*di.as), args(a) {}
    [[noreturn]] void bad (const string& w) { incomplete(s, "unsupported inline assembly: " + w); }
    E reg (const string& r, unsigned w) { auto& e = regs[r]; if (!e) e = xUninit(s, "uninit:reg " + r, w); return e; }
    static unsigned regw (const string& r) { return r.rfind("xmm",0) == 0 ? 128 : 64; }
    struct O { enum { IMM, REG, MEM } k; string r; u64 a = 0; unsigned bits = 0; u128 imm = 0; int opn = -1; };
    static bool gpr (string n, string& canon, unsigned& bits)
    {
	static const char* b[] = {"ax","bx","cx","dx","si","di","bp","sp"};
	for (auto x : b) { string t = x; if (n == "r" + t) { canon = t; bits = 64; return true; } if (n == "e" + t) { canon = t; bits = 32; return true; } if (n == t) { canon = t; bits = 16; return true; } if (t[1] == 'x' && n == string(1,t[0]) + "l") { canon = t; bits = 8; return true; } }
	return false;
    }
    O opnd (string t)
    {
	O o; while (!t.empty() && isspace(t.back())) t.pop_back(); size_t i = 0; while (i < t.size() && isspace(t[i])) ++i; t = t.substr(i);
	if (t.rfind("$$",0) == 0) { o.k = O::IMM; o.imm = (u128)(s128) strtoll(t.c_str()+2,0,0); return o; }
	if (t[0] == '%') { string n = t.substr(1); o.k = O::REG; if (n.rfind("mm",0) == 0) { o.r = n; o.bits = 64; return o; } if (n.rfind("xmm",0) == 0) { o.r = n; o.bits = 128; return o; } string c; unsigned b; if (!gpr(n,c,b)) bad(t); o.r = c; o.bits = b; return o; }
	if (t[0] == '$') {
	    char mod = 0; unsigned n; if (t[1] == '{') { n = atoi(t.c_str()+2); size_t c = t.find(':'); if (c != string::npos) mod = t[c+1]; } else n = atoi(t.c_str()+1);
	    if (n >= ai.ops.size()) bad(t); AsmOpnd& p = ai.ops[n]; o.opn = n;
	    if (p.mem) { o.k = O::MEM; o.a = concretize(s, args[p.arg], "asm address"); o.bits = p.msize*8; return o; }
	    o.k = O::REG; o.r = loc[n]; o.bits = p.bits;
	    if (mod == 'k') o.bits = 32; else if (mod == 'q') o.bits = 64; else if (mod == 'w') o.bits = 16; else if (mod == 'b') o.bits = 8;
	    return o; }
	bad("operand " + t);
    }
    E get (const O& o, unsigned bits)
    {
	if (o.k == O::IMM) return xConst(o.imm, bits);
	if (o.k == O::MEM) return loadAt(s, o.a, bits/8, bits).ex();
	E e = reg(o.r, regw(o.r)); return e->w > bits ? xExtract(e,0,bits) : e->w < bits ? xZExt(e,bits) : e;
    }
    void put (const O& o, E v, unsigned bits)
    {
	if (o.k == O::MEM) { if (o.opn >= 0 && !ai.ops[o.opn].out && !ai.memClob) fail(s,"asm","asm writes to an input operand"); storeAt(s, o.a, bits/8, Val::ofE(v)); return; }
	if (o.k != O::REG) bad("store to immediate");
	unsigned rw = regw(o.r);
	if (rw == 64 && bits == 32) v = xZExt(v,64);
	else if (v->w < rw) { E old = reg(o.r,rw); v = xConcat(xExtract(old,v->w,rw-v->w),v); }
	setr(o.r, v);
    }
    // Every register changed must be declared: an output, an input tied to one, or clobbered
    void setr (const string& r, E v) { declared(r); regs[r] = v; }
    void declared (const string& r)
    {
	for (unsigned i = 0; i < ai.ops.size(); ++i) if (loc[i] == r && (ai.ops[i].out || ai.ops[i].tied >= 0)) return;
	for (auto& c : ai.clob) { string k; unsigned b; if (c == r || (gpr(c,k,b) && k == r)) return; }
	if (r.rfind("mm",0) == 0) for (auto& c : ai.clob) if (c.rfind("st",0) == 0) return;
	fail(s,"asm",r.rfind("op",0) == 0 ? "asm changes an input operand" : "asm changes " + r + ", which it does not declare");
    }
    E lanes (E a, E b, unsigned ew, std::function<E(E,E)> fn) { E r = nullptr; for (unsigned i = 0; i < a->w; i += ew) { E z = fn(xExtract(a,i,ew),xExtract(b,i,ew)); r = r ? xConcat(z,r) : z; } return r; }
    void movs (unsigned n)
    {
	u64 cnt = concretize(s, Val::ofE(reg("cx",64)), "rep count"); u64 si = (u64) concretize(s, Val::ofE(reg("si",64)), "asm pointer"), di = (u64) concretize(s, Val::ofE(reg("di",64)), "asm pointer");
	if (cnt > (1u<<24)) fail(s,"memory","rep movs with an absurd count");
	s64 st = s.df ? -(s64) n : (s64) n;
	for (u64 i = 0; i < cnt; ++i, si += st, di += st) {
	    ObjRef keep = access(s,si,n,false); Obj* q = writable(access(s,di,n,true)); Obj* p = findObj(s,si)->p;
	    // byte-wise copy keeping initialisation state
	    BigByte t[8]; for (unsigned j = 0; j < n; ++j) { u64 o = si - p->base + j; t[j].f = p->flag(o); t[j].e = nullptr; t[j].v = 0; if (p->big) { auto it = p->bm.find(o); if (it != p->bm.end()) t[j] = it->second; } else { t[j].v = p->d[o]; if (t[j].f == B_SYM) t[j].e = p->s[o]; } }
	    for (unsigned j = 0; j < n; ++j) { u64 o = di - q->base + j; if (t[j].f == B_UNINIT) { if (q->big) q->bm.erase(o); else { q->fix(); q->f[o] = B_UNINIT; } } else writeByteE(q, o, t[j].f == B_SYM ? t[j].e : xConst(t[j].v,8)); }
	}
	setr("si",xConst(si,64)); setr("di",xConst(di,64)); setr("cx",xConst(0,64));
    }
    void stos (unsigned n)
    {
	u64 cnt = concretize(s, Val::ofE(reg("cx",64)), "rep count"); u64 di = (u64) concretize(s, Val::ofE(reg("di",64)), "asm pointer");
	E v = xExtract(reg("ax",64),0,n*8); s64 st = s.df ? -(s64) n : (s64) n;
	if (cnt > (1u<<24)) fail(s,"memory","rep stos with an absurd count");
	for (u64 i = 0; i < cnt; ++i, di += st) storeAt(s, di, n, Val::ofE(v));
	setr("di",xConst(di,64)); setr("cx",xConst(0,64));
    }
    static unsigned sfx (char c) { return c == 'b' ? 8 : c == 'w' ? 16 : c == 'l' ? 32 : c == 'q' ? 64 : 0; }
    void one (string m, vector<string> t, bool& rep)
    {
	vector<O> o; for (auto& x : t) o.push_back(opnd(x));
	auto vec = [&](unsigned i){ return o[i].k == O::REG && (o[i].r.rfind("mm",0) == 0 || o[i].r.rfind("xmm",0) == 0); };
	bool mmx = false; for (unsigned i = 0; i < o.size(); ++i) if (o[i].k == O::REG && o[i].r.rfind("mm",0) == 0) mmx = true; if (mmx) s.mmx = true;
	if (m == "rep" || m == "repz") { rep = true; return; }
	if (m.rfind("movs",0) == 0 && m.size() == 5 && o.empty() && rep) { rep = false; movs(sfx(m[4])/8); return; }
	if (m.rfind("stos",0) == 0 && m.size() == 5 && o.empty() && rep) { rep = false; stos(sfx(m[4])/8); return; }
	if (m == "cld") { s.df = false; return; }
	if (m == "std") { s.df = true; return; }
	if (m == "emms" || m == "femms") { s.mmx = false; return; }
	if (m == "sfence" || m == "lfence" || m == "mfence" || m.rfind("prefetch",0) == 0 || m == "nop") return;
	unsigned sb = 0; string bm = m;
	if (m == "bsrl" || m == "bsrq" || m == "bsrw") { sb = sfx(m[3]); bm = "bsr"; }
	if (bm == "bsr" || bm == "bsf") { if (!sb) sb = o[1].k == O::REG ? o[1].bits : o[0].bits; if (sb < 16) sb = 32;
	    E x = get(o[0],sb), r = xConst(0,sb); bool fwd = bm == "bsr"; E z = xCmp(X_EQ,x,xConst(0,sb));
	    if (fwd) for (unsigned i = 0; i < sb; ++i) r = xIte(xExtract(x,i,1),xConst(i,sb),r); else for (unsigned i = sb; i--;) r = xIte(xExtract(x,i,1),xConst(i,sb),r);
	    if (o[1].k != O::REG) bad("bsr to memory");
	    if (decide(s,Val::ofE(z),"bsr of zero")) return;
	    if (fwd && !isC(x)) { unsigned lo = 0, hi = sb; while (hi - lo > 1) { unsigned mid = (lo+hi)/2; if (decide(s,Val::ofE(xCmp(X_EQ,xExtract(x,mid,sb-mid),xConst(0,sb-mid))),"bsr")) hi = mid; else lo = mid; } r = xConst(lo,sb); }	// the callers divide by it: split here
	    setr(o[1].r,xZExt(r,64)); return; }
	auto base = [&](const char* n) -> bool { if (m == n) { sb = o.back().k == O::IMM ? 32 : o.back().bits; return true; } if (m.size() == strlen(n)+1 && m.rfind(n,0) == 0 && sfx(m.back())) { sb = sfx(m.back()); return true; } return false; };
	if (o.size() == 2 && (m == "movq" || m == "movd") && (vec(0) || vec(1))) { unsigned b = m == "movd" ? 32 : 64; E v = get(o[0],b); if (o[1].k == O::REG && vec(1)) setr(o[1].r,xZExt(v,regw(o[1].r))); else put(o[1],v,b); return; }
	if (m == "movntq") { put(o[1],get(o[0],64),64); return; }
	if (m == "movaps" || m == "movups" || m == "movntps" || m == "movdqa" || m == "movdqu" || m == "movntdq") {
	    bool al = m == "movaps" || m == "movntps" || m == "movdqa" || m == "movntdq";
	    for (auto& x : o) if (al && x.k == O::MEM && (x.a & 15)) fail(s,"memory","misaligned " + m + " (general protection fault)");
	    put(o[1],get(o[0],128),128); return; }
	if (m == "movss") { E v = get(o[0],32); if (o[0].k == O::MEM) setr(o[1].r,xZExt(v,128)); else put(o[1],v,32); return; }
	if (m == "xorps" || m == "pxor" || m == "por" || m == "pand" || m == "pandn" || m == "andps" || m == "orps") { unsigned w = regw(o[1].r); if (o[0].k == O::REG && o[0].r == o[1].r && (m == "xorps" || m == "pxor")) { setr(o[1].r,xConst(0,w)); return; }
	    E x = get(o[0],w), y = get(o[1],w); ExOp op = m == "xorps" || m == "pxor" ? X_XOR : m == "por" || m == "orps" ? X_OR : X_AND; if (m == "pandn") y = xBin(X_XOR,y,xConst(~(u128)0,w)); put(o[1],xBin(op,y,x),w); return; }
	if (m == "punpcklbw" || m == "punpcklwd" || m == "punpckldq") { unsigned ew = m == "punpcklbw" ? 8 : m == "punpcklwd" ? 16 : 32, w = regw(o[1].r); E x = get(o[0],w), y = get(o[1],w), r = nullptr; for (unsigned i = 0; i < w/2; i += ew) { E a = xExtract(y,i,ew), b = xExtract(x,i,ew); r = r ? xConcat(xConcat(b,a),r) : xConcat(b,a); } put(o[1],r,w); return; }
	if (m == "pshufw") { unsigned im = (unsigned) o[0].imm; E x = get(o[1],64), r = nullptr; for (unsigned i = 0; i < 4; ++i) { E z = xExtract(x,((im>>(2*i))&3)*16,16); r = r ? xConcat(z,r) : z; } put(o[2],r,64); return; }
	if (m == "pshufd") { unsigned im = (unsigned) o[0].imm; E x = get(o[1],128), r = nullptr; for (unsigned i = 0; i < 4; ++i) { E z = xExtract(x,((im>>(2*i))&3)*32,32); r = r ? xConcat(z,r) : z; } put(o[2],r,128); return; }
	if (m == "shufps") { unsigned im = (unsigned) o[0].imm; E x = get(o[1],128), y = get(o[2],128), r = nullptr; for (unsigned i = 0; i < 4; ++i) { E z = xExtract(i < 2 ? y : x,((im>>(2*i))&3)*32,32); r = r ? xConcat(z,r) : z; } put(o[2],r,128); return; }
	if (m == "unpcklps" || m == "unpckhps") { E x = get(o[0],128), y = get(o[1],128); unsigned k = m == "unpcklps" ? 0 : 64; E r = xConcat(xConcat(xExtract(x,k+32,32),xExtract(y,k+32,32)),xConcat(xExtract(x,k,32),xExtract(y,k,32))); put(o[1],r,128); return; }
	if (m == "movhlps") { E x = get(o[0],128), y = get(o[1],128); put(o[1],xConcat(xExtract(y,64,64),xExtract(x,64,64)),128); return; }
	if (m == "movlhps") { E x = get(o[0],128), y = get(o[1],128); put(o[1],xConcat(xExtract(x,0,64),xExtract(y,0,64)),128); return; }
	if (m == "movlps" || m == "movhps") { unsigned k = m == "movlps" ? 0 : 64; if (vec(1)) { E x = get(o[0],64), y = get(o[1],128); put(o[1], k ? xConcat(x,xExtract(y,0,64)) : xConcat(xExtract(y,64,64),x),128); } else put(o[1],xExtract(get(o[0],128),k,64),64); return; }
	if (m.size() == 5 && (m.substr(0,4) == "padd" || m.substr(0,4) == "psub") ) { unsigned w = regw(o[1].r), ew = m[4] == 'b' ? 8 : m[4] == 'w' ? 16 : m[4] == 'd' ? 32 : 64; E x = get(o[0],w), y = get(o[1],w); ExOp op = m[1] == 'a' ? X_ADD : X_SUB; put(o[1],lanes(y,x,ew,[&](E a, E b){ return xBin(op,a,b); }),w); return; }
	static const char* psat[] = {"paddsb","paddsw","psubsb","psubsw","paddusb","paddusw","psubusb","psubusw"};
	for (auto n : psat) if (m == n) { unsigned w = regw(o[1].r), ew = m.back() == 'b' ? 8 : 16; bool us = m[4] == 'u', add = m[1] == 'a'; E x = get(o[0],w), y = get(o[1],w);
	    put(o[1],lanes(y,x,ew,[&](E a, E b){ unsigned W = ew+2; E A = us ? xZExt(a,W) : xSExt(a,W), B = us ? xZExt(b,W) : xSExt(b,W); E r = xBin(add ? X_ADD : X_SUB,A,B); u128 hi = us ? maskw(ew) : maskw(ew-1); u128 lo = us ? 0 : ~maskw(ew-1);
		r = xIte(xCmp(X_SLT,xConst(hi,W),r),xConst(hi,W),xIte(xCmp(X_SLT,r,xConst(lo,W)),xConst(lo,W),r)); return xExtract(r,0,ew); }),w); return; }
	if (m.rfind("pcmpeq",0) == 0 || m.rfind("pcmpgt",0) == 0) { unsigned w = regw(o[1].r), ew = m[6] == 'b' ? 8 : m[6] == 'w' ? 16 : 32; E x = get(o[0],w), y = get(o[1],w); bool eq = m[4] == 'e'; put(o[1],lanes(y,x,ew,[&](E a, E b){ E c = eq ? xCmp(X_EQ,a,b) : xCmp(X_SLT,b,a); return xIte(c,xConst(~(u128)0,ew),xConst(0,ew)); }),w); return; }
	if (m == "pminub" || m == "pmaxub" || m == "pminsw" || m == "pmaxsw") { unsigned w = regw(o[1].r), ew = m.back() == 'b' ? 8 : 16; bool mn = m[2] == 'i', us = m[4] == 'u'; E x = get(o[0],w), y = get(o[1],w); put(o[1],lanes(y,x,ew,[&](E a, E b){ E lt = xCmp(us ? X_ULT : X_SLT,a,b); return mn ? xIte(lt,a,b) : xIte(lt,b,a); }),w); return; }
	if (m == "pavgb" || m == "pavgw") { unsigned w = regw(o[1].r), ew = m.back() == 'b' ? 8 : 16; E x = get(o[0],w), y = get(o[1],w); put(o[1],lanes(y,x,ew,[&](E a, E b){ return xExtract(xBin(X_ADD,xBin(X_ADD,xZExt(a,ew+2),xZExt(b,ew+2)),xConst(1,ew+2)),1,ew); }),w); return; }
	auto f2i = [&](E f){ E inr = xBin(X_AND,xNot(xFp(X_FCMP,1,CmpInst::FCMP_UGE,f,xConst(0x4F000000,32))),xFp(X_FCMP,1,CmpInst::FCMP_OGE,f,xConst(0xCF000000,32))); return xIte(inr,xFp(X_FPTOSI,32,1,f),xConst(0x80000000u,32)); };
	if (m == "cvtps2pi") { E x = get(o[0],64); put(o[1],xConcat(f2i(xExtract(x,32,32)),f2i(xExtract(x,0,32))),64); return; }
	if (m == "cvtss2si") { put(o[1],f2i(get(o[0],32)),32); return; }
	if (m == "cvtpi2ps") { E x = get(o[0],64), y = get(o[1],128); put(o[1],xConcat(xExtract(y,64,64),xConcat(xFp(X_SITOFP,32,0,xExtract(x,32,32)),xFp(X_SITOFP,32,0,xExtract(x,0,32)))),128); return; }
	if (m == "pmullw") { unsigned w = regw(o[1].r); E x = get(o[0],w), y = get(o[1],w); put(o[1],lanes(y,x,16,[&](E a, E b){ return xBin(X_MUL,a,b); }),w); return; }
	if (m.size() == 5 && m.substr(3) == "ps" ) { ExOp op = m == "addps" ? X_FADD : m == "subps" ? X_FSUB : m == "mulps" ? X_FMUL : m == "divps" ? X_FDIV : X_CONST; if (op != X_CONST) { E x = get(o[0],128), y = get(o[1],128); put(o[1],lanes(y,x,32,[&](E a, E b){ return xFp(op,32,0,a,b); }),128); return; }
	    if (m == "minps" || m == "maxps") { E x = get(o[0],128), y = get(o[1],128); put(o[1],lanes(y,x,32,[&](E a, E b){ return xIte(xFp(X_FCMP,1,m == "minps" ? 4 : 2,a,b),a,b); }),128); return; } }
	if (m.size() == 5 && m.substr(3) == "ss") { ExOp op = m == "addss" ? X_FADD : m == "subss" ? X_FSUB : m == "mulss" ? X_FMUL : m == "divss" ? X_FDIV : X_CONST; if (op != X_CONST) { E x = get(o[0],32), y = get(o[1],32); put(o[1],xFp(op,32,0,y,x),32); return; } }
	if (base("xchg")) { E x = get(o[0],sb), y = get(o[1],sb); put(o[0],y,sb); put(o[1],x,sb); return; }
	if (base("mov")) { put(o[1],get(o[0],sb),sb); return; }
	for (auto& p : {std::make_pair("add",X_ADD),std::make_pair("sub",X_SUB),std::make_pair("and",X_AND),std::make_pair("or",X_OR),std::make_pair("xor",X_XOR)}) if (base(p.first)) { put(o[1],xBin(p.second,get(o[1],sb),get(o[0],sb)),sb); return; }
	if (base("inc") || base("dec")) { put(o[0],xBin(m[0] == 'i' ? X_ADD : X_SUB,get(o[0],sb),xConst(1,sb)),sb); return; }
	if (base("neg")) { put(o[0],xBin(X_SUB,xConst(0,sb),get(o[0],sb)),sb); return; }
	if (base("not")) { put(o[0],xBin(X_XOR,get(o[0],sb),xConst(~(u128)0,sb)),sb); return; }
	if (base("bswap")) { E x = get(o[0],sb), z = nullptr; for (unsigned i = 0; i < sb; i += 8) { E b = xExtract(x,i,8); z = z ? xConcat(z,b) : b; } put(o[0],z,sb); return; }
	if (base("div")) { if (sb != 32) bad(m); E dv = get(o[0],32); if (decide(s,Val::ofE(xCmp(X_EQ,dv,xConst(0,32))),"divisor")) fail(s,"divide","division by zero in asm");
	    E n = xConcat(xExtract(reg("dx",64),0,32),xExtract(reg("ax",64),0,32)), D = xZExt(dv,64); E q = xBin(X_UDIV,n,D), r = xBin(X_UREM,n,D);
	    if (decide(s,Val::ofE(xNot(xCmp(X_EQ,xExtract(q,32,32),xConst(0,32)))),"quotient")) fail(s,"divide","divide overflow in asm");
	    setr("ax",xZExt(xExtract(q,0,32),64)); setr("dx",xZExt(xExtract(r,0,32),64)); return; }
	bad(m);
    }
    void run (Val& ret)
    {
	unsigned n = 0;
	for (auto& p : ai.ops) { string c; unsigned b; string l;
	    if (p.tied >= 0) l = loc[p.tied]; else if (!p.reg.empty()) { l = p.reg; if (gpr(p.reg,c,b)) l = c; } else l = "op" + std::to_string(n);
	    loc.push_back(l); ++n; }
	for (unsigned i = 0; i < ai.ops.size(); ++i) { auto& p = ai.ops[i]; if (p.arg >= 0 && !p.mem) { E e = args[p.arg].ex(); regs[loc[i]] = e->w >= 64 ? e : e->w == 32 || isC(e) ? xZExt(e,64) : xConcat(xUninit(s,"uninit:upper register half",64-e->w),e); } }
	string txt = ai.text; bool rep = false; size_t p = 0;
	while (p <= txt.size()) {
	    size_t q = txt.find_first_of("\n;", p); if (q == string::npos) q = txt.size();
	    string l = txt.substr(p, q-p); p = q + 1;
	    size_t a = l.find_first_not_of(" \t"); if (a == string::npos) continue;
	    size_t b = l.find_first_of(" \t", a); string m = l.substr(a, b == string::npos ? string::npos : b - a); vector<string> t;
	    if (b != string::npos) { string rest = l.substr(b), cur; int br = 0; for (char c : rest) { if (c == '{' || c == '(') ++br; if (c == '}' || c == ')') --br; if (c == ',' && !br) { t.push_back(cur); cur.clear(); } else cur += c; } if (cur.find_first_not_of(" \t") != string::npos) t.push_back(cur); }
	    one(m, t, rep);
	}
	vector<Val> outs;
	for (unsigned i = 0; i < ai.ops.size(); ++i) if (ai.ops[i].outIdx >= 0) { E e = reg(loc[i],64); unsigned b = ai.ops[i].bits; outs.push_back(Val::ofE(e->w > b ? xExtract(e,0,b) : xZExt(e,b))); }
	if (outs.size() == 1 && !d.ty->isStructTy()) ret = outs[0]; else if (!outs.empty()) { ret.agg = std::make_shared<vector<Val>>(outs); }
    }
};
// Pieces of one register computation are often split over several asm statements (mm0, xmm0), so those persist in the state.
static void execAsm (State& s, const DInst& d, vector<Val>& a, Val& r)
{
    AsmM m(s, d, a);
    for (int i = 0; i < 8; ++i) { if (s.asmRegs[i].e || s.asmRegs[i].w) m.regs["mm" + std::to_string(i)] = s.asmRegs[i].ex(); if (s.asmRegs[8+i].e || s.asmRegs[8+i].w) m.regs["xmm" + std::to_string(i)] = s.asmRegs[8+i].ex(); }
    bool had = s.mmx; (void) had;
    m.run(r);
    for (int i = 0; i < 8; ++i) { auto it = m.regs.find("mm" + std::to_string(i)); if (it != m.regs.end()) s.asmRegs[i] = Val::ofE(it->second); it = m.regs.find("xmm" + std::to_string(i)); if (it != m.regs.end()) s.asmRegs[8+i] = Val::ofE(it->second); }
}
