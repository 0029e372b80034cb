#include "solver.h"
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
using std::vector;
SolverStats g_sst; unsigned g_queryTimeoutMs = 60000; std::string g_dumpDir;
struct CacheEnt { Sat r; vector<std::pair<u32,u64>> m; };
struct KeyH { size_t operator()(const vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<vector<u32>,CacheEnt,KeyH> g_cache;
static Z3_solver g_fast, g_slow, g_fp;
static Sat run (const vector<E>& cs, vector<std::pair<u32,u64>>& mout, const VarSet& vs)
{
    Z3_context c = z3ctx();
    if (!g_fast) {
	g_fast = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, g_fast);
	g_slow = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, g_slow);
	g_fp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BVFP")); Z3_solver_inc_ref(c, g_fp);
    }
    auto t0 = std::chrono::steady_clock::now();
    Sat res = UNKNOWN;
    for (int pass = 0; pass < 3 && res == UNKNOWN; ++pass) {
	Z3_solver s = pass == 1 ? (g_fpUsed ? g_fp : g_slow) : g_fast;
	Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c,p);
	Z3_params_set_uint(c, p, Z3_mk_string_symbol(c,"timeout"), pass == 0 ? 2000 : g_queryTimeoutMs);
	Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c,p);
	Z3_solver_reset(c, s);
	for (E e : cs) Z3_solver_assert(c, s, Z3_mk_eq(c, xZ3(e), Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1))));
	Z3_lbool r = Z3_solver_check(c, s);
	if (r == Z3_L_FALSE) res = UNSAT;
	else if (r == Z3_L_TRUE) {
	    res = SAT;
	    Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
	    for (u32 v : vs) {
		char nm[32]; snprintf(nm,sizeof nm,"v%u",v);
		Z3_ast k = Z3_mk_const(c, Z3_mk_string_symbol(c,nm), Z3_mk_bv_sort(c,g_syms[v].w)), o;
		u64 val = 0;
		if (Z3_model_eval(c, m, k, true, &o)) Z3_get_numeral_uint64(c, o, (uint64_t*) &val);
		mout.push_back({v,val});
	    }
	    Z3_model_dec_ref(c, m);
	}
    }
    g_sst.secs += std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    ++g_sst.solved;
    return res;
}
Sat satCheck (const vector<E>& cs, E cond, const ModelRef& cur, ModelRef& out)
{
    ++g_sst.queries;
    if (isC(cond)) { if (!cond->c) return UNSAT; out = cur; return SAT; }
    if (xEval(cond, cur)) { ++g_sst.modelHits; out = cur; return SAT; }
    // slice
    VarSet vs = xVars(cond);
    vector<E> sl; vector<char> used(cs.size(), 0);
    sl.push_back(cond);
    for (bool ch = true; ch;) {
	ch = false;
	for (size_t i = 0; i < cs.size(); ++i) {
	    if (used[i]) continue;
	    const VarSet& cv = xVars(cs[i]);
	    bool hit = false;
	    for (size_t a = 0, b = 0; a < cv.size() && b < vs.size();) { if (cv[a] == vs[b]) { hit = true; break; } if (cv[a] < vs[b]) ++a; else ++b; }
	    if (!hit) continue;
	    used[i] = 1; ch = true; sl.push_back(cs[i]);
	    VarSet t; std::set_union(vs.begin(),vs.end(),cv.begin(),cv.end(),std::back_inserter(t)); vs.swap(t);
	}
    }
    vector<u32> key; for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(),key.end()), key.end());
    auto it = g_cache.find(key);
    if (it == g_cache.end()) {
	CacheEnt ce; ce.r = run(sl, ce.m, vs);
	it = g_cache.emplace(key, std::move(ce)).first;
    } else ++g_sst.cacheHits;
    const CacheEnt& ce = it->second;
    if (ce.r == SAT) {
	++g_sst.sat;
	auto m = std::make_shared<Model>(*cur);
	if (m->size() < g_syms.size()) m->resize(g_syms.size(), 0);
	for (auto& p : ce.m) (*m)[p.first] = p.second;
	out = m;
	// self-check: the model must satisfy the slice
	for (E e : sl) if (!xEval(e, out)) { fprintf(stderr, "internal: model does not satisfy constraint %s\n", xStr(e).c_str()); ++g_sst.unknown; return UNKNOWN; }
    } else if (ce.r == UNSAT) ++g_sst.unsat;
    else ++g_sst.unknown;
    return ce.r;
}
