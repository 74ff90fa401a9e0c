#include <sys/resource.h>
// symx: path-forking symbolic executor for LLVM-18 IR, deciding with Z3 (QF_BV).
//
// Executes the function given with --entry over symbolic inputs.  All control
// flow that depends on symbolic data is resolved by the solver: every feasible
// side of every branch, every feasible symbolic address / size / quotient is
// explored.  vp_assert() and every memory access become solver queries.  A
// violation is written as a concrete input file and replayed on a natively
// compiled binary (--replay) before it is reported.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef std::chrono::steady_clock Clock;

static double now() {
    static auto t0 = Clock::now();
    return std::chrono::duration<double>(Clock::now() - t0).count();
}

// ---------------------------------------------------------------- options
static std::string optEntry = "vp_main", optReplay, optOut, optCexDir = ".", optName = "job", optArgs;
static double optTime = 600;
static uint64_t optMaxSteps = 20000000, optMaxUnconfirmed = 40;
static int optValidate = 12;
static bool optVerbose = false;
static unsigned optSeed = 1;
static int optMaxViol = 1;
static bool optFpCong = false;
static bool optBv = false;          // bit-vector queries only (byte-wise arithmetic)

// ---------------------------------------------------------------- values
enum Kind : uint8_t { K_INT, K_FPC, K_FPS, K_RAT, K_AGG, K_NONE };
struct Val {
    Kind k = K_NONE;
    uint16_t w = 0;         // bit width for ints / symbolic floats
    int32_t e = -1;         // expression id when symbolic (K_INT, K_FPS; K_RAT numerator)
    int32_t e2 = -1;        // K_RAT denominator
    u128 c = 0;             // concrete int
    long double f = 0;      // concrete float
    std::shared_ptr<std::vector<Val>> agg;
    bool sym() const { return e >= 0; }
};
static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static Val mkInt(unsigned w, u128 v) {
    Val r;
    r.k = K_INT;
    r.w = w;
    r.c = v & mask(w);
    return r;
}
static inline s128 sx(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    return (s128)(((v & mask(w)) ^ m) - m);
}
static Val mkFP(long double f) {
    Val r;
    r.k = K_FPC;
    r.f = f;
    return r;
}

// ---------------------------------------------------------------- expressions
static z3::context *Z;
static z3::solver *S;
static std::vector<z3::expr> E;                    // arena
static std::unordered_map<unsigned, int> Eid;      // ast id -> arena index
static int intern(const z3::expr &x) {
    unsigned id = Z3_get_ast_id(*Z, x);
    auto it = Eid.find(id);
    if (it != Eid.end()) return it->second;
    E.push_back(x);
    Eid[id] = (int)E.size() - 1;
    return (int)E.size() - 1;
}
typedef std::vector<std::pair<u128, int>> FV;   // value -> guard expr id (disjoint, exhaustive)
static std::unordered_map<int, FV> fvTab;
static std::multimap<int, int> fvByGuard;        // largest expression id used by an entry -> entry
static void fvSet(int e, const FV &fv) {
    int mx = e;
    for (auto &p : fv) mx = std::max(mx, p.second);
    fvTab[e] = fv;
    fvByGuard.insert({mx, e});
}
static void arenaTruncate(size_t n) {
    for (size_t i = n; i < E.size(); i++) fvTab.erase((int)i);
    auto lo = fvByGuard.lower_bound((int)n);
    for (auto it = lo; it != fvByGuard.end(); ++it) fvTab.erase(it->second);
    fvByGuard.erase(lo, fvByGuard.end());
    while (E.size() > n) {
        Eid.erase(Z3_get_ast_id(*Z, E.back()));
        E.pop_back();
    }
}
static z3::expr bvc(u128 v, unsigned w) {
    if (w <= 64) return Z->bv_val((uint64_t)v, w);
    z3::expr hi = Z->bv_val((uint64_t)(v >> 64), w - 64), lo = Z->bv_val((uint64_t)v, 64);
    return z3::concat(hi, lo);
}
static bool numeral(const z3::expr &x, u128 &out) {
    if (x.is_bool()) {
        if (x.is_true()) { out = 1; return true; }
        if (x.is_false()) { out = 0; return true; }
        return false;
    }
    if (!x.is_numeral()) return false;
    uint64_t v;
    if (x.is_numeral_u64(v)) { out = v; return true; }
    std::string s = Z3_get_numeral_binary_string(*Z, x);
    u128 r = 0;
    for (char ch : s) r = (r << 1) | (ch == '1');
    out = r;
    return true;
}
// expr (bool for width 1, bv otherwise) from a value
static z3::expr ex(const Val &v) {
    if (v.sym()) return E[v.e];
    if (v.w == 1) return Z->bool_val((bool)v.c);
    return bvc(v.c, v.w);
}
static Val fromExpr(const z3::expr &x0, unsigned w) {
    z3::expr x = x0.simplify();
    u128 c;
    if (numeral(x, c)) return mkInt(w, c);
    Val r;
    r.k = K_INT;
    r.w = w;
    r.e = intern(x);
    return r;
}

static bool fvOf(const Val &v, FV &out) {
    if (v.k != K_INT) return false;
    if (!v.sym()) {
        out.clear();
        out.push_back({v.c, -1});
        return true;
    }
    auto it = fvTab.find(v.e);
    if (it == fvTab.end()) {
        if (v.w == 1) {
            out.clear();
            out.push_back({1, v.e});
            out.push_back({0, intern((!E[v.e]).simplify())});
            return true;
        }
        return false;
    }
    out = it->second;
    return true;
}
static z3::expr gx(int g) { return g < 0 ? Z->bool_val(true) : E[g]; }
static Val fvMake(unsigned w, std::map<u128, std::vector<z3::expr>> &m) {
    if (m.size() == 1) return mkInt(w, m.begin()->first);
    if (w == 1) {
        z3::expr_vector v(*Z);
        for (auto &g : m[1]) v.push_back(g);
        return fromExpr(z3::mk_or(v), 1);
    }
    FV fv;
    z3::expr acc(*Z);
    bool have = false;
    for (auto &x : m) {
        z3::expr_vector v(*Z);
        for (auto &g : x.second) v.push_back(g);
        z3::expr g = z3::mk_or(v).simplify();
        if (g.is_false()) continue;
        fv.push_back({x.first, intern(g)});
        acc = have ? z3::ite(g, bvc(x.first, w), acc) : bvc(x.first, w);
        have = true;
    }
    if (fv.size() == 1) return mkInt(w, fv[0].first);
    Val r = fromExpr(acc, w);
    if (r.sym() && fv.size() <= 8) fvSet(r.e, fv);
    return r;
}
template <class F> static bool fvBin(const Val &a, const Val &b, unsigned w, F f, Val &out) {
    FV x, y;
    if (!(a.sym() || b.sym())) return false;
    if (!fvOf(a, x) || !fvOf(b, y) || x.size() * y.size() > 12) return false;
    std::map<u128, std::vector<z3::expr>> m;
    for (auto &p : x)
        for (auto &q : y) {
            u128 v = f(p.first, q.first) & mask(w);
            z3::expr g = p.second < 0 ? gx(q.second) : q.second < 0 ? gx(p.second) : (gx(p.second) && gx(q.second)).simplify();
            if (g.is_false()) continue;
            m[v].push_back(g);
        }
    if (m.empty()) return false;
    out = fvMake(w, m);
    return true;
}
template <class F> static bool fvUn(const Val &a, unsigned w, F f, Val &out) {
    FV x;
    if (!a.sym() || !fvOf(a, x)) return false;
    std::map<u128, std::vector<z3::expr>> m;
    for (auto &p : x) m[f(p.first) & mask(w)].push_back(gx(p.second));
    out = fvMake(w, m);
    return true;
}
// ---------------------------------------------------------------- memory
struct Byte {
    int32_t e = -1;  // -1 concrete, -2 uninitialised, >=0 expression id
    uint8_t v = 0;   // concrete value or byte index (little endian) into expression
};
enum OKind : uint8_t { O_GLOBAL, O_HEAP, O_STACK };
struct Obj {
    uint64_t base = 0;
    uint64_t size = 0;
    OKind kind = O_GLOBAL;
    bool freed = false, ro = false;
    int seq = -1;  // malloc sequence number
    std::string name;
    std::vector<Byte> b;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
    const Function *f;
    unsigned nregs = 0;
    bool repo = false;
    std::unordered_map<const llvm::Value *, unsigned> reg;
};
struct Frame {
    FnInfo *fi = nullptr;
    const BasicBlock *bb = nullptr, *prev = nullptr;
    BasicBlock::const_iterator pc;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    const Instruction *callsite = nullptr;
};
struct InRec {   // one native input, in consumption order
    bool isSym;
    unsigned bytes;
    int e;
    uint64_t c;
};
struct UninitRec { int seq; uint32_t off; int e; };
struct ObsRec { std::string tag; Val v; };
struct State {
    std::vector<Frame> st;
    std::vector<ObjP> mem;   // sorted by base
    uint64_t nextAddr = 0x10000;
    int mallocSeq = 0, symSeq = 0;
    std::vector<InRec> inputs;
    std::vector<UninitRec> uninit;
    std::vector<ObsRec> obs;
    std::vector<std::string> known;
    uint64_t steps = 0;
    int choiceNext = 0;      // pending vp_choice alternative
    std::shared_ptr<z3::model> model;
};
struct Alt {
    State s;
    unsigned scope;          // solver scopes to keep
    size_t arena, trail, memoN;
    int cond;                // expr id to assert (or -1)
    bool condVal;
};

static std::vector<Alt> work;
static std::unordered_map<int, bool> decided;
static std::vector<int> trail;
static unsigned scopes = 0;

// FP uninterpreted-function memo
struct FpApp { std::string op; std::vector<int> args; int res; };
static std::vector<FpApp> fpApps;

// ---------------------------------------------------------------- stats
static struct {
    uint64_t paths = 0, killed = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, steps = 0, asserts = 0, assertQueries = 0,
             memChecks = 0, memQueries = 0, fpHavoc = 0, fpRefined = 0, fpRefuted = 0, validated = 0, unconfirmed = 0, symbols = 0, validationMismatch = 0, limits = 0, errors = 0, q1 = 0, q2 = 0, patched = 0, ordUnsat = 0, ordAudited = 0, nonLinear = 0;
    double solver = 0;
} st;
static std::map<std::string, uint64_t> reached, fnHits, forkSites, unconfirmedWhat, assertSites;
static std::map<std::string, std::string> knownHits;
static std::vector<std::string> violations;
static std::vector<std::string> samples;
static std::set<std::string> errorsSeen;
static std::set<const BasicBlock *> bbHit;
static bool timedOut = false;
static bool stopAll = false;

static State *C;  // current state
static const DataLayout *DL;
static Module *M;
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fns;
static std::unordered_map<const llvm::Value *, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function *> fnAt;
static std::unordered_map<const Constant *, Val> constCache;

struct PathEnd { };             // thrown to end current path
struct EngineErr { std::string m; };

// ---------------------------------------------------------------- solver
// Two incremental solvers mirror the path condition: S holds every constraint,
// S1 only the "order" constraints (no arithmetic).  unsat in S1 implies unsat in
// S; a model of S1 (or a locally patched model) is accepted only after it has
// been evaluated to satisfy every constraint of the path.
static z3::solver *S1;
struct PC { z3::expr x; bool cheap; std::vector<unsigned> vars; size_t ordEdges; };
static std::vector<PC> pcs;
static std::string where();
static std::map<std::string, double> qTime;
static z3::check_result checkOn(z3::solver *s, int layer) {
    double t = now();
    st.queries++;
    z3::check_result r = s->check();
    double d = now() - t;
    st.solver += d;
    (layer == 1 ? st.q1 : st.q2)++;
    if (optVerbose) qTime[where() + (r == z3::unsat ? " u" : " s")] += d;
    if (optVerbose && d > 0.1) {
        fprintf(stderr, "slow %.3f layer %d at %s res %d\n", d, layer, where().c_str(), (int)r);
        if (getenv("SYMX_DUMP")) { static int dn; std::ofstream o(std::string("/tmp/w/slow") + std::to_string(dn++) + ".smt2"); o << *s << "\n(check-sat)\n"; }
    }
    if (r == z3::sat) st.sat++;
    else if (r == z3::unsat) st.unsat++;
    else st.unknown++;
    return r;
}
static z3::check_result check() { return checkOn(S, 2); }

// ---------------------------------------------------------------- linear integer view
// Exact translation of bit-vector constraints that are linear (sums, constant
// multiples, comparisons, extensions) into integer arithmetic; wrap-around is
// made explicit with a bounded quotient variable.
struct LT {
    z3::expr t;
    s128 lo, hi;
    // t as a sum: coefficients of plain symbols (by order-graph node) plus a rest in [rlo, rhi]
    std::vector<std::pair<int64_t, s128>> co;
    bool split = false;
    s128 rlo = 0, rhi = 0;
    LT(const z3::expr &t_, s128 l, s128 h) : t(t_), lo(l), hi(h) {}
};
static int oPath(int64_t a, int64_t b);
static std::map<int64_t, s128> symHi;     // largest value of a symbol, by node
static void ltRest(const LT &a, s128 &l, s128 &h) { if (a.split) { l = a.rlo; h = a.rhi; } else { l = a.lo; h = a.hi; } }
static void ltAdd(LT &r, const LT &a, const LT &b, s128 m) {   // r.co := a + m*b
    s128 l1, h1, l2, h2;
    ltRest(a, l1, h1);
    ltRest(b, l2, h2);
    r.split = true;
    r.co = a.co;
    for (auto &p : b.co) {
        bool f = false;
        for (auto &q : r.co) if (q.first == p.first) { q.second += m * p.second; f = true; }
        if (!f) r.co.push_back({p.first, m * p.second});
    }
    s128 x = m * l2, y = m * h2;
    r.rlo = l1 + (x < y ? x : y);
    r.rhi = h1 + (x < y ? y : x);
}
// bounds improved by order facts: every c*(a-b) with b <= a known is non-negative
static void ltBounds(const LT &a, s128 &lo, s128 &hi) {
    lo = a.lo; hi = a.hi;
    if (!a.split || a.co.size() < 2 || a.co.size() > 8) return;
    for (int side = 0; side < 2; side++) {
        std::vector<std::pair<int64_t, s128>> pos, neg;
        for (auto &p : a.co) if (p.second) {
            s128 c = side ? -p.second : p.second;
            (c > 0 ? pos : neg).push_back({p.first, c > 0 ? c : -c});
        }
        s128 l = side ? -a.rhi : a.rlo;
        for (auto &n : neg) {
            for (auto &q : pos) {
                if (!n.second) break;
                if (!q.second || !oPath(n.first, q.first)) continue;
                s128 c = n.second < q.second ? n.second : q.second;
                n.second -= c;
                q.second -= c;
            }
            if (n.second) l -= n.second * symHi[n.first];
        }
        if (side) { if (-l < hi) hi = -l; }
        else if (l > lo) lo = l;
    }
}
struct LFail { };
static std::vector<z3::expr> *liaSide;   // side constraints of the current translation
static std::unordered_map<unsigned, std::pair<z3::expr, LT>> liaMemo;   // reset per constraint
static int liaFresh = 0;
static const s128 LIM = (s128)1 << 120;
static z3::expr iv(s128 v) {
    bool neg = v < 0;
    u128 u = neg ? (u128)(-v) : (u128)v;
    std::string r;
    if (!u) r = "0";
    while (u) { r.insert(r.begin(), '0' + (int)(u % 10)); u /= 10; }
    if (neg) r = "-" + r;
    return Z->int_val(r.c_str());
}
static LT L(const z3::expr &x);
static z3::expr lsigned(const LT &a, unsigned w);
static z3::expr LB(const z3::expr &x);
static s128 fdiv(s128 a, s128 b) { s128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
static LT reduceMod(const LT &a, unsigned w) {
    if (w >= 120) { if (a.lo >= 0) return a; throw LFail(); }
    s128 m = (s128)1 << w;
    s128 kl = fdiv(a.lo, m), kh = fdiv(a.hi, m);
    s128 blo = a.lo, bhi = a.hi;
    if (kl != kh) { ltBounds(a, blo, bhi); kl = fdiv(blo, m); kh = fdiv(bhi, m); }
    if (kl == kh) {
        LT r = a;
        if (kl) r.t = a.t - iv(kl * m);
        r.lo = blo - kl * m;
        r.hi = bhi - kl * m;
        r.rlo -= kl * m;
        r.rhi -= kl * m;
        return r;
    }
    std::string nm = "lk!" + std::to_string(liaFresh++);
    z3::expr k = Z->int_const(nm.c_str());
    z3::expr r = a.t - iv(m) * k;
    liaSide->push_back(k >= iv(kl));
    liaSide->push_back(k <= iv(kh));
    liaSide->push_back(r >= 0);
    liaSide->push_back(r < iv(m));
    return {r, 0, m - 1};
}
static s128 chk(s128 v) { if (v > LIM || v < -LIM) throw LFail(); return v; }
// unreduced linear form congruent to x modulo 2^w
static LT lin(const z3::expr &x, int depth = 0) {
    unsigned w = x.get_sort().bv_size();
    if (depth < 40 && x.is_app() && !x.is_numeral()) {
        switch (x.decl().decl_kind()) {
            case Z3_OP_BADD: {
                LT r = lin(x.arg(0), depth + 1);
                for (unsigned i = 1; i < x.num_args(); i++) {
                    LT b = lin(x.arg(i), depth + 1);
                    LT n(r.t + b.t, chk(r.lo + b.lo), chk(r.hi + b.hi));
                    ltAdd(n, r, b, 1);
                    r = n;
                }
                return r;
            }
            case Z3_OP_BSUB: {
                LT a = lin(x.arg(0), depth + 1), b = lin(x.arg(1), depth + 1);
                LT n(a.t - b.t, chk(a.lo - b.hi), chk(a.hi - b.lo));
                ltAdd(n, a, b, -1);
                return n;
            }
            case Z3_OP_BNEG: {
                LT a = lin(x.arg(0), depth + 1);
                LT n(-a.t, -a.hi, -a.lo), zero(iv(0), 0, 0);
                ltAdd(n, zero, a, -1);
                return n;
            }
            case Z3_OP_BMUL: {
                int ci = -1;
                for (unsigned i = 0; i < x.num_args(); i++) if (x.arg(i).is_numeral()) ci = i;
                if (x.num_args() != 2 || ci < 0) throw LFail();
                u128 c0;
                numeral(x.arg(ci), c0);
                s128 c;
                if (w < 128 && (c0 >> (w - 1)) & 1) c = (s128)c0 - ((s128)1 << w);
                else if (w >= 128) { c = (s128)c0; }
                else c = (s128)c0;
                if (w == 127) throw LFail();
                LT a = lin(x.arg(1 - ci), depth + 1);
                if (c > ((s128)1 << 66) || c < -((s128)1 << 66)) throw LFail();
                long double e1 = (long double)c * (long double)a.lo, e2 = (long double)c * (long double)a.hi;
                if (fabsl(e1) > 1e36L || fabsl(e2) > 1e36L) throw LFail();
                s128 p = chk(c * a.lo), q = chk(c * a.hi);
                LT n(iv(c) * a.t, p < q ? p : q, p < q ? q : p), zero(iv(0), 0, 0);
                ltAdd(n, zero, a, c);
                return n;
            }
            default: break;
        }
    }
    return L(x);
}
static LT L0(const z3::expr &x) {
    unsigned w = x.get_sort().bv_size();
    if (x.is_numeral()) {
        u128 v;
        numeral(x, v);
        if (v > (u128)LIM) throw LFail();
        return {iv((s128)v), (s128)v, (s128)v};
    }
    if (!x.is_app()) throw LFail();
    switch (x.decl().decl_kind()) {
        case Z3_OP_UNINTERPRETED: {
            if (x.num_args() || w > 100) throw LFail();
            z3::expr v = Z->int_const(("L!" + x.decl().name().str()).c_str());
            liaSide->push_back(v >= 0);
            liaSide->push_back(v < iv((s128)1 << w));
            LT n(v, 0, ((s128)1 << w) - 1);
            int64_t node = (int64_t)Z3_get_ast_id(*Z, x) * 2;
            symHi[node] = n.hi;
            n.split = true;
            n.co.push_back({node, 1});
            return n;
        }
        case Z3_OP_BADD: case Z3_OP_BSUB: case Z3_OP_BNEG: case Z3_OP_BMUL: return reduceMod(lin(x), w);
        case Z3_OP_CONCAT: {
            LT r = L(x.arg(0));
            for (unsigned i = 1; i < x.num_args(); i++) {
                unsigned wi = x.arg(i).get_sort().bv_size();
                LT b = L(x.arg(i));
                if (r.hi > 0 && (wi > 100 || r.hi > (LIM >> wi))) throw LFail();
                if (r.hi == 0) r = b;
                else { s128 m = (s128)1 << wi; r = {r.t * iv(m) + b.t, r.lo * m + b.lo, r.hi * m + b.hi}; }
            }
            return r;
        }
        case Z3_OP_ZERO_EXT: return L(x.arg(0));
        case Z3_OP_SIGN_EXT: {
            LT a = L(x.arg(0));
            unsigned wa = x.arg(0).get_sort().bv_size();
            s128 h = (s128)1 << (wa - 1);
            if (a.hi < h) return a;
            if (w >= 120) throw LFail();
            s128 add = ((s128)1 << w) - ((s128)1 << wa);
            if (a.lo >= h) return {a.t + iv(add), a.lo + add, a.hi + add};
            return {z3::ite(a.t >= iv(h), a.t + iv(add), a.t), 0, ((s128)1 << w) - 1};
        }
        case Z3_OP_EXTRACT: {
            unsigned hi = x.hi(), lo = x.lo();
            if (lo == 0) return reduceMod(lin(x.arg(0)), hi + 1);
            LT a = L(x.arg(0));
            if (lo > 100) throw LFail();
            s128 m = (s128)1 << lo;
            z3::expr q = Z->int_const(("lq!" + std::to_string(liaFresh++)).c_str());
            liaSide->push_back(q * iv(m) <= a.t);
            liaSide->push_back(a.t < q * iv(m) + iv(m));
            LT r{q, fdiv(a.lo, m), fdiv(a.hi, m)};
            return reduceMod(r, hi - lo + 1);
        }
        case Z3_OP_ITE: {
            z3::expr c = LB(x.arg(0));
            LT a = L(x.arg(1)), b = L(x.arg(2));
            return {z3::ite(c, a.t, b.t), a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi};
        }
        case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: case Z3_OP_BUREM: case Z3_OP_BUREM_I: {
            if (!x.arg(1).is_numeral()) throw LFail();
            u128 c;
            numeral(x.arg(1), c);
            if (c == 0 || c > ((u128)1 << 64)) throw LFail();
            LT a = L(x.arg(0));
            z3::expr q = Z->int_const(("lq!" + std::to_string(liaFresh++)).c_str());
            liaSide->push_back(q * iv((s128)c) <= a.t);
            liaSide->push_back(a.t < q * iv((s128)c) + iv((s128)c));
            if (x.decl().decl_kind() == Z3_OP_BUDIV || x.decl().decl_kind() == Z3_OP_BUDIV_I) return {q, a.lo / (s128)c, a.hi / (s128)c};
            return {a.t - q * iv((s128)c), 0, (s128)c - 1};
        }
        case Z3_OP_BSDIV: case Z3_OP_BSDIV_I: case Z3_OP_BSREM: case Z3_OP_BSREM_I: {
            if (!x.arg(1).is_numeral() || w > 64) throw LFail();
            u128 c;
            numeral(x.arg(1), c);
            if (c == 0 || (c >> (w - 1))) throw LFail();
            LT a = L(x.arg(0));
            z3::expr sa = lsigned(a, w);
            z3::expr q = Z->int_const(("lq!" + std::to_string(liaFresh++)).c_str());
            z3::expr cc = iv((s128)c);
            liaSide->push_back(z3::implies(sa >= 0, q * cc <= sa && sa < q * cc + cc));
            liaSide->push_back(z3::implies(sa < 0, q * cc >= sa && sa > q * cc - cc));
            s128 h = (s128)1 << (w - 1);
            bool div = x.decl().decl_kind() == Z3_OP_BSDIV || x.decl().decl_kind() == Z3_OP_BSDIV_I;
            if (div) return reduceMod({q, a.hi < h ? 0 : -(h / (s128)c), a.lo >= h ? 0 : h / (s128)c}, w);
            return reduceMod({sa - q * cc, a.hi < h ? 0 : -((s128)c - 1), (s128)c - 1}, w);
        }
        default: throw LFail();
    }
}
static LT L(const z3::expr &x) {
    unsigned id = Z3_get_ast_id(*Z, x);
    auto it = liaMemo.find(id);
    if (it != liaMemo.end()) return it->second.second;
    if (liaMemo.size() > 400) throw LFail();
    LT r = L0(x);
    liaMemo.emplace(id, std::make_pair(x, r));
    return r;
}
static z3::expr lsigned(const LT &a, unsigned w) {
    s128 h = (s128)1 << (w - 1);
    if (a.hi < h) return a.t;
    s128 m = (s128)1 << w;
    if (a.lo >= h) return a.t - iv(m);
    return z3::ite(a.t >= iv(h), a.t - iv(m), a.t);
}
static z3::expr LB(const z3::expr &x) {
    if (x.is_true() || x.is_false()) return x;
    if (!x.is_app()) throw LFail();
    switch (x.decl().decl_kind()) {
        case Z3_OP_UNINTERPRETED: return Z->bool_const(("L!" + x.decl().name().str()).c_str());
        case Z3_OP_NOT: return !LB(x.arg(0));
        case Z3_OP_AND: { z3::expr_vector v(*Z); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(LB(x.arg(i))); return z3::mk_and(v); }
        case Z3_OP_OR: { z3::expr_vector v(*Z); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(LB(x.arg(i))); return z3::mk_or(v); }
        case Z3_OP_IMPLIES: return z3::implies(LB(x.arg(0)), LB(x.arg(1)));
        case Z3_OP_ITE: return z3::ite(LB(x.arg(0)), LB(x.arg(1)), LB(x.arg(2)));
        case Z3_OP_XOR: return LB(x.arg(0)) != LB(x.arg(1));
        case Z3_OP_IFF: return LB(x.arg(0)) == LB(x.arg(1));
        case Z3_OP_EQ:
            if (x.arg(0).is_bool()) return LB(x.arg(0)) == LB(x.arg(1));
            if (!x.arg(0).is_bv()) throw LFail();
            return L(x.arg(0)).t == L(x.arg(1)).t;
        case Z3_OP_DISTINCT:
            if (x.num_args() != 2 || !x.arg(0).is_bv()) throw LFail();
            return L(x.arg(0)).t != L(x.arg(1)).t;
        case Z3_OP_ULEQ: return L(x.arg(0)).t <= L(x.arg(1)).t;
        case Z3_OP_ULT: return L(x.arg(0)).t < L(x.arg(1)).t;
        case Z3_OP_UGEQ: return L(x.arg(0)).t >= L(x.arg(1)).t;
        case Z3_OP_UGT: return L(x.arg(0)).t > L(x.arg(1)).t;
        case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
            unsigned w = x.arg(0).get_sort().bv_size();
            if (w > 100) throw LFail();
            z3::expr a = lsigned(L(x.arg(0)), w), b = lsigned(L(x.arg(1)), w);
            switch (x.decl().decl_kind()) {
                case Z3_OP_SLEQ: return a <= b;
                case Z3_OP_SLT: return a < b;
                case Z3_OP_SGEQ: return a >= b;
                default: return a > b;
            }
        }
        default: throw LFail();
    }
}
// translate; returns false when outside the linear fragment
static bool toLia(const z3::expr &x, z3::expr &out) {
    if (optBv) return false;
    std::vector<z3::expr> side;
    liaSide = &side;
    liaMemo.clear();
    try {
        z3::expr b = LB(x);
        z3::expr_vector v(*Z);
        for (auto &q : side) v.push_back(q);
        v.push_back(b);
        out = z3::mk_and(v);
        return true;
    } catch (LFail &) {
        return false;
    }
}
static size_t sSync = 0;
static bool collectVars(const z3::expr &x, std::vector<z3::expr> &out, std::set<unsigned> &seen) {
    unsigned id = Z3_get_ast_id(*Z, x);
    if (!seen.insert(id).second) return true;
    if (seen.size() > 600) return false;
    if (x.is_const() && !x.is_numeral()) { if (x.is_bv() || x.is_bool()) if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) out.push_back(x); return true; }
    bool ok = true;
    for (unsigned i = 0; i < x.num_args(); i++) ok &= collectVars(x.arg(i), out, seen);
    return ok;
}
// ---- order facts: a sound fast path for conditions decided by transitivity
struct OEdge { int64_t a, b; bool strict; };         // value(a) <= value(b), or < when strict
static std::vector<OEdge> oEdges;
static std::map<int64_t, u128> oConst;               // constant nodes (unsigned view)
static int64_t oNode(const z3::expr &x0, bool sgn) {
    z3::expr x = x0;
    u128 c;
    while (!x.is_numeral() && x.is_app()) {
        auto k = x.decl().decl_kind();
        if (!sgn && k == Z3_OP_ZERO_EXT) x = x.arg(0);
        else if (!sgn && k == Z3_OP_CONCAT && x.num_args() == 2 && x.arg(0).is_numeral() && numeral(x.arg(0), c) && c == 0) x = x.arg(1);
        else if (sgn && k == Z3_OP_SIGN_EXT) x = x.arg(0);
        else break;
    }
    if (x.is_numeral()) {
        numeral(x, c);
        if (sgn) c = (u128)(sx(c, x.get_sort().bv_size()) + ((s128)1 << 100));
        // constants are keyed by value
        for (auto &p : oConst) if (p.second == c && (p.first & 1) == (int64_t)sgn) return p.first;
        int64_t id = -(int64_t)(2 * (oConst.size() + 1)) + (sgn ? 1 : 0);
        oConst[id] = c;
        return id;
    }
    return (int64_t)Z3_get_ast_id(*Z, x) * 2 + (sgn ? 1 : 0);
}
// atom a <= b (or a < b)
static bool oAtom(const z3::expr &x, bool neg, int64_t &a, int64_t &b, bool &strict) {
    if (!x.is_app()) return false;
    bool sgn;
    int l = 0, r = 1;
    switch (x.decl().decl_kind()) {
        case Z3_OP_ULEQ: sgn = false; strict = false; break;
        case Z3_OP_ULT: sgn = false; strict = true; break;
        case Z3_OP_UGEQ: sgn = false; strict = false; l = 1; r = 0; break;
        case Z3_OP_UGT: sgn = false; strict = true; l = 1; r = 0; break;
        case Z3_OP_SLEQ: sgn = true; strict = false; break;
        case Z3_OP_SLT: sgn = true; strict = true; break;
        case Z3_OP_SGEQ: sgn = true; strict = false; l = 1; r = 0; break;
        case Z3_OP_SGT: sgn = true; strict = true; l = 1; r = 0; break;
        default: return false;
    }
    if (neg) { std::swap(l, r); strict = !strict; }
    a = oNode(x.arg(l), sgn);
    b = oNode(x.arg(r), sgn);
    return true;
}
static void oAdd(const z3::expr &x, bool neg = false) {
    if (!x.is_app()) return;
    auto k = x.decl().decl_kind();
    if (k == Z3_OP_NOT) return oAdd(x.arg(0), !neg);
    if ((k == Z3_OP_AND && !neg) || (k == Z3_OP_OR && neg)) { for (unsigned i = 0; i < x.num_args(); i++) oAdd(x.arg(i), neg); return; }
    if (k == Z3_OP_EQ && !neg && x.arg(0).is_bv()) {
        for (int sgn = 0; sgn < 2; sgn++) {
            int64_t a = oNode(x.arg(0), sgn), b = oNode(x.arg(1), sgn);
            oEdges.push_back({a, b, false});
            oEdges.push_back({b, a, false});
        }
        return;
    }
    int64_t a, b;
    bool s;
    if (oAtom(x, neg, a, b, s)) oEdges.push_back({a, b, s});
}
// 0: no path, 1: a <= b known, 2: a < b known
static int oPath(int64_t a, int64_t b) {
    if (a == b) return 1;
    auto ca = oConst.find(a), cb = oConst.find(b);
    std::map<int64_t, int> best;
    best[a] = 1;
    std::vector<int64_t> q{a};
    auto relax = [&](int64_t n, int v) { int &o = best[n]; if (v > o) { o = v; q.push_back(n); } };
    while (!q.empty()) {
        int64_t n = q.back();
        q.pop_back();
        int v = best[n];
        for (auto &e : oEdges) if (e.a == n) relax(e.b, (v == 2 || e.strict) ? 2 : 1);
        auto c = oConst.find(n);
        if (c != oConst.end())
            for (auto &d : oConst) if (((d.first ^ n) & 1) == 0 && d.second > c->second) relax(d.first, 2);
        if (best.size() > 400) return 0;
    }
    auto it = best.find(b);
    return it == best.end() ? 0 : it->second;
}
static bool oUnsat(const z3::expr &x, bool neg = false, int depth = 0) {
    if (!x.is_app() || depth > 6) return false;
    auto k = x.decl().decl_kind();
    if (k == Z3_OP_NOT) return oUnsat(x.arg(0), !neg, depth);
    if (k == Z3_OP_AND || k == Z3_OP_OR) {
        bool conj = (k == Z3_OP_AND) != neg;
        for (unsigned i = 0; i < x.num_args(); i++) {
            bool u = oUnsat(x.arg(i), neg, depth + 1);
            if (conj && u) return true;
            if (!conj && !u) return false;
        }
        return !conj;
    }
    if (k == Z3_OP_EQ && x.arg(0).is_bv()) {
        for (int sgn = 0; sgn < 2; sgn++) {
            int64_t a = oNode(x.arg(0), sgn), b = oNode(x.arg(1), sgn);
            if (neg) { if (oPath(a, b) && oPath(b, a)) return true; }
            else if (oPath(a, b) == 2 || oPath(b, a) == 2) return true;
        }
        return false;
    }
    int64_t a, b;
    bool s;
    if (!oAtom(x, neg, a, b, s)) return false;
    int p = oPath(b, a);
    return s ? p >= 1 : p == 2;
}
static void pushAdd(const z3::expr &x) {
    z3::expr y(*Z);
    bool ch = toLia(x, y);
    S1->push();
    scopes++;
    if (ch) S1->add(y);
    else st.nonLinear++;
    std::vector<z3::expr> vs;
    std::set<unsigned> seen;
    std::vector<unsigned> ids;
    bool all = collectVars(x, vs, seen);
    if (all) for (auto &v : vs) ids.push_back(Z3_get_ast_id(*Z, v));
    else ids.push_back(~0u);
    pcs.push_back({x, ch, ids, oEdges.size()});
    oAdd(x);
}
// the bit-vector solver is only synchronised when a query needs it
static void syncS() {
    while (sSync < pcs.size()) {
        S->push();
        S->add(pcs[sSync].x);
        sSync++;
    }
}
static void pushEmpty() {
    S1->push();
    scopes++;
    pcs.push_back({Z->bool_val(true), true, {}, oEdges.size()});
}
static void popTo(unsigned n) {
    if (scopes > n) {
        if (sSync > n) { S->pop(sSync - n); sSync = n; }
        S1->pop(scopes - n);
        scopes = n;
        while (pcs.size() > n) { oEdges.resize(pcs.back().ordEdges); pcs.pop_back(); }
    }
}
static void remember(int id, bool v) {
    if (decided.emplace(id, v).second) trail.push_back(id);
}
static z3::expr meval(const z3::expr &x) { return C->model->eval(x, true); }
static u128 mevalIn(const z3::model &m, const z3::expr &x) {
    u128 r = 0;
    z3::expr y = m.eval(x, true);
    if (!numeral(y, r)) {
        y = y.simplify();
        if (!numeral(y, r)) throw EngineErr{"model evaluation failed"};
    }
    return r;
}
static u128 mevalC(const z3::expr &x) { return mevalIn(*C->model, x); }
static bool modelOk(const z3::model &m, const z3::expr &x, unsigned onlyVar = ~0u) {
    if (!m.eval(x, true).is_true()) return false;
    for (size_t i = pcs.size(); i-- > 0;)
        if (onlyVar == ~0u || (pcs[i].vars.size() && pcs[i].vars[0] == ~0u) || std::find(pcs[i].vars.begin(), pcs[i].vars.end(), onlyVar) != pcs[i].vars.end())
        if (!m.eval(pcs[i].x, true).is_true()) return false;
    return true;
}
// copy of model m with variable v set to c
static z3::model patched(const z3::model &m, const z3::expr &v, u128 c) {
    z3::model r(*Z);
    unsigned n = m.num_consts();
    bool done = false;
    for (unsigned i = 0; i < n; i++) {
        z3::func_decl d = m.get_const_decl(i);
        z3::expr val = m.get_const_interp(d);
        if (z3::eq(d(), v)) continue;
        Z3_add_const_interp(*Z, r, d, val);
    }
    (void)done;
    z3::expr cv = v.is_bool() ? Z->bool_val((bool)c) : bvc(c, v.get_sort().bv_size());
    Z3_add_const_interp(*Z, r, v.decl(), cv);
    return r;
}
// bit-vector model from an integer model (other symbols keep their current value)
static z3::model fromLia(const z3::model &lm) {
    z3::model r(*Z);
    std::set<std::string> have;
    for (unsigned i = 0; i < lm.num_consts(); i++) {
        z3::func_decl d = lm.get_const_decl(i);
        std::string n = d.name().str();
        if (n.compare(0, 2, "L!") != 0) continue;
        std::string nm = n.substr(2);
        z3::expr v = lm.get_const_interp(d);
        have.insert(nm);
        if (v.is_bool()) {
            z3::expr c = Z->bool_const(nm.c_str());
            Z3_add_const_interp(*Z, r, c.decl(), v);
        } else {
            unsigned w = atoi(nm.c_str() + nm.rfind('!') + 1);
            z3::expr c = Z->bv_const(nm.c_str(), w);
            z3::expr val = Z->bv_val(Z3_get_numeral_string(*Z, v), w);
            Z3_add_const_interp(*Z, r, c.decl(), val);
        }
    }
    const z3::model &m = *C->model;
    for (unsigned i = 0; i < m.num_consts(); i++) {
        z3::func_decl d = m.get_const_decl(i);
        if (have.count(d.name().str())) continue;
        z3::expr val = m.get_const_interp(d);
        Z3_add_const_interp(*Z, r, d, val);
    }
    return r;
}
static void collectNums(const z3::expr &x, std::set<uint64_t> &out, std::set<unsigned> &seen) {
    unsigned id = Z3_get_ast_id(*Z, x);
    if (!seen.insert(id).second || seen.size() > 300) return;
    uint64_t v;
    if (x.is_bv() && x.is_numeral()) { if (x.get_sort().bv_size() <= 64 && x.is_numeral_u64(v)) out.insert(v); return; }
    if (x.is_const()) return;
    for (unsigned i = 0; i < x.num_args(); i++) collectNums(x.arg(i), out, seen);
}
static bool tryPatch(const z3::expr &x, std::shared_ptr<z3::model> *out) {
    std::vector<z3::expr> vs;
    std::set<unsigned> seen;
    collectVars(x, vs, seen);
    if (vs.empty() || vs.size() > 4) return false;
    std::set<uint64_t> nums;
    std::set<unsigned> seen2;
    collectNums(x, nums, seen2);
    std::vector<u128> vals;
    for (auto &v : vs) vals.push_back(mevalC(v));
    for (size_t i = vs.size(); i-- > 0;) {
        unsigned w = vs[i].is_bool() ? 1 : vs[i].get_sort().bv_size();
        std::set<uint64_t> cand;
        for (size_t j = 0; j < vs.size(); j++)
            if (j != i || true) { cand.insert((uint64_t)(vals[j] & mask(w))); cand.insert((uint64_t)((vals[j] + 1) & mask(w))); cand.insert((uint64_t)((vals[j] - 1) & mask(w))); }
        for (auto c : nums) { cand.insert(c & (uint64_t)mask(w)); if (nums.size() < 6) { cand.insert((c + 1) & (uint64_t)mask(w)); cand.insert((c - 1) & (uint64_t)mask(w)); } }
        cand.insert(0);
        cand.insert((uint64_t)mask(w));
        int n = 0;
        for (uint64_t c : cand) {
            if (c == (uint64_t)vals[i]) continue;
            if (++n > 16) break;
            z3::expr_vector from(*Z), to(*Z);
            from.push_back(vs[i]);
            to.push_back(vs[i].is_bool() ? Z->bool_val((bool)c) : bvc(c, w));
            z3::expr y(x);
            z3::expr q = y.substitute(from, to);
            if (!C->model->eval(q, true).is_true()) continue;
            z3::model m = patched(*C->model, vs[i], c);
            if (modelOk(m, x, Z3_get_ast_id(*Z, vs[i]))) {
                st.patched++;
                if (out) *out = std::make_shared<z3::model>(m);
                return true;
            }
        }
    }
    return false;
}
// Is (constraints && x) satisfiable?  On sat leaves model in out.
static bool inAssert = false;
static unsigned freshTimeout = 5000;
static void setTimeouts(unsigned lia, unsigned bv) {
    freshTimeout = lia;
    z3::params p(*Z);
    p.set("timeout", lia);
    S1->set(p);
    p.set("timeout", bv);
    S->set(p);
}
static z3::check_result satOnce(const z3::expr &x, std::shared_ptr<z3::model> *out);
// short attempts in both theories first, long ones only when both give up
static z3::check_result satWith(const z3::expr &x, std::shared_ptr<z3::model> *out) {
    z3::check_result r = satOnce(x, out);
    if (r != z3::unknown) return r;
    setTimeouts(20000, 60000);
    r = satOnce(x, out);
    setTimeouts(500, 8000);
    freshTimeout = 5000;
    return r;
}
static z3::check_result satOnce(const z3::expr &x, std::shared_ptr<z3::model> *out) {
    bool auditOrder = false;
    if (!inAssert && oUnsat(x)) {
        if (++st.ordUnsat % 16) return z3::unsat;
        auditOrder = true;      // every 16th order verdict is put to the solver as well
        st.ordAudited++;
    }
    if (!auditOrder)
    if (tryPatch(x, out)) return z3::sat;
    z3::expr y(*Z);
    if (toLia(x, y)) {
        S1->push();
        S1->add(y);
        z3::check_result r = checkOn(S1, 1);
        if (r == z3::unsat) { S1->pop(); return r; }
        if (auditOrder && r == z3::sat) errorsSeen.insert("order fast path disagrees with the solver at " + where());
        std::unique_ptr<z3::solver> fr;
        if (r == z3::unknown) {      // the same constraints without incremental state (full preprocessing)
            fr.reset(new z3::solver(*Z));
            z3::params p(*Z);
            p.set("timeout", freshTimeout);
            fr->set(p);
            fr->add(S1->assertions());
            r = checkOn(fr.get(), 1);
            if (r == z3::unsat) { S1->pop(); return r; }
        }
        if (r == z3::sat) {
            z3::model lm = fr ? fr->get_model() : S1->get_model();
            S1->pop();
            z3::model m = fromLia(lm);
            if (modelOk(m, x)) {
                if (out) *out = std::make_shared<z3::model>(m);
                return r;
            }
            if (optVerbose) { for (auto &p : pcs) if (!m.eval(p.x, true).is_true()) std::cerr << "LIA model fails (" << p.cheap << ") " << p.x << "\n -> " << m.eval(p.x, true) << "\n" << m << "\n"; }
        } else S1->pop();
    } else if (optVerbose && !optBv) std::cerr << "nonLIA query " << x << "\n";
    syncS();
    S->push();
    S->add(x);
    z3::check_result r = check();
    if (r == z3::sat && out) *out = std::make_shared<z3::model>(S->get_model());
    S->pop();
    return r;
}
static std::string where() {
    for (int i = (int)C->st.size() - 1; i >= 0; i--) {
        Frame &f = C->st[i];
        const Instruction *I = (i == (int)C->st.size() - 1) ? &*f.pc : C->st[i + 1].callsite;
        std::string r = f.fi->f->getName().str();
        if (I)
            if (const DebugLoc &d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine());
        return r;
    }
    return "?";
}
static std::string backtrace() {
    std::string r;
    for (int i = (int)C->st.size() - 1; i >= 0; i--) {
        Frame &f = C->st[i];
        const Instruction *I = (i == (int)C->st.size() - 1) ? &*f.pc : C->st[i + 1].callsite;
        if (!r.empty()) r += " < ";
        r += f.fi->f->getName().str();
        if (I)
            if (const DebugLoc &d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine());
    }
    return r;
}
static void pushAlt(int cond, bool val, std::shared_ptr<z3::model> model) {
    Alt a;
    a.s = *C;
    a.s.model = model;
    a.scope = scopes;
    a.arena = E.size();
    a.trail = trail.size();
    a.memoN = fpApps.size();
    a.cond = cond;
    a.condVal = val;
    work.push_back(std::move(a));
    st.forks++;
    if (optVerbose) forkSites[where()]++;
}
// Decide a boolean condition on the current path; forks when both sides feasible.
// The alternative re-executes the current instruction.
static bool decide(const Val &v) {
    if (!v.sym()) return v.c & 1;
    int id = v.e;
    auto it = decided.find(id);
    if (it != decided.end()) return it->second;
    z3::expr x = E[id];
    bool mv = mevalC(x) != 0;
    std::shared_ptr<z3::model> om;
    z3::check_result r = satWith(mv ? !x : x, &om);
    if (r == z3::unknown) { st.limits++; errorsSeen.insert("solver unknown at " + where()); }
    if (r == z3::sat) {
        pushAlt(id, !mv, om);
        pushAdd(mv ? x : !x);
    }
    remember(id, mv);
    return mv;
}
static void assumeTrue(const Val &v) {
    if (!v.sym()) {
        if (!(v.c & 1)) { st.killed++; throw PathEnd(); }
        return;
    }
    auto it = decided.find(v.e);
    if (it != decided.end()) {
        if (!it->second) { st.killed++; throw PathEnd(); }
        return;
    }
    z3::expr x = E[v.e];
    if (mevalC(x) != 0) {
        pushAdd(x);
    } else {
        std::shared_ptr<z3::model> om;
        if (satWith(x, &om) != z3::sat) { st.killed++; throw PathEnd(); }
        pushAdd(x);
        C->model = om;
    }
    remember(v.e, true);
}

// ---------------------------------------------------------------- counterexamples
static std::string hexOf(u128 v, unsigned bytes) {
    std::string s;
    char b[4];
    for (unsigned i = 0; i < bytes; i++) {
        snprintf(b, sizeof b, "%02x", (unsigned)((v >> (8 * i)) & 0xff));
        s += b;
    }
    return s;
}
static void writeInputs(const std::string &path, const z3::model &m, const std::string &comment) {
    std::ofstream o(path);
    o << "# " << comment << "\n";
    for (auto &i : C->inputs) {
        u128 v = i.c;
        if (i.isSym) {
            z3::expr y = m.eval(E[i.e], true);
            numeral(y, v);
        }
        o << "i " << hexOf(v, i.bytes) << "\n";
    }
    for (auto &u : C->uninit) {
        u128 v = 0;
        z3::expr y = m.eval(E[u.e], true);
        numeral(y, v);
        if (u.seq >= 0) o << "u " << u.seq << " " << u.off << " " << (unsigned)v << "\n";
    }
}
// returns: 0 clean, 1 violation reproduced, 2 assumption failed / other
static int runReplay(const std::string &file, std::string *outp) {
    if (optReplay.empty()) return 2;
    std::string cmd = "timeout -s KILL 20 " + optReplay + " " + file + " 2>&1";
    FILE *p = popen(cmd.c_str(), "r");
    if (!p) return 2;
    std::string out;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, p)) > 0)
        if (out.size() < 200000) out.append(buf, n);
    int rc = pclose(p);
    if (outp) *outp = out;
    if (WIFEXITED(rc)) {
        int c = WEXITSTATUS(rc);
        if (c == 0) return 0;
        if (c == 78) return 2;
        return 1;
    }
    return 1;
}
static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { r += ' '; }
        else r += c;
    }
    return r;
}
static std::string describeInputs(const z3::model &m, size_t lim = 60) {
    std::string r;
    size_t n = 0;
    for (auto &i : C->inputs) {
        if (n++ >= lim) { r += "..."; break; }
        u128 v = i.c;
        if (i.isSym) numeral(m.eval(E[i.e], true), v);
        char b[40];
        snprintf(b, sizeof b, "%s%llx", r.empty() ? "" : " ", (unsigned long long)v);
        r += b;
        if (!i.isSym) r += "c";
    }
    return r;
}
// A counterexample that used over-approximated floating point results did not reproduce: ask the solver again
// with the IEEE meaning of every floating point operation of the path.
static z3::expr fpTerm(int id, unsigned w) {
    Z3_sort so = w == 32 ? Z3_mk_fpa_sort_32(*Z) : Z3_mk_fpa_sort_64(*Z);
    return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, E[id], so));
}
static bool fpDefine(const FpApp &a, z3::expr &out) {
    z3::context &c = *Z;
    z3::expr rne(c, Z3_mk_fpa_rne(c)), rtz(c, Z3_mk_fpa_rtz(c));
    int w = 0, v = 0, op = 0;
    auto srt = [&](int x) { return x == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); };
    if (sscanf(a.op.c_str(), "itofp%d", &w) == 1 && (w == 32 || w == 64)) {
        out = fpTerm(a.res, w) == z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne, E[a.args[0]], srt(w)));
        return true;
    }
    if (sscanf(a.op.c_str(), "fpconv%d_%d", &w, &v) == 2 && (w == 32 || w == 64) && (v == 32 || v == 64)) {
        out = fpTerm(a.res, w) == z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, fpTerm(a.args[0], v), srt(w)));
        return true;
    }
    bool sg = sscanf(a.op.c_str(), "fptosi%d_%d", &w, &v) == 2;
    if (sg || sscanf(a.op.c_str(), "fptoui%d_%d", &w, &v) == 2) {
        if ((v != 32 && v != 64) || w > 64) return false;
        // as the x86-64 instructions: cvttss2si / cvttsd2si into 32 bits (64 for wider results), then truncation;
        // values outside give the indefinite integer (most negative value) before the truncation
        z3::expr f = fpTerm(a.args[0], v);
        z3::expr t(c, Z3_mk_fpa_to_sbv(c, rtz, f, 66));
        int iw = (sg ? w <= 32 : w <= 16) ? 32 : 64;
        if (!sg && w == 64) {   // in range only; out of range is left open
            z3::expr H(c, Z3_mk_fpa_numeral_double(c, (double)ldexpl(1, 64), srt(v))), L(c, Z3_mk_fpa_numeral_double(c, -0.5, srt(v)));
            z3::expr in = z3::expr(c, Z3_mk_fpa_lt(c, f, H)) && z3::expr(c, Z3_mk_fpa_geq(c, f, L));
            out = z3::implies(in, E[a.res] == t.extract(w - 1, 0));
            return true;
        }
        z3::expr H(c, Z3_mk_fpa_numeral_double(c, (double)ldexpl(1, iw - 1), srt(v))), L(c, Z3_mk_fpa_numeral_double(c, (double)-ldexpl(1, iw - 1), srt(v)));
        z3::expr in = z3::expr(c, Z3_mk_fpa_lt(c, f, H)) && z3::expr(c, Z3_mk_fpa_geq(c, f, L));
        out = E[a.res] == z3::ite(in, t.extract(w - 1, 0), iw > w ? c.bv_val(0, w) : z3::shl(c.bv_val(1, w), c.bv_val(w - 1, w)));
        return true;
    }
    if (sscanf(a.op.c_str(), "fcmp%d_%d", &op, &w) == 2 && (w == 32 || w == 64)) {
        z3::expr l = fpTerm(a.args[0], w), r = fpTerm(a.args[1], w);
        z3::expr un = z3::expr(c, Z3_mk_fpa_is_nan(c, l)) || z3::expr(c, Z3_mk_fpa_is_nan(c, r));
        z3::expr lt(c, Z3_mk_fpa_lt(c, l, r)), gt(c, Z3_mk_fpa_lt(c, r, l)), eq(c, Z3_mk_fpa_eq(c, l, r));
        z3::expr x = c.bool_val(false);   // FCmp predicates are bit sets: 1 eq, 2 gt, 4 lt, 8 unordered
        if (op & 1) x = x || eq;
        if (op & 2) x = x || gt;
        if (op & 4) x = x || lt;
        if (op & 8) x = x || un;
        out = E[a.res] == x;
        return true;
    }
    if (sscanf(a.op.c_str(), "f%d_%d", &op, &w) == 2 && (w == 32 || w == 64)) {
        z3::expr l = fpTerm(a.args[0], w), r = fpTerm(a.args[1], w), x(c);
        switch (op) {
            case Instruction::FAdd: x = z3::expr(c, Z3_mk_fpa_add(c, rne, l, r)); break;
            case Instruction::FSub: x = z3::expr(c, Z3_mk_fpa_sub(c, rne, l, r)); break;
            case Instruction::FMul: x = z3::expr(c, Z3_mk_fpa_mul(c, rne, l, r)); break;
            case Instruction::FDiv: x = z3::expr(c, Z3_mk_fpa_div(c, rne, l, r)); break;
            default: return false;
        }
        out = fpTerm(a.res, w) == x;
        return true;
    }
    if (a.op == "fneg") {
        w = E[a.res].get_sort().bv_size();
        out = E[a.res] == (E[a.args[0]] ^ z3::shl(Z->bv_val(1, w), Z->bv_val(w - 1, w)));
        return true;
    }
    return false;
}
static double fpTime = 0;
static z3::check_result fpRefine(const z3::expr &cond, std::shared_ptr<z3::model> &out) {
    z3::solver f(*Z);
    z3::params p(*Z);
    p.set("timeout", 20000u);
    f.set(p);
    for (auto &x : pcs) f.add(x.x);
    f.add(cond);
    for (auto &a : fpApps) {
        z3::expr d(*Z);
        if (fpDefine(a, d)) f.add(d);
    }
    double t = now();
    z3::check_result r = f.check();
    st.solver += now() - t;
    fpTime += now() - t;
    st.queries++;
    st.fpRefined++;
    if (r == z3::sat) { st.sat++; out = std::make_shared<z3::model>(f.get_model()); }
    else if (r == z3::unsat) { st.unsat++; st.fpRefuted++; }
    else st.unknown++;
    return r;
}
static int cexSeq = 0;
static std::unique_ptr<z3::expr> reportCond;    // what must hold besides the path condition for the report to be real
// Report; returns true when confirmed (path must end).
static bool report(const std::string &what, const z3::model &m) {
    std::string file = optCexDir + "/" + optName + "." + std::to_string(++cexSeq) + ".cex";
    std::string bt = backtrace();
    writeInputs(file, m, optName + " | " + what + " | at " + bt);
    std::string out;
    int r = runReplay(file, &out);
    if (r != 1 && !fpApps.empty() && fpTime < 45) {
        std::shared_ptr<z3::model> fm;
        z3::check_result fr = fpRefine(reportCond ? *reportCond : Z->bool_val(true), fm);
        if (fr == z3::sat) {
            writeInputs(file, *fm, optName + " | " + what + " | at " + bt);
            out.clear();
            r = runReplay(file, &out);
        } else if (fr == z3::unsat) {
            unlink(file.c_str());
            return false;       // excluded by IEEE arithmetic
        }
    }
    if (r == 1) {
        std::string first;
        size_t p = out.find("VP-VIOLATION");
        if (p == std::string::npos) p = out.find("ERROR: ");
        if (p == std::string::npos) p = out.find("runtime error");
        if (p != std::string::npos) first = out.substr(p, std::min<size_t>(200, out.find('\n', p) - p));
        if (!C->known.empty()) {
            for (auto &k : C->known) knownHits[k] = file + " | " + what + " | " + first;
            return true;
        }
        violations.push_back("{\"what\":\"" + esc(what) + "\",\"at\":\"" + esc(bt) + "\",\"file\":\"" + esc(file) + "\",\"native\":\"" + esc(first) + "\",\"inputs\":\"" + esc(describeInputs(m)) + "\"}");
        if ((int)violations.size() >= optMaxViol) stopAll = true;
        return true;
    }
    st.unconfirmed++;
    unconfirmedWhat[what + " at " + where() + (r == 2 ? " (replay: assumption failed)" : "")]++;
    if (unconfirmedWhat.size() > 5 || st.unconfirmed > 20) unlink(file.c_str());
    return false;
}
[[noreturn]] static void memErr(const std::string &what) {
    // feasible on current path under current model: report with current model
    report(what, *C->model);
    throw PathEnd();
}

// ---------------------------------------------------------------- memory ops
static ObjP allocObj(uint64_t size, OKind k, const std::string &name, bool zero) {
    ObjP o = std::make_shared<Obj>();
    o->base = C->nextAddr;
    o->size = size;
    o->kind = k;
    o->name = name;
    Byte ub;
    ub.e = zero ? -1 : -2;
    o->b.assign(size, ub);
    C->nextAddr += ((size + 15) & ~15ull) + 256;
    C->mem.push_back(o);
    return o;
}
static int findIdx(uint64_t a) {  // last object with base <= a
    int lo = 0, hi = (int)C->mem.size() - 1, r = -1;
    while (lo <= hi) {
        int m = (lo + hi) / 2;
        if (C->mem[m]->base <= a) { r = m; lo = m + 1; }
        else hi = m - 1;
    }
    return r;
}
static Obj *wr(int idx) {
    if (C->mem[idx].use_count() > 1) C->mem[idx] = std::make_shared<Obj>(*C->mem[idx]);
    return C->mem[idx].get();
}
static std::string hex64(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

// Resolve address (possibly symbolic) for an access of n bytes: returns obj idx and offset.
static void resolve(const Val &p, uint64_t n, bool write, int &idx, uint64_t &off) {
    uint64_t a;
    st.memChecks++;
    if (!p.sym()) {
        a = (uint64_t)p.c;
    } else {
        z3::expr x = E[p.e];
        a = (uint64_t)mevalC(x);
    }
    int i = findIdx(a);
    bool ok = i >= 0 && a - C->mem[i]->base <= C->mem[i]->size && n <= C->mem[i]->size - (a - C->mem[i]->base) && !(n == 0 && false);
    if (n == 0 && !p.sym()) { idx = i < 0 ? 0 : i; off = 0; return; }
    if (!ok) {
        std::string nm = i >= 0 ? C->mem[i]->name : std::string("?");
        memErr(std::string("memory: ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds" + (a < 0x10000 ? " (null page)" : "") + " near object " + nm);
    }
    if (C->mem[i]->freed) memErr(std::string("memory: use after free of ") + C->mem[i]->name);
    if (write && C->mem[i]->ro) memErr("memory: write to constant object");
    if (p.sym()) {
        z3::expr x = E[p.e];
        Obj *o = C->mem[i].get();
        // out-of-bounds side
        z3::expr inb = z3::uge(x, bvc(o->base, 64)) && z3::ule(x, bvc(o->base + o->size - n, 64));
        Val vb = fromExpr(inb, 1);
        st.memQueries++;
        decide(vb);  // model says in bounds -> returns true; alternative re-executes with another object or faults
        // enumerate the offsets
        z3::expr eq = (x == bvc(a, 64));
        Val ve = fromExpr(eq, 1);
        if (!decide(ve)) throw EngineErr{"resolve: model mismatch"};
    }
    idx = i;
    off = a - C->mem[i]->base;
}
// concretise an integer by forking over its feasible values
static u128 concretize(const Val &v) {
    if (!v.sym()) return v.c;
    z3::expr x = E[v.e];
    if (v.w == 1) return decide(v);
    u128 c = mevalC(x);
    Val ve = fromExpr(x == bvc(c, v.w), 1);
    if (!decide(ve)) throw EngineErr{"concretize: model mismatch"};
    return c;
}
static int freshBV(unsigned w, const std::string &tag) {
    st.symbols++;
    std::string nm = tag + "!" + std::to_string(C->symSeq++) + "!" + std::to_string(w);
    return intern(Z->bv_const(nm.c_str(), w));
}
static void materialize(int idx, uint64_t off) {
    Obj *o = wr(idx);
    int e = freshBV(8, "u");
    o->b[off].e = e;
    o->b[off].v = 0;
    UninitRec u;
    u.seq = o->seq;
    u.off = (uint32_t)off;
    u.e = e;
    C->uninit.push_back(u);
}
static Val loadBytes(int idx, uint64_t off, unsigned n, unsigned w) {
    for (unsigned i = 0; i < n; i++)
        if (C->mem[idx]->b[off + i].e == -2) materialize(idx, off + i);
    const std::vector<Byte> &b = C->mem[idx]->b;
    bool conc = true;
    for (unsigned i = 0; i < n; i++)
        if (b[off + i].e != -1) { conc = false; break; }
    if (conc) {
        u128 v = 0;
        for (unsigned i = 0; i < n && i < 16; i++) v |= (u128)b[off + i].v << (8 * i);
        return mkInt(w, v);
    }
    // all bytes of one expression in order?
    int e0 = b[off].e;
    if (e0 >= 0 && b[off].v == 0) {
        bool same = true;
        for (unsigned i = 0; i < n; i++)
            if (b[off + i].e != e0 || b[off + i].v != i) { same = false; break; }
        if (same) {
            unsigned ew = E[e0].get_sort().bv_size();
            if (ew == 8 * n && w == ew) {
                Val r;
                r.k = K_INT;
                r.w = w;
                r.e = e0;
                return r;
            }
            if (w == 1) return fromExpr(E[e0].extract(0, 0) == Z->bv_val(1, 1), 1);
            return fromExpr(E[e0].extract(std::min(w, 8 * n) - 1, 0), w);
        }
    }
    // group runs
    z3::expr acc(*Z);
    bool have = false;
    unsigned i = 0;
    while (i < n) {
        z3::expr part(*Z);
        unsigned j = i;
        if (b[off + i].e == -1) {
            u128 v = 0;
            while (j < n && b[off + j].e == -1 && j - i < 8) { v |= (u128)b[off + j].v << (8 * (j - i)); j++; }
            part = bvc(v, 8 * (j - i));
        } else {
            int e = b[off + i].e;
            unsigned v0 = b[off + i].v;
            while (j < n && b[off + j].e == e && b[off + j].v == v0 + (j - i)) j++;
            unsigned ew = E[e].get_sort().bv_size();
            if (v0 == 0 && ew == 8 * (j - i)) part = E[e];
            else part = E[e].extract(8 * (v0 + j - i) - 1, 8 * v0);
        }
        acc = have ? z3::concat(part, acc) : part;
        have = true;
        i = j;
    }
    if (w == 1) return fromExpr(acc.extract(0, 0) == Z->bv_val(1, 1), 1);
    if (w < 8 * n) acc = acc.extract(w - 1, 0);
    return fromExpr(acc, w);
}
static void storeBytes(int idx, uint64_t off, unsigned n, const Val &v) {
    Obj *o = wr(idx);
    if (!v.sym()) {
        for (unsigned i = 0; i < n; i++) {
            o->b[off + i].e = -1;
            o->b[off + i].v = i < 16 ? (uint8_t)(v.c >> (8 * i)) : 0;
        }
        return;
    }
    int e = v.e;
    if (v.w == 1) e = intern(z3::ite(E[e], Z->bv_val(1, 8 * n), Z->bv_val(0, 8 * n)));
    else if (v.w != 8 * n) e = intern(z3::zext(E[e], 8 * n - v.w));
    for (unsigned i = 0; i < n; i++) {
        o->b[off + i].e = e;
        o->b[off + i].v = i;
    }
}
static long double fpDecode(u128 bits, Type *t) {
    if (t->isFloatTy()) { float f; uint32_t b = (uint32_t)bits; memcpy(&f, &b, 4); return f; }
    if (t->isDoubleTy()) { double f; uint64_t b = (uint64_t)bits; memcpy(&f, &b, 8); return f; }
    long double f = 0;
    memcpy(&f, &bits, 10);
    return f;
}
static u128 fpEncode(long double v, Type *t) {
    if (t->isFloatTy()) { float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b; }
    if (t->isDoubleTy()) { double f = (double)v; uint64_t b; memcpy(&b, &f, 8); return b; }
    u128 r = 0;
    memcpy(&r, &v, 10);
    return r;
}
static unsigned fpW(Type *t) { return t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 80; }

static Val mkAgg(size_t n) {
    Val r;
    r.k = K_AGG;
    r.agg = std::make_shared<std::vector<Val>>(n);
    return r;
}
static Val zeroOf(Type *t) {
    if (t->isIntegerTy()) return mkInt(t->getIntegerBitWidth(), 0);
    if (t->isPointerTy()) return mkInt(64, 0);
    if (t->isFloatingPointTy()) return mkFP(0);
    if (auto *s = dyn_cast<StructType>(t)) {
        Val r = mkAgg(s->getNumElements());
        for (unsigned i = 0; i < s->getNumElements(); i++) (*r.agg)[i] = zeroOf(s->getElementType(i));
        return r;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) {
        Val r = mkAgg(a->getNumElements());
        for (unsigned i = 0; i < a->getNumElements(); i++) (*r.agg)[i] = zeroOf(a->getElementType());
        return r;
    }
    throw EngineErr{"zeroOf type"};
}
static Val load(const Val &p, Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) {
        Val r = mkAgg(s->getNumElements());
        const StructLayout *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) {
            Val q = mkInt(64, concretize(p) + sl->getElementOffset(i));
            (*r.agg)[i] = load(q, s->getElementType(i));
        }
        return r;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) {
        Val r = mkAgg(a->getNumElements());
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++) (*r.agg)[i] = load(mkInt(64, concretize(p) + es * i), a->getElementType());
        return r;
    }
    if (t->isVectorTy()) throw EngineErr{"vector load"};
    unsigned n = (unsigned)DL->getTypeStoreSize(t);
    int idx;
    uint64_t off;
    resolve(p, n, false, idx, off);
    if (t->isFloatingPointTy()) {
        unsigned w = fpW(t);
        if (w == 80) {
            n = 10;
        }
        Val v = loadBytes(idx, off, n, w);
        if (!v.sym()) return mkFP(fpDecode(v.c, t));
        v.k = K_FPS;
        return v;
    }
    unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    return loadBytes(idx, off, n, w);
}
static std::unordered_map<std::string, Val> ratStash;
static void store(const Val &p, const Val &v, Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) store(mkInt(64, concretize(p) + sl->getElementOffset(i)), (*v.agg)[i], s->getElementType(i));
        return;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++) store(mkInt(64, concretize(p) + es * i), (*v.agg)[i], a->getElementType());
        return;
    }
    if (t->isVectorTy()) throw EngineErr{"vector store"};
    unsigned n = (unsigned)DL->getTypeStoreSize(t);
    int idx;
    uint64_t off;
    resolve(p, n, true, idx, off);
    if (t->isFloatingPointTy()) {
        if (v.k == K_FPC) storeBytes(idx, off, n > 10 ? 10 : n, mkInt(fpW(t), fpEncode(v.f, t)));
        else if (v.k == K_FPS) { Val q = v; q.k = K_INT; storeBytes(idx, off, fpW(t) / 8, q); }
        else throw EngineErr{"store of rational long double"};
        return;
    }
    storeBytes(idx, off, n, v);
}
static void copyMem(const Val &d, const Val &s, const Val &nv) {
    uint64_t n = (uint64_t)concretize(nv);
    if (n == 0) return;
    int si, di;
    uint64_t so, dof;
    resolve(s, n, false, si, so);
    resolve(d, n, true, di, dof);
    for (uint64_t i = 0; i < n; i++)
        if (C->mem[si]->b[so + i].e == -2) materialize(si, so + i);
    std::vector<Byte> tmp(C->mem[si]->b.begin() + so, C->mem[si]->b.begin() + so + n);
    Obj *o = wr(di);
    std::copy(tmp.begin(), tmp.end(), o->b.begin() + dof);
}

// ---------------------------------------------------------------- FP uninterpreted apps
static int fpApp(const std::string &op, const std::vector<int> &args, unsigned w) {
    for (auto &a : fpApps)
        if (a.op == op && a.args == args) return a.res;
    st.fpHavoc++;
    z3::expr r(*Z);
    std::string nm = "fp!" + std::to_string(C->symSeq++);
    int id;
    if (w == 1) id = intern(Z->bool_const(nm.c_str()));
    else id = intern(Z->bv_const((nm + "!" + std::to_string(w)).c_str(), w));
    // congruence with previous applications
    z3::expr_vector cs(*Z);
    if (optFpCong) for (auto &a : fpApps)
        if (a.op == op && a.args.size() == args.size()) {
            z3::expr prem = Z->bool_val(true);
            for (size_t i = 0; i < args.size(); i++) prem = prem && (E[a.args[i]] == E[args[i]]);
            prem = prem.simplify();
            if (prem.is_false()) continue;
            cs.push_back(z3::implies(prem, E[a.res] == E[id]));
        }
    fpApps.push_back({op, args, id});
    if (cs.size()) {
        z3::expr all = z3::mk_and(cs);
        bool ok = mevalC(all) != 0;
        pushAdd(all);
        if (!ok) {
            syncS();
            if (check() != z3::sat) { st.killed++; throw PathEnd(); }
            C->model = std::make_shared<z3::model>(S->get_model());
        }
    }
    return id;
}
static int fpArg(const Val &v, Type *t) {
    if (v.k == K_FPC) return intern(bvc(fpEncode(v.f, t), fpW(t)));
    if (v.k == K_FPS) return v.e;
    if (v.k == K_RAT) throw EngineErr{"rational used in general fp op"};
    return intern(ex(v));
}
static Val fpsVal(int e, unsigned w) {
    Val r;
    r.k = K_FPS;
    r.w = w;
    r.e = e;
    return r;
}
// rationals for long double
static bool toRat(const Val &v, z3::expr &n, z3::expr &d) {
    if (v.k == K_RAT) { n = E[v.e]; d = E[v.e2]; return true; }
    if (v.k == K_FPC && v.f >= 0 && v.f < 1.8e19L && v.f == floorl(v.f)) {
        n = bvc((u128)v.f, 128);
        d = bvc(1, 128);
        return true;
    }
    return false;
}
static Val mkRat(const z3::expr &n, const z3::expr &d) {
    Val r;
    r.k = K_RAT;
    r.e = intern(n.simplify());
    r.e2 = intern(d.simplify());
    return r;
}

// ---------------------------------------------------------------- constants
static Val constVal(const Constant *c);
static Val evalConst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return mkInt(w, ci->getZExtValue());
        u128 v = ((u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0);
        return mkInt(w, v);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        u128 v = b.getRawData()[0];
        if (b.getBitWidth() > 64) v |= (u128)b.getRawData()[1] << 64;
        return mkFP(fpDecode(v, c->getType()));
    }
    if (isa<ConstantPointerNull>(c)) return mkInt(64, 0);
    if (isa<UndefValue>(c)) return zeroOf(c->getType());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (isa<GlobalValue>(c)) {
        auto it = gaddr.find(c);
        if (it == gaddr.end()) throw EngineErr{"unknown global " + c->getName().str()};
        return mkInt(64, it->second);
    }
    if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
        Val r = mkAgg(ca->getNumElements());
        for (unsigned i = 0; i < ca->getNumElements(); i++) (*r.agg)[i] = constVal(ca->getElementAsConstant(i));
        return r;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        Val r = mkAgg(c->getNumOperands());
        for (unsigned i = 0; i < c->getNumOperands(); i++) (*r.agg)[i] = constVal(cast<Constant>(c->getOperand(i)));
        return r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
                return mkInt(64, constVal(ce->getOperand(0)).c + off.getZExtValue());
            }
            case Instruction::BitCast:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr: {
                Val v = constVal(ce->getOperand(0));
                unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getIntegerBitWidth();
                return mkInt(w, v.c);
            }
            case Instruction::Sub: return mkInt(ce->getType()->getIntegerBitWidth(), constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
            case Instruction::Add: return mkInt(ce->getType()->getIntegerBitWidth(), constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
            default: break;
        }
    }
    throw EngineErr{"constant kind"};
}
static Val constVal(const Constant *c) {
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    Val v = evalConst(c);
    constCache[c] = v;
    return v;
}
static FnInfo *info(const Function *f) {
    auto &p = fns[f];
    if (!p) {
        p.reset(new FnInfo);
        p->f = f;
        for (auto &a : f->args()) p->reg[&a] = p->nregs++;
        for (auto &bb : *f)
            for (auto &i : bb)
                if (!i.getType()->isVoidTy()) p->reg[&i] = p->nregs++;
        if (DISubprogram *sp = f->getSubprogram()) {
            std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
            p->repo = fn.find("/harness/") == std::string::npos && fn.find("/engine/") == std::string::npos;
        }
    }
    return p.get();
}
static Val get(const llvm::Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    Frame &f = C->st.back();
    auto it = f.fi->reg.find(v);
    if (it == f.fi->reg.end()) throw EngineErr{"no register"};
    return f.regs[it->second];
}
static void set(const Instruction *i, const Val &v) {
    Frame &f = C->st.back();
    f.regs[f.fi->reg[i]] = v;
}

// ---------------------------------------------------------------- int ops
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w);
static Val binop(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (!a.sym() && !b.sym()) {
        u128 x = a.c, y = b.c;
        switch (op) {
            case Instruction::Add: return mkInt(w, x + y);
            case Instruction::Sub: return mkInt(w, x - y);
            case Instruction::Mul: return mkInt(w, x * y);
            case Instruction::UDiv: return mkInt(w, x / y);
            case Instruction::URem: return mkInt(w, x % y);
            case Instruction::SDiv: return mkInt(w, (u128)(sx(x, w) / sx(y, w)));
            case Instruction::SRem: return mkInt(w, (u128)(sx(x, w) % sx(y, w)));
            case Instruction::And: return mkInt(w, x & y);
            case Instruction::Or: return mkInt(w, x | y);
            case Instruction::Xor: return mkInt(w, x ^ y);
            // x86 semantics for oversized shifts (count masked to 5/6 bits), as compiled code behaves
            case Instruction::Shl: { unsigned s = (unsigned)y & (w == 64 ? 63 : w > 64 ? 127 : 31); return mkInt(w, s >= w ? 0 : x << s); }
            case Instruction::LShr: { unsigned s = (unsigned)y & (w == 64 ? 63 : w > 64 ? 127 : 31); return mkInt(w, s >= w ? 0 : x >> s); }
            case Instruction::AShr: { unsigned s = (unsigned)y & (w == 64 ? 63 : w > 64 ? 127 : 31); return mkInt(w, (u128)(sx(x, w) >> (s >= w ? w - 1 : s))); }
        }
        throw EngineErr{"binop"};
    }
    if (w > 1 && op != Instruction::UDiv && op != Instruction::SDiv && op != Instruction::URem && op != Instruction::SRem) {
        Val o;
        if (fvBin(a, b, w, [&](u128 p, u128 q) { return binop(op, mkInt(w, p), mkInt(w, q), w).c; }, o)) return o;
    }
    if (w == 1) {
        z3::expr x = ex(a), y = ex(b);
        switch (op) {
            case Instruction::And: case Instruction::Mul: return fromExpr(x && y, 1);
            case Instruction::Or: return fromExpr(x || y, 1);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromExpr(x != y, 1);
        }
        throw EngineErr{"binop i1"};
    }
    z3::expr x = ex(a), y = ex(b);
    switch (op) {
        case Instruction::Add: return fromExpr(x + y, w);
        case Instruction::Sub: return fromExpr(x - y, w);
        case Instruction::Mul: return fromExpr(x * y, w);
        case Instruction::UDiv: return fromExpr(z3::udiv(x, y), w);
        case Instruction::URem: return fromExpr(z3::urem(x, y), w);
        case Instruction::SDiv: return fromExpr(x / y, w);
        case Instruction::SRem: return fromExpr(z3::srem(x, y), w);
        case Instruction::And: return fromExpr(x & y, w);
        case Instruction::Or: return fromExpr(x | y, w);
        case Instruction::Xor: return fromExpr(x ^ y, w);
        case Instruction::Shl: return fromExpr(z3::shl(x, (w == 32 || w == 64) ? (y & bvc(w - 1, w)) : y), w);
        case Instruction::LShr: return fromExpr(z3::lshr(x, (w == 32 || w == 64) ? (y & bvc(w - 1, w)) : y), w);
        case Instruction::AShr: return fromExpr(z3::ashr(x, (w == 32 || w == 64) ? (y & bvc(w - 1, w)) : y), w);
    }
    throw EngineErr{"binop"};
}
// contains a product with a constant that is not a power of two
static bool mulLike(const z3::expr &x, int depth = 0) {
    if (!x.is_app() || depth > 5) return false;
    if (x.decl().decl_kind() == Z3_OP_BMUL) return true;
    for (unsigned i = 0; i < x.num_args(); i++) if (x.arg(i).is_bv() && mulLike(x.arg(i), depth + 1)) return true;
    return false;
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w) {
    if (!a.sym() && !b.sym()) {
        u128 x = a.c, y = b.c;
        s128 sxv = sx(x, w), syv = sx(y, w);
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sxv > syv; break;
            case CmpInst::ICMP_SGE: r = sxv >= syv; break;
            case CmpInst::ICMP_SLT: r = sxv < syv; break;
            case CmpInst::ICMP_SLE: r = sxv <= syv; break;
            default: throw EngineErr{"icmp"};
        }
        return mkInt(1, r);
    }
    if (w > 1) {
        Val o;
        if (fvBin(a, b, 1, [&](u128 p2, u128 q2) { return icmp(p, mkInt(w, p2), mkInt(w, q2), w).c; }, o)) return o;
    }
    z3::expr x = ex(a), y = ex(b);
    if (w == 1) {
        z3::expr X = z3::ite(x, Z->bv_val(1, 1), Z->bv_val(0, 1)), Y = z3::ite(y, Z->bv_val(1, 1), Z->bv_val(0, 1));
        x = X;
        y = Y;
    }
    // the rewriter would turn an equality of products into a modular inverse: keep it an order fact
    if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && w >= 48 && a.sym() && b.sym() && (mulLike(x) || mulLike(y))) {
        z3::expr e = z3::ule(x, y) && z3::ule(y, x);
        return fromExpr(p == CmpInst::ICMP_EQ ? e : !e, 1);
    }
    switch (p) {
        case CmpInst::ICMP_EQ: return fromExpr(x == y, 1);
        case CmpInst::ICMP_NE: return fromExpr(x != y, 1);
        case CmpInst::ICMP_UGT: return fromExpr(z3::ugt(x, y), 1);
        case CmpInst::ICMP_UGE: return fromExpr(z3::uge(x, y), 1);
        case CmpInst::ICMP_ULT: return fromExpr(z3::ult(x, y), 1);
        case CmpInst::ICMP_ULE: return fromExpr(z3::ule(x, y), 1);
        case CmpInst::ICMP_SGT: return fromExpr(x > y, 1);
        case CmpInst::ICMP_SGE: return fromExpr(x >= y, 1);
        case CmpInst::ICMP_SLT: return fromExpr(x < y, 1);
        case CmpInst::ICMP_SLE: return fromExpr(x <= y, 1);
        default: throw EngineErr{"icmp"};
    }
}
static unsigned tw(Type *t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
static Val zextV(const Val &v, unsigned w) {
    if (!v.sym()) return mkInt(w, v.c);
    { Val o; if (fvUn(v, w, [](u128 p) { return p; }, o)) return o; }
    if (v.w == 1) return fromExpr(z3::ite(E[v.e], bvc(1, w), bvc(0, w)), w);
    return fromExpr(z3::zext(E[v.e], w - v.w), w);
}
static Val sextV(const Val &v, unsigned w) {
    if (!v.sym()) return mkInt(w, (u128)sx(v.c, v.w));
    { Val o; unsigned vw = v.w; if (fvUn(v, w, [vw](u128 p) { return (u128)sx(p, vw); }, o)) return o; }
    if (v.w == 1) return fromExpr(z3::ite(E[v.e], bvc(mask(w), w), bvc(0, w)), w);
    z3::expr x = E[v.e];
    return fromExpr(z3::ite(z3::uge(x, bvc((u128)1 << (v.w - 1), v.w)), z3::concat(bvc(mask(w - v.w), w - v.w), x), z3::concat(bvc(0, w - v.w), x)), w);
}
static Val truncV(const Val &v, unsigned w) {
    if (!v.sym()) return mkInt(w, v.c);
    { Val o; if (fvUn(v, w, [](u128 p) { return p; }, o)) return o; }
    if (w == 1) return fromExpr(E[v.e].extract(0, 0) == Z->bv_val(1, 1), 1);
    return fromExpr(E[v.e].extract(w - 1, 0), w);
}
static Val selectV(const Val &c, const Val &a, const Val &b, Type *t) {
    if (!c.sym()) return (c.c & 1) ? a : b;
    auto it = decided.find(c.e);
    if (it != decided.end()) return it->second ? a : b;
    if (t->isIntegerTy() || t->isPointerTy()) {
        if (!a.sym() && !b.sym() && a.c == b.c) return a;
        FV x, y;
        if (tw(t) > 1 && fvOf(a, x) && fvOf(b, y) && x.size() + y.size() <= 8) {
            std::map<u128, std::vector<z3::expr>> m;
            z3::expr ce = E[c.e];
            for (auto &p : x) m[p.first].push_back((ce && gx(p.second)).simplify());
            for (auto &p : y) m[p.first].push_back((!ce && gx(p.second)).simplify());
            return fvMake(tw(t), m);
        }
        return fromExpr(z3::ite(E[c.e], ex(a), ex(b)), tw(t));
    }
    return decide(c) ? a : b;
}

// ---------------------------------------------------------------- validation
static uint64_t pathNo = 0;
static void validatePath() {
    // run the natively compiled program on this path's model and compare observations
    std::string file = optCexDir + "/" + optName + ".val";
    writeInputs(file, *C->model, optName + " validation");
    std::string out;
    int r = runReplay(file, &out);
    std::string expect, got;
    for (auto &o : C->obs) {
        u128 v = 0;
        if (o.v.sym()) numeral(C->model->eval(E[o.v.e], true), v);
        else v = o.v.c;
        char b[200];
        snprintf(b, sizeof b, "VP-OBS %s %llx\n", o.tag.c_str(), (unsigned long long)(uint64_t)v);
        expect += b;
    }
    size_t p = 0;
    while (p < out.size()) {
        size_t q = out.find('\n', p);
        if (q == std::string::npos) q = out.size();
        if (out.compare(p, 7, "VP-OBS ") == 0) got += out.substr(p, q - p) + "\n";
        p = q + 1;
    }
    st.validated++;
    bool fpDep = !fpApps.empty();
    if (r == 1) {
        // native run found something on a path symx believes clean: this is a real violation of the real code
        std::string first = out.substr(0, 300);
        size_t pp = out.find("VP-VIOLATION");
        if (pp == std::string::npos) pp = out.find("ERROR: ");
        if (pp == std::string::npos) pp = out.find("runtime error");
        if (pp != std::string::npos) first = out.substr(pp, 200);
        std::string keep = optCexDir + "/" + optName + "." + std::to_string(++cexSeq) + ".cex";
        rename(file.c_str(), keep.c_str());
        if (!C->known.empty()) { for (auto &k : C->known) knownHits[k] = keep + " | native | " + first; return; }
        violations.push_back("{\"what\":\"native execution of a solver model fails\",\"at\":\"\",\"file\":\"" + esc(keep) + "\",\"native\":\"" + esc(first) + "\",\"inputs\":\"" + esc(describeInputs(*C->model)) + "\"}");
        if ((int)violations.size() >= optMaxViol) stopAll = true;
    } else if (r == 0 && expect != got) {
        if (fpDep) return;  // model contains over-approximated floating point choices
        st.validationMismatch++;
        if (optVerbose) fprintf(stderr, "MISMATCH %s\nexpect:\n%s\ngot:\n%s\n", file.c_str(), expect.c_str(), got.c_str());
    }
    if (samples.size() < 3) samples.push_back("\"" + esc(describeInputs(*C->model)) + "\"");
}
static void endPath(bool complete) {
    if (complete) {
        st.paths++;
        pathNo++;
        bool doit = st.validated < (uint64_t)optValidate && ((pathNo & (pathNo - 1)) == 0 || pathNo <= 3);
        if (doit && !optReplay.empty()) validatePath();
    }
    throw PathEnd();
}

// ---------------------------------------------------------------- calls
static std::string cstr(const Val &p) {
    uint64_t a = (uint64_t)concretize(p);
    std::string r;
    int i = findIdx(a);
    if (i < 0) return r;
    uint64_t off = a - C->mem[i]->base;
    while (off < C->mem[i]->size && C->mem[i]->b[off].e == -1 && C->mem[i]->b[off].v) r += (char)C->mem[i]->b[off++].v;
    return r;
}
static void doAssert(const Val &c, const std::string &msg) {
    st.asserts++;
    assertSites[msg]++;
    if (!c.sym()) {
        if (c.c & 1) return;
        report("assert: " + msg, *C->model);
        throw PathEnd();
    }
    auto it = decided.find(c.e);
    if (it != decided.end() && it->second) return;
    z3::expr x = E[c.e];
    st.assertQueries++;
    reportCond = std::make_unique<z3::expr>(x.is_bool() ? !x : x == Z->bv_val(0, x.get_sort().bv_size()));
    struct Clr { ~Clr() { reportCond.reset(); } } clr;
    if (mevalC(x) == 0) {
        report("assert: " + msg, *C->model);
    } else {
        std::shared_ptr<z3::model> om;
        inAssert = true;        // property assertions are always decided by the solver
        z3::check_result r = satWith(!x, &om);
        inAssert = false;
        if (r == z3::unknown) { st.limits++; errorsSeen.insert("solver unknown at assert " + msg); }
        if (r == z3::unsat) { remember(c.e, true); return; }
        if (r == z3::sat) report("assert: " + msg, *om);
    }
    if (stopAll) throw PathEnd();
    // continue on the part where it holds
    std::shared_ptr<z3::model> om;
    if (satWith(x, &om) != z3::sat) throw PathEnd();
    pushAdd(x);
    C->model = om;
    remember(c.e, true);
}
static Val i1FromInt(const Val &v) {
    if (v.w == 1) return v;
    return icmp(CmpInst::ICMP_NE, v, mkInt(v.w, 0), v.w);
}
static void pushFrame(const Function *f, const std::vector<Val> &args, const Instruction *cs) {
    if (C->st.size() > 200) memErr("stack overflow (recursion)");
    FnInfo *fi = info(f);
    Frame fr;
    fr.fi = fi;
    fr.regs.resize(fi->nregs);
    unsigned i = 0;
    for (auto &a : f->args()) {
        if (i < args.size()) {
            Val v = args[i];
            if (a.hasByValAttr()) {
                Type *t = a.getParamByValType();
                uint64_t sz = DL->getTypeAllocSize(t);
                ObjP o = allocObj(sz, O_STACK, "byval", false);
                Val d = mkInt(64, o->base);
                copyMem(d, v, mkInt(64, sz));
                fr.allocas.push_back(o->base);
                v = d;
            }
            fr.regs[fi->reg[&a]] = v;
        }
        i++;
    }
    fr.bb = &f->getEntryBlock();
    fr.pc = fr.bb->begin();
    fr.callsite = cs;
    if (fi->repo) {
        fnHits[f->getName().str()]++;
        bbHit.insert(fr.bb);
    }
    C->st.push_back(std::move(fr));
}
static uint64_t liveHeap() {
    uint64_t n = 0;
    for (auto &o : C->mem)
        if (o->kind == O_HEAP && !o->freed) n++;
    return n;
}
static Val doMalloc(uint64_t n, bool zero) {
    ObjP o = allocObj(n, O_HEAP, "malloc#" + std::to_string(C->mallocSeq) + "(" + std::to_string(n) + ")@" + where(), zero);
    o->seq = C->mallocSeq++;
    return mkInt(64, o->base);
}
static void doFree(const Val &p) {
    uint64_t a = (uint64_t)concretize(p);
    if (!a) return;
    int i = findIdx(a);
    if (i < 0 || C->mem[i]->base != a || C->mem[i]->kind != O_HEAP) memErr("memory: invalid free");
    if (C->mem[i]->freed) memErr("memory: double free of " + C->mem[i]->name);
    wr(i)->freed = true;
}
static Val memcmpV(const Val &a, const Val &b, const Val &nv) {
    uint64_t n = (uint64_t)concretize(nv);
    if (n == 0) return mkInt(32, 0);
    int ai, bi;
    uint64_t ao, bo;
    resolve(a, n, false, ai, ao);
    resolve(b, n, false, bi, bo);
    Val res = mkInt(32, 0);
    for (uint64_t i = n; i-- > 0;) {
        Val x = loadBytes(ai, ao + i, 1, 8), y = loadBytes(bi, bo + i, 1, 8);
        Val d = binop(Instruction::Sub, zextV(x, 32), zextV(y, 32), 32);
        Val eq = icmp(CmpInst::ICMP_EQ, x, y, 8);
        if (!eq.sym()) res = eq.c ? res : d;
        else res = fromExpr(z3::ite(E[eq.e], ex(res), ex(d)), 32);
    }
    return res;
}
static void setMem(const Val &p, const Val &v0, const Val &nv) {
    uint64_t sz = (uint64_t)concretize(nv);
    if (!sz) return;
    Val v = v0.w > 8 ? truncV(v0, 8) : v0;
    int i;
    uint64_t off;
    resolve(p, sz, true, i, off);
    Obj *o = wr(i);
    for (uint64_t k = 0; k < sz; k++) {
        if (v.sym()) { o->b[off + k].e = v.e; o->b[off + k].v = 0; }
        else { o->b[off + k].e = -1; o->b[off + k].v = (uint8_t)v.c; }
    }
}

// returns true if handled (result in *out)
static bool builtin(const CallBase *cb, const Function *f, std::vector<Val> &a, Val *out, bool &hasOut) {
    std::string n = f->getName().str();
    hasOut = !cb->getType()->isVoidTy();
    auto intRet = [&](u128 v) { if (hasOut) *out = mkInt(tw(cb->getType()), v); return true; };
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
            case Intrinsic::memcpy:
            case Intrinsic::memmove: copyMem(a[0], a[1], a[2]); return true;
            case Intrinsic::memset: setMem(a[0], a[1], a[2]); return true;
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
            case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: return true;
            case Intrinsic::stacksave: *out = mkInt(64, 0); return true;
            case Intrinsic::umax: *out = selectV(icmp(CmpInst::ICMP_UGT, a[0], a[1], a[0].w), a[0], a[1], cb->getType()); return true;
            case Intrinsic::umin: *out = selectV(icmp(CmpInst::ICMP_ULT, a[0], a[1], a[0].w), a[0], a[1], cb->getType()); return true;
            case Intrinsic::smax: *out = selectV(icmp(CmpInst::ICMP_SGT, a[0], a[1], a[0].w), a[0], a[1], cb->getType()); return true;
            case Intrinsic::smin: *out = selectV(icmp(CmpInst::ICMP_SLT, a[0], a[1], a[0].w), a[0], a[1], cb->getType()); return true;
            case Intrinsic::abs: {
                Val z = mkInt(a[0].w, 0);
                *out = selectV(icmp(CmpInst::ICMP_SLT, a[0], z, a[0].w), binop(Instruction::Sub, z, a[0], a[0].w), a[0], cb->getType());
                return true;
            }
            case Intrinsic::expect: *out = a[0]; return true;
            case Intrinsic::fmuladd: {
                Type *t = cb->getType();
                if (a[0].k == K_FPC && a[1].k == K_FPC && a[2].k == K_FPC) {
                    long double r = t->isFloatTy() ? (float)((float)((float)a[0].f * (float)a[1].f) + (float)a[2].f) : (double)((double)((double)a[0].f * (double)a[1].f) + (double)a[2].f);
                    *out = mkFP(r);
                } else *out = fpsVal(fpApp("fma", {fpArg(a[0], t), fpArg(a[1], t), fpArg(a[2], t)}, fpW(t)), fpW(t));
                return true;
            }
            case Intrinsic::trap: memErr("trap executed");
            default: throw EngineErr{"intrinsic " + n};
        }
    }
    if (n == "vp_sym") {
        unsigned bytes = (unsigned)concretize(a[1]);
        int e = freshBV(8 * bytes, "in_" + cstr(a[0]));
        InRec r{true, bytes, e, 0};
        C->inputs.push_back(r);
        Val v;
        v.k = K_INT; v.w = 8 * bytes; v.e = e;
        *out = bytes == 8 ? v : zextV(v, 64);
        return true;
    }
    if (n == "vp_sym_bytes") {
        uint64_t sz = (uint64_t)concretize(a[1]);
        int i; uint64_t off;
        if (!sz) return true;
        resolve(a[0], sz, true, i, off);
        uint64_t k = 0;
        while (k < sz) {   // chunks of up to 8 bytes
            unsigned cb2 = (unsigned)std::min<uint64_t>(8, sz - k);
            int e = freshBV(8 * cb2, "in_" + cstr(a[2]));
            InRec r{true, cb2, e, 0};
            C->inputs.push_back(r);
            Val v; v.k = K_INT; v.w = 8 * cb2; v.e = e;
            storeBytes(i, off + k, cb2, v);
            k += cb2;
        }
        return true;
    }
    if (n == "vp_choice") {
        // fork concretely over 0..n-1 (alternative re-executes with the next value)
        int total = (int)concretize(a[0]);
        if (total <= 0) { st.killed++; throw PathEnd(); }
        int cur = C->choiceNext;
        C->choiceNext = 0;
        if (cur + 1 < total) {
            int keep = C->choiceNext;
            C->choiceNext = cur + 1;
            pushAlt(-1, true, C->model);
            C->choiceNext = keep;
            pushEmpty();
        }
        InRec r{false, 4, -1, (uint64_t)cur};
        C->inputs.push_back(r);
        *out = mkInt(32, cur);
        return true;
    }
    if (n == "vp_assume") { assumeTrue(i1FromInt(a[0])); return true; }
    if (n == "vp_assert") { doAssert(i1FromInt(a[0]), cstr(a[1])); return true; }
    if (n == "vp_reach") { reached[cstr(a[0])]++; return true; }
    if (n == "vp_known") { C->known.push_back(cstr(a[0])); return true; }
    if (n == "vp_unknown") { std::string k = cstr(a[0]); std::vector<std::string> r; for (auto &x : C->known) if (x != k) r.push_back(x); C->known = r; return true; }
    if (n == "vp_observe") { C->obs.push_back({cstr(a[0]), a[1]}); return true; }
    if (n == "vp_concretize") { *out = mkInt(64, concretize(a[0])); return true; }
    if (n == "vp_symbolic_mode") return intRet(1);
    if (n == "vp_live_allocs") return intRet(liveHeap());
    if (n == "vp_done") { endPath(true); return true; }
    if (n == "vp_is_true") { *out = mkInt(32, decide(i1FromInt(a[0]))); return true; }
    if (n == "vp_must") {  // 1 when the condition holds for every value on this path
        Val c = i1FromInt(a[0]);
        if (!c.sym()) return intRet(c.c & 1);
        if (mevalC(E[c.e]) == 0) return intRet(0);
        return intRet(satWith(!E[c.e], nullptr) == z3::unsat);
    }
    if (n == "malloc") { *out = doMalloc((uint64_t)concretize(a[0]), false); return true; }
    if (n == "calloc") { uint64_t x = (uint64_t)concretize(a[0]), y = (uint64_t)concretize(a[1]); *out = doMalloc(x * y, true); return true; }
    if (n == "realloc") {
        uint64_t p = (uint64_t)concretize(a[0]), sz = (uint64_t)concretize(a[1]);
        Val r = doMalloc(sz, false);
        if (p) {
            int i = findIdx(p);
            if (i < 0 || C->mem[i]->base != p || C->mem[i]->freed || C->mem[i]->kind != O_HEAP) memErr("memory: invalid realloc");
            copyMem(r, a[0], mkInt(64, std::min(sz, C->mem[i]->size)));
            doFree(mkInt(64, p));
        }
        *out = r;
        return true;
    }
    if (n == "free") { doFree(a[0]); return true; }
    if (n == "memcmp" || n == "bcmp") { *out = memcmpV(a[0], a[1], a[2]); return true; }
    if (n == "memcpy" || n == "memmove") { copyMem(a[0], a[1], a[2]); *out = a[0]; return true; }
    if (n == "memset") { setMem(a[0], a[1], a[2]); *out = a[0]; return true; }
    if (n == "strlen") {
        uint64_t p = (uint64_t)concretize(a[0]), k = 0;
        for (;; k++) {
            Val c = load(mkInt(64, p + k), Type::getInt8Ty(M->getContext()));
            if (concretize(c) == 0) break;
        }
        return intRet(k);
    }
    if (n == "strcmp") {
        uint64_t p = (uint64_t)concretize(a[0]), q = (uint64_t)concretize(a[1]);
        for (uint64_t k = 0;; k++) {
            int x = (int)concretize(load(mkInt(64, p + k), Type::getInt8Ty(M->getContext()))), y = (int)concretize(load(mkInt(64, q + k), Type::getInt8Ty(M->getContext())));
            if (x != y || !x) return intRet((u128)(s128)(x - y));
        }
    }
    if (n == "strcpy") {
        uint64_t p = (uint64_t)concretize(a[0]), q = (uint64_t)concretize(a[1]);
        for (uint64_t k = 0;; k++) {
            Val c = load(mkInt(64, q + k), Type::getInt8Ty(M->getContext()));
            store(mkInt(64, p + k), c, Type::getInt8Ty(M->getContext()));
            if (concretize(c) == 0) break;
        }
        *out = a[0];
        return true;
    }
    if (n == "abs") {
        Val z = mkInt(32, 0);
        *out = selectV(icmp(CmpInst::ICMP_SLT, a[0], z, 32), binop(Instruction::Sub, z, a[0], 32), a[0], cb->getType());
        return true;
    }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "perror" || n == "fputs" || n == "fputc") return intRet(0);
    if (n == "abort" || n == "__assert_fail") memErr("abort called");
    if (n == "exit") { endPath(true); return true; }
    throw EngineErr{"external function " + n};
}

// ---------------------------------------------------------------- interpreter
static void jump(const BasicBlock *to) {
    Frame &f = C->st.back();
    f.prev = f.bb;
    f.bb = to;
    f.pc = to->begin();
    // phis in parallel
    std::vector<std::pair<const PHINode *, Val>> ph;
    while (auto *p = dyn_cast<PHINode>(&*f.pc)) {
        ph.push_back({p, get(p->getIncomingValueForBlock(f.prev))});
        ++f.pc;
    }
    for (auto &x : ph) set(x.first, x.second);
    if (f.fi->repo) bbHit.insert(to);
}
static long double fpRound(long double v, Type *t) { return t->isFloatTy() ? (float)v : t->isDoubleTy() ? (double)v : v; }

static void step() {
    Frame &f = C->st.back();
    const Instruction *I = &*f.pc;
    C->steps++;
    st.steps++;
    switch (I->getOpcode()) {
        case Instruction::Ret: {
            auto *r = cast<ReturnInst>(I);
            Val v;
            bool has = r->getReturnValue() != nullptr;
            if (has) v = get(r->getReturnValue());
            for (uint64_t a : f.allocas) {
                int i = findIdx(a);
                if (i >= 0 && C->mem[i]->base == a) C->mem.erase(C->mem.begin() + i);
            }
            const Instruction *cs = f.callsite;
            C->st.pop_back();
            if (C->st.empty()) endPath(true);
            if (has && cs && !cs->getType()->isVoidTy()) set(cs, v);
            ++C->st.back().pc;
            return;
        }
        case Instruction::Br: {
            auto *b = cast<BranchInst>(I);
            if (b->isUnconditional()) { jump(b->getSuccessor(0)); return; }
            bool t = decide(get(b->getCondition()));
            jump(b->getSuccessor(t ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto *s = cast<SwitchInst>(I);
            Val v = get(s->getCondition());
            for (auto &c : s->cases()) {
                if (decide(icmp(CmpInst::ICMP_EQ, v, constVal(c.getCaseValue()), v.w))) { jump(c.getCaseSuccessor()); return; }
            }
            jump(s->getDefaultDest());
            return;
        }
        case Instruction::Unreachable: memErr("unreachable executed (undefined behaviour, e.g. missing return)");
        case Instruction::Alloca: {
            auto *a = cast<AllocaInst>(I);
            uint64_t n = (uint64_t)concretize(get(a->getArraySize()));
            uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()) * n;
            ObjP o = allocObj(sz, O_STACK, "alloca " + I->getName().str() + " in " + f.fi->f->getName().str(), false);
            C->st.back().allocas.push_back(o->base);
            set(I, mkInt(64, o->base));
            break;
        }
        case Instruction::Load: set(I, load(get(I->getOperand(0)), I->getType())); break;
        case Instruction::Store: store(get(I->getOperand(1)), get(I->getOperand(0)), I->getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: {
            Val p = get(I->getOperand(0));
            if (I->getType()->isVectorTy()) throw EngineErr{"vector gep"};
            int64_t off = 0;
            for (auto gti = gep_type_begin(I), ge = gep_type_end(I); gti != ge; ++gti) {
                const llvm::Value *ix = gti.getOperand();
                if (StructType *s = gti.getStructTypeOrNull()) {
                    off += DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
                } else {
                    uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
                    Val iv = get(ix);
                    if (!iv.sym()) off += (int64_t)sx(iv.c, iv.w) * (int64_t)es;
                    else {
                        Val x = iv.w < 64 ? sextV(iv, 64) : iv.w > 64 ? truncV(iv, 64) : iv;
                        p = binop(Instruction::Add, p, binop(Instruction::Mul, x, mkInt(64, es), 64), 64);
                    }
                }
            }
            if (off) p = binop(Instruction::Add, p, mkInt(64, (u128)(s128)off), 64);
            set(I, p);
            break;
        }
        case Instruction::ICmp: {
            auto *c = cast<ICmpInst>(I);
            set(I, icmp(c->getPredicate(), get(c->getOperand(0)), get(c->getOperand(1)), tw(c->getOperand(0)->getType())));
            break;
        }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            Val d = get(I->getOperand(1));
            unsigned w = tw(I->getType());
            if (!d.sym()) { if (d.c == 0) memErr("division by zero"); }
            else if (decide(icmp(CmpInst::ICMP_EQ, d, mkInt(w, 0), w))) memErr("division by zero");
            set(I, binop(I->getOpcode(), get(I->getOperand(0)), d, w));
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            set(I, binop(I->getOpcode(), get(I->getOperand(0)), get(I->getOperand(1)), tw(I->getType())));
            break;
        case Instruction::ZExt: set(I, zextV(get(I->getOperand(0)), tw(I->getType()))); break;
        case Instruction::SExt: set(I, sextV(get(I->getOperand(0)), tw(I->getType()))); break;
        case Instruction::Trunc: set(I, truncV(get(I->getOperand(0)), tw(I->getType()))); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = get(I->getOperand(0));
            unsigned w = tw(I->getType());
            set(I, v.w == w ? v : v.w < w ? zextV(v, w) : truncV(v, w));
            break;
        }
        case Instruction::BitCast: {
            Val v = get(I->getOperand(0));
            Type *ft = I->getOperand(0)->getType(), *tt = I->getType();
            if (ft->isFloatingPointTy() && tt->isIntegerTy()) {
                if (v.k == K_FPC) v = mkInt(fpW(ft), fpEncode(v.f, ft));
                else v.k = K_INT;
            } else if (ft->isIntegerTy() && tt->isFloatingPointTy()) {
                if (!v.sym()) v = mkFP(fpDecode(v.c, tt));
                else v.k = K_FPS;
            }
            set(I, v);
            break;
        }
        case Instruction::Freeze: set(I, get(I->getOperand(0))); break;
        case Instruction::Select: set(I, selectV(get(I->getOperand(0)), get(I->getOperand(1)), get(I->getOperand(2)), I->getType())); break;
        case Instruction::PHI: throw EngineErr{"stray phi"};
        case Instruction::ExtractValue: {
            Val v = get(I->getOperand(0));
            for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[ix]; v = t; }
            set(I, v);
            break;
        }
        case Instruction::InsertValue: {
            auto *iv = cast<InsertValueInst>(I);
            Val v = get(I->getOperand(0));
            if (iv->getNumIndices() != 1) throw EngineErr{"nested insertvalue"};
            Val r = v;
            r.agg = std::make_shared<std::vector<Val>>(*v.agg);
            (*r.agg)[iv->getIndices()[0]] = get(I->getOperand(1));
            set(I, r);
            break;
        }
        case Instruction::FNeg: {
            Val a = get(I->getOperand(0));
            Type *t = I->getType();
            if (a.k == K_FPC) set(I, mkFP(-a.f));
            else set(I, fpsVal(fpApp("fneg", {fpArg(a, t)}, fpW(t)), fpW(t)));
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Val a = get(I->getOperand(0)), b = get(I->getOperand(1));
            Type *t = I->getType();
            unsigned op = I->getOpcode();
            if (a.k == K_FPC && b.k == K_FPC) {
                long double r = 0;
                if (t->isFloatTy()) {
                    float x = (float)a.f, y = (float)b.f;
                    r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
                } else if (t->isDoubleTy()) {
                    double x = (double)a.f, y = (double)b.f;
                    r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
                } else {
                    long double x = a.f, y = b.f;
                    r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
                }
                set(I, mkFP(fpRound(r, t)));
                break;
            }
            if (t->isX86_FP80Ty()) {
                z3::expr n1(*Z), d1(*Z), n2(*Z), d2(*Z);
                if (!toRat(a, n1, d1) || !toRat(b, n2, d2)) throw EngineErr{"long double op"};
                if (op == Instruction::FDiv) { set(I, mkRat(n1 * d2, d1 * n2)); break; }
                if (op == Instruction::FMul) { set(I, mkRat(n1 * n2, d1 * d2)); break; }
                if (op == Instruction::FAdd) { set(I, mkRat(n1 * d2 + n2 * d1, d1 * d2)); break; }
                throw EngineErr{"long double subtraction"};
            }
            set(I, fpsVal(fpApp("f" + std::to_string(op) + "_" + std::to_string(fpW(t)), {fpArg(a, t), fpArg(b, t)}, fpW(t)), fpW(t)));
            break;
        }
        case Instruction::FCmp: {
            auto *c = cast<FCmpInst>(I);
            Val a = get(I->getOperand(0)), b = get(I->getOperand(1));
            Type *t = I->getOperand(0)->getType();
            if (a.k == K_FPC && b.k == K_FPC) {
                bool un = std::isnan((double)a.f) || std::isnan((double)b.f), r = false;
                switch (c->getPredicate()) {
                    case CmpInst::FCMP_OEQ: r = a.f == b.f; break;
                    case CmpInst::FCMP_ONE: r = !un && a.f != b.f; break;
                    case CmpInst::FCMP_OGT: r = a.f > b.f; break;
                    case CmpInst::FCMP_OGE: r = a.f >= b.f; break;
                    case CmpInst::FCMP_OLT: r = a.f < b.f; break;
                    case CmpInst::FCMP_OLE: r = a.f <= b.f; break;
                    case CmpInst::FCMP_UNE: r = un || a.f != b.f; break;
                    case CmpInst::FCMP_UEQ: r = un || a.f == b.f; break;
                    case CmpInst::FCMP_UGT: r = un || a.f > b.f; break;
                    case CmpInst::FCMP_UGE: r = un || a.f >= b.f; break;
                    case CmpInst::FCMP_ULT: r = un || a.f < b.f; break;
                    case CmpInst::FCMP_ULE: r = un || a.f <= b.f; break;
                    case CmpInst::FCMP_ORD: r = !un; break;
                    case CmpInst::FCMP_UNO: r = un; break;
                    default: throw EngineErr{"fcmp"};
                }
                set(I, mkInt(1, r));
                break;
            }
            if (t->isX86_FP80Ty()) {
                z3::expr n1(*Z), d1(*Z), n2(*Z), d2(*Z);
                if (!toRat(a, n1, d1) || !toRat(b, n2, d2)) throw EngineErr{"long double compare"};
                z3::expr l = n1 * d2, r = n2 * d1;
                switch (c->getPredicate()) {
                    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: set(I, fromExpr(l == r, 1)); break;
                    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: set(I, fromExpr(l != r, 1)); break;
                    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: set(I, fromExpr(z3::ugt(l, r), 1)); break;
                    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: set(I, fromExpr(z3::uge(l, r), 1)); break;
                    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: set(I, fromExpr(z3::ult(l, r), 1)); break;
                    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: set(I, fromExpr(z3::ule(l, r), 1)); break;
                    default: throw EngineErr{"fcmp80"};
                }
                break;
            }
            Val r;
            r.k = K_INT; r.w = 1;
            r.e = fpApp("fcmp" + std::to_string(c->getPredicate()) + "_" + std::to_string(fpW(t)), {fpArg(a, t), fpArg(b, t)}, 1);
            set(I, r);
            break;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Val a = get(I->getOperand(0));
            Type *t = I->getType();
            bool sg = I->getOpcode() == Instruction::SIToFP;
            if (!a.sym()) {
                if (sg) { int64_t v = (int64_t)sx(a.c, a.w); set(I, mkFP(t->isFloatTy() ? (long double)(float)v : t->isDoubleTy() ? (long double)(double)v : (long double)v)); }
                else { uint64_t v = (uint64_t)a.c; set(I, mkFP(t->isFloatTy() ? (long double)(float)v : t->isDoubleTy() ? (long double)(double)v : (long double)v)); }
                break;
            }
            if (t->isX86_FP80Ty()) {
                if (sg) {
                    // exact only for non-negative values: fork
                    if (decide(icmp(CmpInst::ICMP_SLT, a, mkInt(a.w, 0), a.w))) throw EngineErr{"negative long double"};
                }
                set(I, mkRat(ex(zextV(a, 128)), bvc(1, 128)));
                break;
            }
            unsigned iw = a.w <= 32 ? 33 : 65;     // wide enough to hold the value as a signed number
            Val wide = sg ? sextV(a, iw) : zextV(a, iw);
            set(I, fpsVal(fpApp("itofp" + std::to_string(fpW(t)), {intern(ex(wide))}, fpW(t)), fpW(t)));
            break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Val a = get(I->getOperand(0));
            unsigned w = tw(I->getType());
            bool sg = I->getOpcode() == Instruction::FPToSI;
            Type *t = I->getOperand(0)->getType();
            if (a.k == K_FPC) {
                // x86-64 behaviour: cvttsd2si into 32 bits (64 for wider results), then truncate
                int64_t v;
                if ((sg ? w <= 32 : w <= 16) && fpW(t) <= 64) v = a.f > -2147483649.0L && a.f < 2147483648.0L ? (int64_t)a.f : INT32_MIN;
                else if (!(a.f > -9.3e18L && a.f < 9.2233720368547758e18L)) v = (!sg && a.f >= 9.2233720368547758e18L && a.f < 1.8446744073709552e19L) ? (int64_t)(uint64_t)a.f : INT64_MIN;
                else v = (int64_t)a.f;
                set(I, mkInt(w, (u128)(s128)v));
                break;
            }
            if (a.k == K_RAT) {
                z3::expr n = E[a.e], d = E[a.e2];
                u128 cn = mevalC(n), cd = mevalC(d);
                if (cd == 0) memErr("long double division by zero");
                u128 q = cn / cd;
                // q*d <= n < (q+1)*d   (128-bit, no overflow because q*d <= n)
                Val in = fromExpr(z3::ule(bvc(q, 128) * d, n) && z3::ugt(bvc(q + 1, 128) * d, n), 1);
                if (!decide(in)) throw EngineErr{"quotient mismatch"};
                set(I, mkInt(w, q));
                break;
            }
            Val r;
            r.k = K_INT; r.w = w;
            r.e = fpApp(std::string(sg ? "fptosi" : "fptoui") + std::to_string(w) + "_" + std::to_string(fpW(t)), {fpArg(a, t)}, w);
            set(I, r);
            break;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            Val a = get(I->getOperand(0));
            Type *t = I->getType();
            if (a.k == K_FPC) set(I, mkFP(fpRound(a.f, t)));
            else set(I, fpsVal(fpApp("fpconv" + std::to_string(fpW(t)) + "_" + std::to_string(fpW(I->getOperand(0)->getType())), {fpArg(a, I->getOperand(0)->getType())}, fpW(t)), fpW(t)));
            break;
        }
        case Instruction::Call: {
            auto *cb = cast<CallBase>(I);
            if (isa<DbgInfoIntrinsic>(cb)) break;
            if (cb->isInlineAsm()) throw EngineErr{"inline asm"};
            const Function *callee = cb->getCalledFunction();
            if (!callee) {
                Val fp = get(cb->getCalledOperand());
                uint64_t a = (uint64_t)concretize(fp);
                auto it = fnAt.find(a);
                if (it == fnAt.end()) memErr("call through invalid function pointer");
                callee = it->second;
            }
            std::vector<Val> args;
            for (auto &x : cb->args()) {
                if (x->getType()->isMetadataTy()) continue;
                args.push_back(get(x));
            }
            if (callee->isDeclaration()) {
                Val out;
                bool has;
                builtin(cb, callee, args, &out, has);
                if (has) set(I, out);
                break;
            }
            pushFrame(callee, args, I);
            return;
        }
        default: throw EngineErr{std::string("instruction ") + I->getOpcodeName()};
    }
    ++C->st.back().pc;
}

// ---------------------------------------------------------------- driver
static void initGlobals() {
    uint64_t fa = 0x1000;
    for (auto &f : *M) {
        gaddr[&f] = fa;
        fnAt[fa] = &f;
        fa += 16;
        if (fa >= 0xf000) throw EngineErr{"too many functions"};
    }
    std::vector<std::pair<GlobalVariable *, ObjP>> gs;
    for (auto &g : M->globals()) {
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        ObjP o = allocObj(sz, O_GLOBAL, "global " + g.getName().str(), true);
        gaddr[&g] = o->base;
    }
    for (auto &g : M->globals()) {
        if (g.hasInitializer()) store(mkInt(64, gaddr[&g]), constVal(g.getInitializer()), g.getValueType());
        // declarations (stderr, ...) stay zero-filled
    }
    for (auto &g : M->globals())
        if (g.isConstant()) wr(findIdx(gaddr[&g]))->ro = true;
}
static void writeJson() {
    std::string j = "{";
    auto kv = [&](const char *k, double v, bool integer = true) {
        char b[100];
        if (integer) snprintf(b, sizeof b, "\"%s\":%llu,", k, (unsigned long long)v);
        else snprintf(b, sizeof b, "\"%s\":%.3f,", k, v);
        j += b;
    };
    j += "\"name\":\"" + esc(optName) + "\",";
    kv("paths", st.paths); kv("killed", st.killed); kv("forks", st.forks); kv("queries", st.queries); kv("sat", st.sat); kv("unsat", st.unsat);
    kv("unknown", st.unknown); kv("steps", st.steps); kv("asserts", st.asserts); kv("assert_queries", st.assertQueries); kv("mem_checks", st.memChecks);
    kv("mem_queries", st.memQueries); kv("fp_havoc", st.fpHavoc); kv("fp_refined", st.fpRefined); kv("fp_refuted", st.fpRefuted); kv("validated", st.validated); kv("validation_mismatch", st.validationMismatch);
    kv("unconfirmed", st.unconfirmed); kv("symbols", st.symbols); kv("limits", st.limits); kv("pending", work.size());
    kv("queries_lia", st.q1); kv("nonlinear_constraints", st.nonLinear); kv("queries_full", st.q2); kv("models_patched", st.patched); kv("order_unsat", st.ordUnsat); kv("order_audited", st.ordAudited); kv("solver_s", st.solver, false); kv("wall_s", now(), false);
    j += std::string("\"timed_out\":") + (timedOut ? "true" : "false") + ",";
    j += std::string("\"complete\":") + ((work.empty() && !timedOut && !stopAll && errorsSeen.empty()) ? "true" : "false") + ",";
    auto mp = [&](const char *k, const std::map<std::string, uint64_t> &m) {
        j += std::string("\"") + k + "\":{";
        bool first = true;
        for (auto &x : m) { if (!first) j += ","; first = false; j += "\"" + esc(x.first) + "\":" + std::to_string(x.second); }
        j += "},";
    };
    mp("reached", reached); mp("functions", fnHits); mp("unconfirmed_what", unconfirmedWhat); mp("assert_sites", assertSites);
    uint64_t tb = 0, hb = 0;
    std::set<const Function *> fs;
    for (auto &f : fns) if (f.second->repo) { for (auto &b : *f.first) { tb++; hb += bbHit.count(&b); } }
    kv("blocks_total", tb); kv("blocks_hit", hb);
    j += "\"known\":{";
    { bool first = true; for (auto &x : knownHits) { if (!first) j += ","; first = false; j += "\"" + esc(x.first) + "\":\"" + esc(x.second) + "\""; } }
    j += "},\"errors\":[";
    { bool first = true; for (auto &x : errorsSeen) { if (!first) j += ","; first = false; j += "\"" + esc(x) + "\""; } }
    j += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + samples[i];
    j += "],\"violations\":[";
    for (size_t i = 0; i < violations.size(); i++) j += (i ? "," : "") + violations[i];
    j += "]}";
    if (optOut.empty()) printf("%s\n", j.c_str());
    else { std::ofstream o(optOut); o << j << "\n"; }
}
int main(int argc, char **argv) {
    std::string bc;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx();
        else if (a == "--replay") optReplay = nx();
        else if (a == "--out") optOut = nx();
        else if (a == "--cex") optCexDir = nx();
        else if (a == "--name") optName = nx();
        else if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--steps") optMaxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--validate") optValidate = atoi(nx().c_str());
        else if (a == "--maxviol") optMaxViol = atoi(nx().c_str());
        else if (a == "--fpcong") optFpCong = true;
        else if (a == "--bv") optBv = true;
        else if (a == "-v") optVerbose = true;
        else bc = a;
    }
    now();
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    z3::context zc;
    Z = &zc;
    z3::params p(zc);
    z3::solver *solv;
    const char *mode = getenv("SYMX_SOLVER");
    if (mode && std::string(mode) == "smt") solv = new z3::solver(zc, z3::solver::simple());
    else solv = new z3::solver(zc, "QF_BV");
    p.set("timeout", 8000u);
    solv->set(p);
    S = solv;
    const char *mode1 = getenv("SYMX_SOLVER1");
    S1 = (mode1 && std::string(mode1) == "bv") ? new z3::solver(zc, "QF_BV") : new z3::solver(zc, z3::solver::simple());
    z3::params p1(zc);
    p1.set("timeout", 500u);
    p1.set("smt.arith.solver", 6u);
    if (getenv("AS")) p1.set("smt.arith.solver", (unsigned)atoi(getenv("AS")));
    S1->set(p1);
    int rc = 0;
    {
        State s0;
        C = &s0;
        check();
        s0.model = std::make_shared<z3::model>(S->get_model());
        try {
            initGlobals();
            const Function *ef = M->getFunction(optEntry);
            if (!ef) throw EngineErr{"no entry"};
            pushFrame(ef, {}, nullptr);
        } catch (EngineErr &e) { fprintf(stderr, "engine: %s\n", e.m.c_str()); return 3; }
        Alt a0;
        a0.s = s0; a0.scope = 0; a0.arena = E.size(); a0.trail = 0; a0.memoN = 0; a0.cond = -1;
        work.push_back(std::move(a0));
        uint64_t tick = 0;
        State cur;
        while (!work.empty() && !stopAll) {
            Alt a = std::move(work.back());
            work.pop_back();
            cur = std::move(a.s);
            C = &cur;
            popTo(a.scope);
            arenaTruncate(a.arena);
            while (trail.size() > a.trail) { decided.erase(trail.back()); trail.pop_back(); }
            fpApps.resize(a.memoN);
            if (a.cond >= 0) {
                pushAdd(a.condVal ? E[a.cond] : !E[a.cond]);
                remember(a.cond, a.condVal);
            }
            try {
                for (;;) {
                    step();
                    if ((++tick & 1023) == 0 && now() > optTime) { timedOut = true; stopAll = true; break; }
                    if (cur.steps > optMaxSteps) {
                        st.limits++;
                        // possible non-termination: confirm natively
                        if (!report("step limit exceeded (possible non-termination)", *cur.model)) errorsSeen.insert("step limit at " + where());
                        break;
                    }
                }
            } catch (PathEnd &) {
            } catch (EngineErr &e) {
                st.errors++;
                errorsSeen.insert("engine: " + e.m + " at " + where());
                if (errorsSeen.size() > 50) stopAll = true;
            } catch (z3::exception &e) {
                st.errors++;
                errorsSeen.insert(std::string("z3: ") + e.msg() + " at " + where());
                if (errorsSeen.size() > 50) stopAll = true;
            }
            if (st.unconfirmed > optMaxUnconfirmed) { errorsSeen.insert("too many unconfirmed counterexamples"); stopAll = true; }
            if (now() > optTime) { timedOut = true; stopAll = true; }
            struct rusage ru;
            getrusage(RUSAGE_SELF, &ru);
            if (ru.ru_maxrss > 3500000) { errorsSeen.insert("memory limit"); timedOut = true; stopAll = true; }
        }
        writeJson();
        if (optVerbose) for (auto &x : forkSites) fprintf(stderr, "fork %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
        if (optVerbose) for (auto &x : qTime) fprintf(stderr, "qtime %s %.3f\n", x.first.c_str(), x.second);
        rc = violations.empty() ? 0 : 1;
        fflush(stdout);
        _exit(rc);
    }
}
