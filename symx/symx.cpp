// symx: a symbolic executor for LLVM 18 bitcode, deciding branches and assertions with Z3.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef std::string Str;

static ExprCtx X;
static Solver *S;
static const DataLayout *DL;

static const u64 SLOT_SHIFT = 22, SLOT = 1ull << SLOT_SHIFT, BASE_OFF = 65536;
static const u64 FUNC_BASE = 0x600000000000ull;

static inline Ref R(Val v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
static inline Val V(Ref e) { if (e->k == KConst && e->w <= 64) return { (u64)e->c, nullptr }; return { 0, e }; }
static inline Val VC(u64 c) { return { c, nullptr }; }
static inline Val VC128(u128 c, unsigned w) { if (w <= 64) return { (u64)c, nullptr }; return { 0, X.cst(c, w) }; }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OGlobal, OHeap, OStack, OMap };
struct MemObj {
    u64 base, size; bool alive, readonly; ObjKind kind; uint8_t tag; u64 alias; int threadOwner;
    std::vector<uint8_t> conc; std::vector<Ref> sym; std::vector<uint8_t> init; // init empty: fully initialised
    const char *name;
};
typedef std::shared_ptr<MemObj> ObjP;
struct Chunk { ObjP o[64]; };
struct ObjTable {
    std::vector<std::shared_ptr<Chunk>> ch;
    MemObj *get(u64 id) const { u64 c = id >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 63].get(); }
    Chunk *wchunk(u64 id) { u64 c = id >> 6; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = std::make_shared<Chunk>(); else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]); return ch[c].get(); }
    MemObj *getW(u64 id) { Chunk *c = wchunk(id); ObjP &p = c->o[id & 63]; if (!p) return nullptr; if (p.use_count() > 1) p = std::make_shared<MemObj>(*p); return p.get(); }
    void set(u64 id, ObjP p) { wchunk(id)->o[id & 63] = p; }
};

// ------------------------------------------------------------------ decoded code
struct FuncInfo;
struct Edge { int pc; std::vector<std::pair<int, int>> phis; };
struct InstInfo {
    unsigned op; Instruction *I; int dest; unsigned w;      // w: result width
    std::vector<int> ops; std::vector<Edge> edges;
    int64_t gepOff; std::vector<std::pair<int, int64_t>> gepVar; std::vector<unsigned> gepW;
    std::vector<std::pair<u64, int>> cases;
    Function *callee; int builtin; unsigned sz; bool vec; unsigned ow;
};
struct FuncInfo { Function *F; std::vector<InstInfo> code; int nregs; std::vector<Val> consts; std::vector<Type *> argT; bool rt; Str name; u64 calls = 0; bool fmt = false; };

struct Frame { FuncInfo *f; int pc; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; std::vector<unsigned> vaW; };
typedef std::vector<uint32_t> VClock;
struct Thread {
    std::vector<Frame> st; enum { Run, Wait, Join, Spin, Done } status = Run;
    u64 waitAddr = 0; uint32_t waitVal = 0; bool timed = false; int joinTid = -1; bool schedDone = false; bool timedOut = false;
    VClock vc, relF, acqF; // happens-before clock, release-fence clock, pending acquire clock
    std::vector<std::tuple<Instruction *, u64, u64, int>> spin; Val spinVal{0,nullptr}; unsigned spinW=0;
    int spinRelax = 0; std::vector<std::pair<std::tuple<Instruction *, u64, u64, int>, int>> reps; bool mustYield = false; // repeated changing atomics since this thread was last scheduled
};
struct InRec { const Str *name; Ref e; };
struct Shadow { int wt = -1; uint32_t wc = 0; Instruction *wi = nullptr; std::vector<std::pair<int, uint32_t>> rd; std::vector<Instruction*> ri; };
struct State {
    ObjTable mem; u64 nextId = 16;
    std::vector<Thread> th; int cur = 0;
    std::vector<Ref> cons; std::shared_ptr<std::vector<u64>> model;
    std::vector<InRec> in; std::vector<int> sched; size_t replaySched = 0, replayIn = 0;
    u64 steps = 0; int preempt = 0; int noSched = 0; bool timeouts = true, fifo = false;
    std::shared_ptr<std::map<u64, Shadow>> shadow; std::map<u64, VClock> sync; std::map<std::pair<int, u64>, u64> tls;
    std::set<Str> covers; u64 heapLive = 0; int atomicDepth = 0; bool lastSwitch = false; bool finished = false; int nPick = 0; u64 shardH = 0; u64 nViol = 0;
};

struct PathEnd {};
struct Fatal { Str msg; };

// ------------------------------------------------------------------ options and results
static Str optEntry = "harness", optOut, optReplay; static double optTime = 600; static u64 optMaxSteps = 50000000, optMaxPaths = 100000000; static int optPreempt = 2; static u64 optMaxAlloc = 1 << 20;
static int optYield = 40, optMaxViol = 8, optVerbose = 0; static bool optRace = true; static u64 optMemMB = 12000;
static std::set<Str> optSkipCtor, optNop; static std::set<Str> optCtorOnly; static unsigned optShardI = 0, optShardN = 1; static bool optSpurious = false, optNoFormat = false;
static u64 nPaths = 0, nForks = 0, nSteps = 0, nKilled = 0, nAsserts = 0, nAssertQ = 0, nAssumeDrop = 0, maxPathSteps = 0, nSchedForks = 0; static std::map<Str, u64> coverCnt; static std::vector<Str> incomplete;
struct Violation { Str kind, msg, where; std::vector<std::pair<Str, u64>> in; std::vector<int> sched; u64 count = 1; };
struct Sample { std::vector<std::pair<Str, u64>> in; std::vector<Str> covers; }; static std::vector<Sample> samples;
static std::vector<Violation> viols; static std::map<Str, size_t> violIdx;
static std::vector<State *> work;
static std::vector<std::pair<Str, u64>> replayIn; static std::vector<int> replaySched; static bool replaying = false;
static std::set<FuncInfo *> usedFuncs;
static std::set<Str> rtNames; static std::map<Str, Function *> overrides;
static Module *M; static std::map<const GlobalValue *, u64> gAddr; static std::map<u64, Function *> fnAt; static std::map<u64, const GlobalVariable *> gvAt;
static std::unordered_map<const Function *, FuncInfo *> finfo;
static std::set<Str> names; static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
static const Str *internName(const Str &s) { return &*names.insert(s).first; }

static unsigned typeW(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isX86_FP80Ty()) return 80; if (T->isHalfTy()) return 16; if (T->isFP128Ty()) return 128;
    if (auto *VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements() * typeW(VT->getElementType());
    return 0;
}
static Str typeStr(Type *T) { Str s; raw_string_ostream o(s); T->print(o); return o.str(); }

static Str where(State &s, bool full = false) {
    Str r; auto &T = s.th[s.cur]; int n = 0;
    for (int i = (int)T.st.size() - 1; i >= 0 && n < (full ? 14 : 8); i--) {
        auto &f = T.st[i]; if (f.f->rt && !full && i == (int)T.st.size() - 1 && T.st.size() > 1) { }
        Instruction *I = f.pc < (int)f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        Str loc; if (I) if (auto &d = I->getDebugLoc()) { auto *dl = d.get(); loc = Str(" ") + dl->getFilename().str() + ":" + std::to_string(dl->getLine()); }
        if (!r.empty()) r += " <- "; Str dn = demangle(f.f->name); if (dn.size() > 120) dn = dn.substr(0, 120) + ".."; r += dn + loc; n++;
    }
    if (s.th.size() > 1) r = "[thread " + std::to_string(s.cur) + "] " + r;
    return r;
}
static void report(State &s, const Str &kind, const Str &msg, const std::vector<u64> &model) {
    // the first non-runtime source location identifies the violation site
    Str site; { auto &T = s.th[s.cur]; for (int i = (int)T.st.size() - 1; i >= 0; i--) if (!T.st[i].f->rt) { site = T.st[i].f->name; break; } }
    Str key = kind + "|" + msg + "|" + (kind == "assert" ? "" : site);
    auto it = violIdx.find(key); if (it != violIdx.end()) { viols[it->second].count++; return; }
    if ((int)viols.size() >= optMaxViol) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where(s, true);
    for (auto &i : s.in) v.in.push_back({ *i.name, (u64)X.eval(i.e, model) });
    v.sched = s.sched; violIdx[key] = viols.size(); viols.push_back(v);
    if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
}
[[noreturn]] static void fail(State &s, const Str &kind, const Str &msg) { report(s, kind, msg, *s.model); throw PathEnd(); }
static void note(const Str &m) { if (incomplete.size() < 20 && std::find(incomplete.begin(), incomplete.end(), m) == incomplete.end()) incomplete.push_back(m); }
[[noreturn]] static void unsupported(State &s, const Str &m) { note("unsupported: " + m + " at " + where(s)); nKilled++; throw PathEnd(); }

// ------------------------------------------------------------------ decisions
static void mergeModel(State &s, const std::vector<std::pair<uint32_t, u64>> &m) {
    auto n = std::make_shared<std::vector<u64>>(*s.model);
    for (auto &p : m) { if (p.first >= n->size()) n->resize(p.first + 1, 0); (*n)[p.first] = p.second; }
    s.model = n;
}
static int known(State &s, Ref c) { // syntactic: 1 implied, 0 refuted, -1 unknown
    Ref n = X.notb(c); int k = 0;
    for (auto it = s.cons.rbegin(); it != s.cons.rend() && k < 64; ++it, ++k) { if (*it == c) return 1; if (*it == n) return 0; }
    return -1;
}
static void addCons(State &s, Ref c) { if (c->k == KConst) return; if (c->k == KAnd && c->w == 1) { addCons(s, c->a[0]); addCons(s, c->a[1]); return; } s.cons.push_back(c); }
// true when the condition holds on the current state; forks the alternative (which re-executes the current instruction)
static bool decide(State &s, Ref c) {
    if (c->k == KConst) return c->c;
    int kn = known(s, c); if (kn >= 0) return kn;
    bool v = X.eval(c, *s.model) != 0;
    Ref other = v ? X.notb(c) : c;
    std::vector<std::pair<uint32_t, u64>> m;
    int r = S->check(s.cons, other, &m);
    if (r == 0) { addCons(s, v ? c : X.notb(c)); return v; }
    if (r < 0) { note("solver unknown at " + where(s)); return v; }
    State *o = new State(s); addCons(*o, other); mergeModel(*o, m); work.push_back(o); nForks++;
    addCons(s, v ? c : X.notb(c)); return v;
}
static bool mayBe(State &s, Ref c, std::vector<std::pair<uint32_t, u64>> *m = nullptr) {
    if (c->k == KConst) { if (m) m->clear(); return c->c; }
    if (X.eval(c, *s.model)) { if (m) m->clear(); return true; }
    int r = S->check(s.cons, c, m);
    if (r < 0) { note("solver unknown at " + where(s)); return false; }
    return r == 1;
}
static u64 concretize(State &s, Val v, unsigned w) {
    if (!v.e) return v.c;
    u64 c = (u64)X.eval(v.e, *s.model);
    Ref e = X.eq(v.e, X.cst(c, v.e->w));
    if (decide(s, e)) return c;
    return concretize(s, v, w);
}
static Ref freshVar(State &s, unsigned w, const Str &name) {
    if (replaying) {
        while (s.replayIn < replayIn.size() && replayIn[s.replayIn].first != name) s.replayIn++;
        u64 v = 0; if (s.replayIn < replayIn.size()) v = replayIn[s.replayIn++].second;
        Ref e = X.cst(v, w); s.in.push_back({ internName(name), e }); return e;
    }
    Ref e = X.newVar(w, name); s.in.push_back({ internName(name), e }); return e;
}

// ------------------------------------------------------------------ memory operations
static ObjP newObj(State &s, u64 size, ObjKind k, bool init, const char *name, u64 *idOut = nullptr) {
    u64 slots = (size + 2 * BASE_OFF) / SLOT + 1; u64 id = s.nextId; s.nextId += slots;
    auto o = std::make_shared<MemObj>(); o->base = (id << SLOT_SHIFT) + BASE_OFF; o->size = size; o->alive = true; o->readonly = false; o->kind = k; o->tag = 0; o->alias = 0; o->threadOwner = s.th.empty() ? 0 : s.cur; o->name = name;
    o->conc.assign(size, 0); if (!init) o->init.assign(size, 0);
    s.mem.set(id, o); for (u64 i = 1; i < slots; i++) s.mem.set(id + i, o);
    if (idOut) *idOut = id; return o;
}
static u64 allocMem(State &s, u64 size, ObjKind k, bool init, const char *name = "") { return newObj(s, size, k, init, name)->base; }

static void invalidAccess(State &s, u64 addr, u64 n, const char *what) {
    MemObj *o = s.mem.get(addr >> SLOT_SHIFT);
    Str m;
    if (addr < 65536) m = "null pointer " + Str(what);
    else if (!o) m = Str("wild pointer ") + what;
    else if (!o->alive) m = Str(o->kind == OStack ? "use after return " : "use after free ") + "(" + what + ")";
    else if (addr < o->base || addr + n > o->base + o->size) m = Str("out of bounds ") + what;
    else m = Str("invalid ") + what;
    fail(s, "memory", m);
}
struct Loc { u64 id; u64 off; Ref symOff; MemObj *o; };
static bool readonlyWrite(MemObj *o) { return o->readonly; }
static Loc resolve(State &s, Val a, u64 n, bool wr) {
    if (!a.e) {
        u64 id = a.c >> SLOT_SHIFT; MemObj *o = s.mem.get(id);
        if (!o || !o->alive || a.c < o->base || a.c - o->base + n > o->size || (wr && o->readonly)) invalidAccess(s, a.c, n, wr ? "write" : "read");
        return { (o->base - BASE_OFF) >> SLOT_SHIFT, a.c - o->base, nullptr, o };
    }
    u64 c = (u64)X.eval(a.e, *s.model); MemObj *o = s.mem.get(c >> SLOT_SHIFT);
    if (!o || !o->alive || c < o->base || c - o->base + n > o->size || (wr && o->readonly)) {
        // this address is invalid under the current model: a real counterexample; then continue with others
        report(s, "memory", "invalid " + Str(wr ? "write" : "read") + " through computed address", *s.model);
        Ref bad = X.eq(a.e, X.cst(c, 64)); std::vector<std::pair<uint32_t, u64>> m;
        if (S->check(s.cons, X.notb(bad), &m) != 1) throw PathEnd();
        mergeModel(s, m); addCons(s, X.notb(bad));
        // avoid enumerating every invalid address: give up on this path after reporting
        throw PathEnd();
    }
    Ref off = X.sub(a.e, X.cst(o->base, 64));
    Ref inb = X.ule(off, X.cst(o->size - n, 64));
    decide(s, inb); // other objects / invalid addresses are explored by the forked state
    return { (o->base - BASE_OFF) >> SLOT_SHIFT, 0, off, o };
}
static Ref byteAt(State &s, Loc &l, u64 off) {
    MemObj *o = l.o; if (o->alias) off %= o->alias;
    if (!o->init.empty() && !o->init[off]) {
        Ref e = freshVar(s, 8, "~uninit");
        o = l.o = s.mem.getW(l.id); if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        o->sym[off] = e; o->init[off] = 1; return e;
    }
    if (!o->sym.empty() && o->sym[off]) return o->sym[off];
    return X.cst(o->conc[off], 8);
}
static Val readLoc(State &s, Loc &l, u64 off, unsigned nb, unsigned w) {
    MemObj *o = l.o;
    if (!o->alias && o->sym.empty() && nb <= 8) {
        bool ok = true; if (!o->init.empty()) for (unsigned i = 0; i < nb; i++) if (!o->init[off + i]) { ok = false; break; }
        if (ok) { u64 v = 0; memcpy(&v, &o->conc[off], nb); return VC(v & mask64(w)); }
    }
    Ref acc = nullptr;
    for (unsigned i = 0; i < nb; i++) { Ref b = byteAt(s, l, off + i); acc = acc ? X.concat(b, acc) : b; }
    if (acc->w > w) acc = X.extract(acc, 0, w);
    return V(acc);
}
static void raceAccess(State &s, u64 addr, u64 n, bool wr, bool atomic);
static Val loadMem(State &s, Val a, unsigned nb, unsigned w, bool atomic = false) {
    Loc l = resolve(s, a, nb, false);
    if (l.symOff) {
        u64 sz = l.o->size; 
        // stride analysis: table lookup with ITE when small
        u64 cands = sz / nb;
        Ref rem = nb > 1 ? X.bin(KURem, l.symOff, X.cst(nb, 64)) : X.cst(0, 64);
        u64 rv = (u64)X.eval(rem, *s.model);
        if (s.th.size() == 1 && cands && cands <= 300 && !mayBe(s, X.notb(X.eq(rem, X.cst(rv, 64)))) ) {
            Ref acc = nullptr;
            for (u64 o = rv; o + nb <= sz; o += nb) { Ref v = R(readLoc(s, l, o, nb, w), w); acc = acc ? X.ite(X.eq(l.symOff, X.cst(o, 64)), v, acc) : v; }
            return V(acc);
        }
        u64 off = concretize(s, V(l.symOff), 64); l.off = off;
    }
    if (s.th.size() > 1) raceAccess(s, l.o->base + l.off, nb, false, atomic);
    return readLoc(s, l, l.off, nb, w);
}
static void writeLoc(State &s, Loc &l, u64 off, unsigned nb, Val v, unsigned w) {
    MemObj *o = s.mem.getW(l.id); l.o = o;
    if (!v.e) {
        if (!o->alias) {
            u64 c = v.c; for (unsigned i = 0; i < nb; i++) o->conc[off + i] = i < 8 ? (uint8_t)(c >> (8 * i)) : 0;
            if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
            if (!o->init.empty()) for (unsigned i = 0; i < nb; i++) o->init[off + i] = 1;
        } else for (unsigned i = 0; i < nb; i++) { u64 q = (off + i) % o->alias; o->conc[q] = (uint8_t)(v.c >> (8 * i)); if (!o->sym.empty()) o->sym[q] = nullptr; if (!o->init.empty()) o->init[q] = 1; }
        return;
    }
    Ref e = v.e; if (e->w < nb * 8) e = X.zext(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
        Ref b = X.extract(e, i * 8, 8); u64 q = off + i; if (o->alias) q %= o->alias;
        if (b->k == KConst) { o->conc[q] = (uint8_t)b->c; if (!o->sym.empty()) o->sym[q] = nullptr; }
        else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[q] = b; }
        if (!o->init.empty()) o->init[q] = 1;
    }
}
static void storeMem(State &s, Val a, unsigned nb, Val v, unsigned w, bool atomic = false) {
    Loc l = resolve(s, a, nb, true);
    if (l.symOff) l.off = concretize(s, V(l.symOff), 64);
    if (s.th.size() > 1) raceAccess(s, l.o->base + l.off, nb, true, atomic);
    writeLoc(s, l, l.off, nb, v, w);
}
static void copyMem(State &s, Val d, Val sr, u64 n) {
    if (!n) return;
    u64 da = concretize(s, d, 64), sa = concretize(s, sr, 64);
    Loc ld = resolve(s, VC(da), n, true), ls = resolve(s, VC(sa), n, false);
    if (s.th.size() > 1) { raceAccess(s, sa, n, false, false); raceAccess(s, da, n, true, false); }
    MemObj *so = ls.o;
    std::vector<uint8_t> tc(n); std::vector<Ref> ts; std::vector<uint8_t> ti;
    bool hasS = !so->sym.empty(), hasI = !so->init.empty(); if (hasS) ts.resize(n); if (hasI) ti.resize(n);
    for (u64 i = 0; i < n; i++) { u64 q = ls.off + i; if (so->alias) q %= so->alias; tc[i] = so->conc[q]; if (hasS) ts[i] = so->sym[q]; if (hasI) ti[i] = so->init[q]; }
    MemObj *o = s.mem.getW(ld.id);
    for (u64 i = 0; i < n; i++) {
        u64 q = ld.off + i; if (o->alias) q %= o->alias;
        o->conc[q] = tc[i];
        if (hasS && ts[i]) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[q] = ts[i]; } else if (!o->sym.empty()) o->sym[q] = nullptr;
        if (hasI && !ti[i]) { if (o->init.empty()) o->init.assign(o->size, 1); o->init[q] = 0; } else if (!o->init.empty()) o->init[q] = 1;
    }
}
static Str readStr(State &s, u64 a) {
    Str r; if (!a) return r;
    for (int i = 0; i < 4096; i++) { Loc l = resolve(s, VC(a + i), 1, false); Ref b = byteAt(s, l, l.off); char c = b->k == KConst ? (char)b->c : (char)X.eval(b, *s.model); if (!c) break; r.push_back(c); }
    return r;
}
static void freeObj(State &s, u64 id) { MemObj *o = s.mem.getW(id); o->alive = false; std::vector<uint8_t>().swap(o->conc); std::vector<Ref>().swap(o->sym); std::vector<uint8_t>().swap(o->init); }

// ------------------------------------------------------------------ happens-before race detection
static void joinVC(VClock &a, const VClock &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static uint32_t vcGet(const VClock &a, int t) { return t < (int)a.size() ? a[t] : 0; }
// every other thread has ended and been joined: nothing can race until another one is created
static bool solo(State &s) { if (s.th.size() < 2) return true; auto &vc = s.th[s.cur].vc; for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && (s.th[t].status != Thread::Done || vcGet(vc, t) < vcGet(s.th[t].vc, t))) return false; if (s.shadow) s.shadow.reset(); if (!s.sync.empty()) s.sync.clear(); return true; }
static bool inRt(State &s) { auto &T = s.th[s.cur]; return T.st.empty() || T.st.back().f->rt; }
static void raceAccess(State &s, u64 addr, u64 n, bool wr, bool atomic) {
    if (!optRace || s.th.size() < 2 || inRt(s) || solo(s)) return;
    MemObj *ob = s.mem.get(addr >> SLOT_SHIFT); if (ob && ob->kind == OStack && ob->threadOwner == s.cur && false) return;
    if (ob && ob->readonly) return;
    if (!s.shadow) s.shadow = std::make_shared<std::map<u64, Shadow>>(); else if (s.shadow.use_count() > 1) s.shadow = std::make_shared<std::map<u64, Shadow>>(*s.shadow);
    auto &vc = s.th[s.cur].vc; Instruction *I = s.th[s.cur].st.back().f->code[s.th[s.cur].st.back().pc].I;
    u64 b0 = addr; for (u64 b = b0; b < addr + n; b++) {
        u64 key = b; Shadow &sh = (*s.shadow)[key];
        bool wAt = sh.wt >= 0 && (sh.wc & 0x80000000u); uint32_t wclk = sh.wc & 0x7fffffffu;
        if (sh.wt >= 0 && sh.wt != s.cur && wclk > vcGet(vc, sh.wt) && !(wAt && atomic))
            fail(s, "race", Str("data race: ") + (wr ? "write" : "read") + " not ordered after a write by another thread");
        if (wr) for (auto &r : sh.rd) { bool rAt = r.second & 0x80000000u; if (r.first != s.cur && (r.second & 0x7fffffffu) > vcGet(vc, r.first) && !(rAt && atomic))
            fail(s, "race", "data race: write not ordered after a read by another thread"); }
        uint32_t me = vcGet(vc, s.cur) | (atomic ? 0x80000000u : 0);
        if (wr) { sh.wt = s.cur; sh.wc = me; sh.wi = I; sh.rd.clear(); }
        else { bool f = false; for (auto &r : sh.rd) if (r.first == s.cur) { r.second = me; f = true; } if (!f) sh.rd.push_back({ s.cur, me }); }
    }
}
static void clearShadow(State &s, u64 base, u64 size) {
    if (!s.shadow) return; auto lo = s.shadow->lower_bound(base); if (lo == s.shadow->end() || lo->first >= base + size) return;
    if (s.shadow.use_count() > 1) s.shadow = std::make_shared<std::map<u64, Shadow>>(*s.shadow);
    s.shadow->erase(s.shadow->lower_bound(base), s.shadow->lower_bound(base + size));
}
static bool ordAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool ordRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void hbLoad(State &s, u64 a, AtomicOrdering o) { if (s.th.size() < 2 && s.sync.empty()) return; auto it = s.sync.find(a); if (it == s.sync.end()) return; auto &T = s.th[s.cur]; if (ordAcq(o)) joinVC(T.vc, it->second); else joinVC(T.acqF, it->second); }
static void hbStore(State &s, u64 a, AtomicOrdering o, bool rmw) {
    if (solo(s)) return;
    auto &T = s.th[s.cur];
    if (ordRel(o)) { if (rmw) joinVC(s.sync[a], T.vc); else s.sync[a] = T.vc; if ((int)T.vc.size() <= s.cur) T.vc.resize(s.cur + 1, 0); T.vc[s.cur]++; }
    else { if (!rmw) s.sync.erase(a); if (!T.relF.empty()) joinVC(s.sync[a], T.relF); }
}

#include "interp.inc"
