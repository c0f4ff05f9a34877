static Val ovf(State &s, Intrinsic::ID id, Val a, Val b, unsigned w) {
    Ref x = R(a, w), y = R(b, w); Ref r, o;
    if (w > 64) unsupported(s, "wide overflow arithmetic");
    switch (id) {
    case Intrinsic::uadd_with_overflow: r = X.add(x, y); o = X.ult(r, x); break;
    case Intrinsic::usub_with_overflow: r = X.sub(x, y); o = X.ult(x, y); break;
    case Intrinsic::umul_with_overflow: { Ref p = X.mul(X.zext(x, 2 * w), X.zext(y, 2 * w)); r = X.extract(p, 0, w); o = X.notb(X.eq(X.extract(p, w, w), X.cst(0, w))); break; }
    case Intrinsic::sadd_with_overflow: { Ref p = X.add(X.sext(x, w + 1), X.sext(y, w + 1)); r = X.extract(p, 0, w); o = X.notb(X.eq(X.sext(r, w + 1), p)); break; }
    case Intrinsic::ssub_with_overflow: { Ref p = X.sub(X.sext(x, w + 1), X.sext(y, w + 1)); r = X.extract(p, 0, w); o = X.notb(X.eq(X.sext(r, w + 1), p)); break; }
    default: { Ref p = X.mul(X.sext(x, 2 * w), X.sext(y, 2 * w)); r = X.extract(p, 0, w); o = X.notb(X.eq(X.sext(r, 2 * w), p)); break; }
    }
    return mkAggV({ V(r), V(o) });
}
static Val laneMap(const std::function<Val(Val, Val)> &f, Val a, Val b, unsigned n, unsigned lw, unsigned tw) {
    std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(f(laneV(a, i, lw, tw), laneV(b, i, lw, tw))); return concatV(l, tw / n ? tw / n : lw); }

static void doFree(State &s, u64 p) {
    if (!p) return;
    MemObj *o = s.mem.get(p >> SLOT_SHIFT);
    if (!o || o->base != p || o->kind != OHeap) { if (o && !o->alive) fail(s, "memory", "double free"); fail(s, "memory", "free of a pointer that is not an allocation"); }
    if (!o->alive) fail(s, "memory", "double free");
    if (s.th.size() > 1) { raceAccess(s, o->base, o->size, true, false); clearShadow(s, o->base, o->size); }
    s.heapLive--; freeObj(s, (o->base - BASE_OFF) >> SLOT_SHIFT);
}
static bool execIntrinsic(State &s, Frame &f, InstInfo &q, Intrinsic::ID id) {
    auto A = [&](unsigned i) { return get(f, q.ops[i]); };
    auto ret = [&](Val v) { if (q.dest >= 0) f.regs[q.dest] = v; f.pc++; return true; };
    auto *CB = cast<CallBase>(q.I); unsigned w = q.w;
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::stackrestore:
        f.pc++; return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(VC(0));
    case Intrinsic::assume: { f.pc++; return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: return ret(A(0));
    case Intrinsic::is_constant: return ret(VC(0));
    case Intrinsic::objectsize: return ret(VC(cast<ConstantInt>(CB->getArgOperand(1))->isZero() ? mask64(w) : 0));
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "trap", "trap executed");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2), 64); copyMem(s, A(0), A(1), n); f.pc++; return true; }
    case Intrinsic::memset: { u64 n = concretize(s, A(2), 64); u64 d = n ? concretize(s, A(0), 64) : 0; Val v = A(1); if (n) { Loc l = resolve(s, VC(d), n, true); if (s.th.size() > 1) raceAccess(s, d, n, true, false); for (u64 i = 0; i < n; i++) writeLoc(s, l, l.off + i, 1, v, 8); } f.pc++; return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        return ret(ovf(s, id, A(0), A(1), typeW(CB->getArgOperand(0)->getType())));
    case Intrinsic::eh_typeid_for: return ret(VC((uint32_t)typeIdOf(CB->getArgOperand(0))));
    case Intrinsic::threadlocal_address: {
        u64 g = A(0).c; if (s.cur == 0) return ret(VC(g));
        auto key = std::make_pair(s.cur, g); auto it = s.tls.find(key); if (it != s.tls.end()) return ret(VC(it->second));
        auto *gv = gvAt[g]; u64 n = DL->getTypeAllocSize(gv->getValueType()); u64 id; ObjP o = newObj(s, n, OGlobal, true, "tls", &id); if (gv->hasInitializer()) writeConst(o.get(), 0, gv->getInitializer()); s.tls[key] = o->base; return ret(VC(o->base)); }
    case Intrinsic::vastart: { // x86-64 va_list: {gp_offset, fp_offset, overflow_arg_area, reg_save_area}
        u64 va = concretize(s, A(0), 64); u64 n = f.varargs.size();
        u64 area = allocMem(s, 16 * n + 16, OStack, true, "varargs"); f.allocas.push_back(area >> SLOT_SHIFT); u64 off = 0;
        for (u64 i = 0; i < n; i++) { unsigned vw = f.vaW[i]; if (vw > 64) off = (off + 15) & ~15ull; storeMem(s, VC(area + off), (vw + 7) / 8 > 8 ? 10 : 8, f.varargs[i].e ? V(f.varargs[i].e->w < 64 ? X.zext(f.varargs[i].e, 64) : f.varargs[i].e) : f.varargs[i], 64); off += vw > 64 ? 16 : 8; }
        storeMem(s, VC(va), 4, VC(48), 32); storeMem(s, VC(va + 4), 4, VC(304), 32); storeMem(s, VC(va + 8), 8, VC(area), 64); storeMem(s, VC(va + 16), 8, VC(0), 64); f.pc++; return true; }
    case Intrinsic::vaend: f.pc++; return true;
    case Intrinsic::vacopy: copyMem(s, A(0), A(1), 24); f.pc++; return true;
    default: break;
    }
    // lane-wise arithmetic intrinsics
    Type *T = q.I->getType(); unsigned n = 1, lw = w; if (auto *VT = dyn_cast<FixedVectorType>(T)) { n = VT->getNumElements(); lw = typeW(VT->getElementType()); }
    std::function<Ref(Ref, Ref, Ref)> g;
    switch (id) {
    case Intrinsic::umin: g = [](Ref a, Ref b, Ref) { return X.ite(X.ult(a, b), a, b); }; break;
    case Intrinsic::umax: g = [](Ref a, Ref b, Ref) { return X.ite(X.ult(a, b), b, a); }; break;
    case Intrinsic::smin: g = [](Ref a, Ref b, Ref) { return X.ite(X.slt(a, b), a, b); }; break;
    case Intrinsic::smax: g = [](Ref a, Ref b, Ref) { return X.ite(X.slt(a, b), b, a); }; break;
    case Intrinsic::abs: g = [](Ref a, Ref, Ref) { return X.ite(X.slt(a, X.cst(0, a->w)), X.sub(X.cst(0, a->w), a), a); }; break;
    case Intrinsic::uadd_sat: g = [](Ref a, Ref b, Ref) { Ref r = X.add(a, b); return X.ite(X.ult(r, a), X.cst(~(u128)0, a->w), r); }; break;
    case Intrinsic::usub_sat: g = [](Ref a, Ref b, Ref) { return X.ite(X.ult(a, b), X.cst(0, a->w), X.sub(a, b)); }; break;
    case Intrinsic::bswap: g = [](Ref a, Ref, Ref) { Ref r = nullptr; for (unsigned i = 0; i < a->w / 8; i++) { Ref b = X.extract(a, i * 8, 8); r = r ? X.concat(r, b) : b; } return r; }; break;
    case Intrinsic::ctpop: g = [](Ref a, Ref, Ref) { Ref r = X.cst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = X.add(r, X.zext(X.extract(a, i, 1), a->w)); return r; }; break;
    case Intrinsic::ctlz: g = [](Ref a, Ref, Ref) { Ref r = X.cst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = X.ite(X.extract(a, i, 1), X.cst(a->w - 1 - i, a->w), r); return r; }; break;
    case Intrinsic::cttz: g = [](Ref a, Ref, Ref) { Ref r = X.cst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = X.ite(X.extract(a, i, 1), X.cst(i, a->w), r); return r; }; break;
    case Intrinsic::fshl: g = [](Ref a, Ref b, Ref c) { Ref m = X.bin(KURem, c, X.cst(a->w, a->w)); if (ExprCtx::isC(m, 0)) return a; Ref r = X.orE(X.shl(a, m), X.lshr(b, X.sub(X.cst(a->w, a->w), m))); return X.ite(X.eq(m, X.cst(0, a->w)), a, r); }; break;
    case Intrinsic::fshr: g = [](Ref a, Ref b, Ref c) { Ref m = X.bin(KURem, c, X.cst(a->w, a->w)); if (ExprCtx::isC(m, 0)) return b; Ref r = X.orE(X.shl(a, X.sub(X.cst(a->w, a->w), m)), X.lshr(b, m)); return X.ite(X.eq(m, X.cst(0, a->w)), b, r); }; break;
    case Intrinsic::fabs: g = [](Ref a, Ref, Ref) { return X.andE(a, X.cst(maskw(a->w - 1), a->w)); }; break;
    case Intrinsic::copysign: g = [](Ref a, Ref b, Ref) { return X.orE(X.andE(a, X.cst(maskw(a->w - 1), a->w)), X.andE(b, X.cst((u128)1 << (a->w - 1), a->w))); }; break;
    case Intrinsic::sqrt: g = [](Ref a, Ref, Ref) { return X.un(KFSqrt, a, a->w); }; break;
    case Intrinsic::floor: g = [](Ref a, Ref, Ref) { return X.un(KFRound, a, a->w, 0); }; break;
    case Intrinsic::ceil: g = [](Ref a, Ref, Ref) { return X.un(KFRound, a, a->w, 1); }; break;
    case Intrinsic::trunc: g = [](Ref a, Ref, Ref) { return X.un(KFRound, a, a->w, 2); }; break;
    case Intrinsic::round: g = [](Ref a, Ref, Ref) { return X.un(KFRound, a, a->w, 3); }; break;
    case Intrinsic::rint: case Intrinsic::nearbyint: g = [](Ref a, Ref, Ref) { return X.un(KFRound, a, a->w, 4); }; break;
    case Intrinsic::fmuladd: g = [](Ref a, Ref b, Ref c) { return X.bin(KFAdd, X.bin(KFMul, a, b), c); }; break;
    case Intrinsic::maxnum: g = [](Ref a, Ref b, Ref) { return X.ite(X.bin(KFUno, a, a), b, X.ite(X.bin(KFOlt, a, b), b, a)); }; break;
    case Intrinsic::minnum: g = [](Ref a, Ref b, Ref) { return X.ite(X.bin(KFUno, a, a), b, X.ite(X.bin(KFOlt, b, a), b, a)); }; break;
    default: break;
    }
    if (g) {
        std::vector<Val> l; unsigned na = CB->arg_size();
        for (unsigned i = 0; i < n; i++) { Ref x[3] = { nullptr, nullptr, nullptr }; for (unsigned k = 0; k < na && k < 3; k++) { unsigned aw = typeW(CB->getArgOperand(k)->getType()); x[k] = aw == w ? R(laneV(A(k), i, lw, w), lw) : R(A(k), aw); } l.push_back(V(g(x[0], x[1], x[2]))); }
        return ret(n == 1 ? l[0] : concatV(l, lw));
    }
    if (q.callee->getName().starts_with("llvm.vector.reduce.")) {
        auto *VT = cast<FixedVectorType>(CB->getArgOperand(0)->getType()); unsigned vw = typeW(VT), el = typeW(VT->getElementType()); Ref acc = nullptr;
        for (unsigned i = 0; i < VT->getNumElements(); i++) { Ref e = R(laneV(A(0), i, el, vw), el); if (!acc) { acc = e; continue; }
            switch (id) { case Intrinsic::vector_reduce_add: acc = X.add(acc, e); break; case Intrinsic::vector_reduce_or: acc = X.orE(acc, e); break; case Intrinsic::vector_reduce_and: acc = X.andE(acc, e); break; case Intrinsic::vector_reduce_xor: acc = X.xorE(acc, e); break; default: unsupported(s, "intrinsic " + q.callee->getName().str()); } }
        return ret(V(acc));
    }
    if (q.callee->getName().starts_with("llvm.x86.sse2.pause")) { f.pc++; return true; }
    unsupported(s, "intrinsic " + q.callee->getName().str());
}

static double fromBits(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 toBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }

// returns true when handled
static bool execBuiltin(State &s, Frame &f, InstInfo &q, int b, Function *callee) {
    auto A = [&](unsigned i) { return get(f, q.ops[i]); };
    auto adv = [&](Frame &fr) { if (q.op == Instruction::Invoke) takeEdge(fr, q.edges[0]); else fr.pc++; };
    auto ret = [&](Val v) { if (q.dest >= 0) f.regs[q.dest] = v; adv(f); return true; };
    switch (b) {
    case B_NOP: return ret(q.dest >= 0 ? zeroVal(q.I->getType()) : VC(0));
    case B_MALLOC: case B_CALLOC: {
        Val n = A(0); if (b == B_CALLOC) n = binop(s, Instruction::Mul, A(0), A(1), 64);
        if (n.e) { if (decide(s, X.ult(X.cst(optMaxAlloc, 64), n.e))) return ret(VC(0)); n = VC(concretize(s, n, 64)); }
        if (n.c > (1ull << 27)) return ret(VC(0));
        u64 p = allocMem(s, n.c, OHeap, b == B_CALLOC, "heap"); s.heapLive++; return ret(VC(p)); }
    case B_REALLOC: {
        u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); u64 r = allocMem(s, n, OHeap, false, "heap"); s.heapLive++;
        if (p) { MemObj *o = s.mem.get(p >> SLOT_SHIFT); if (!o || !o->alive || o->base != p) fail(s, "memory", "realloc of invalid pointer"); copyMem(s, VC(r), VC(p), std::min(n, o->size)); doFree(s, p); } return ret(VC(r)); }
    case B_FREE: { u64 p = concretize(s, A(0), 64); doFree(s, p); return ret(VC(0)); }
    case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(s, A(2), 64); copyMem(s, A(0), A(1), n); return ret(A(0)); }
    case B_MEMSET: { u64 n = concretize(s, A(2), 64); if (n) { u64 d = concretize(s, A(0), 64); Loc l = resolve(s, VC(d), n, true); if (s.th.size() > 1) raceAccess(s, d, n, true, false); Val v = A(1); if (v.e) v = V(X.extract(v.e, 0, 8)); for (u64 i = 0; i < n; i++) writeLoc(s, l, l.off + i, 1, v, 8); } return ret(A(0)); }
    case B_MEMCMP: {
        u64 n = concretize(s, A(2), 64); if (!n) return ret(VC(0)); u64 p = concretize(s, A(0), 64), r = concretize(s, A(1), 64);
        Loc a = resolve(s, VC(p), n, false), c = resolve(s, VC(r), n, false); Ref acc = X.cst(0, 32);
        for (u64 i = n; i-- > 0;) { Ref x = byteAt(s, a, a.off + i), y = byteAt(s, c, c.off + i); acc = X.ite(X.eq(x, y), acc, X.ite(X.ult(x, y), X.cst(~0ull, 32), X.cst(1, 32))); }
        return ret(V(acc)); }
    case B_MEMCHR: {
        u64 n = concretize(s, A(2), 64); if (!n) return ret(VC(0)); u64 p = concretize(s, A(0), 64); Ref ch = X.extract(R(A(1), 32), 0, 8); Loc a = resolve(s, VC(p), 1, false);
        Ref acc = X.cst(0, 64); u64 lim = std::min(n, a.o->size - a.off); if (lim < n) { bool found = false; for (u64 i = 0; i < lim; i++) { Ref x = byteAt(s, a, a.off + i); if (decide(s, X.eq(x, ch))) { found = true; break; } } if (!found) invalidAccess(s, p, n, "memchr"); }
        for (u64 i = lim; i-- > 0;) { Ref x = byteAt(s, a, a.off + i); acc = X.ite(X.eq(x, ch), X.cst(p + i, 64), acc); } return ret(V(acc)); }
    case B_STRLEN: { u64 p = concretize(s, A(0), 64); Loc a = resolve(s, VC(p), 1, false); for (u64 i = 0;; i++) { if (a.off + i >= a.o->size) invalidAccess(s, p, i + 1, "strlen"); Ref x = byteAt(s, a, a.off + i); if (decide(s, X.eq(x, X.cst(0, 8)))) return ret(VC(i)); } }
    case B_IN: { Str nm = readStr(s, A(0).c); unsigned w = (unsigned)A(1).c; Ref e = freshVar(s, w, nm); return ret(V(X.zext(e, 64))); }
    case B_PICK: { Str nm = readStr(s, A(0).c); u64 lo = A(1).c, hi = A(2).c; if (hi < lo) { nAssumeDrop++; throw PathEnd(); } Ref e = freshVar(s, 64, nm);
        if (replaying) return ret(V(e)); s.nPick++; int np = s.nPick; u64 h0 = s.shardH; auto keep = [&](u64 k, u64 &h) { h = (h0 * 1000003 + k + 1); return np != 2 || optShardN <= 1 || ((h ^ (h >> 7)) % optShardN) == optShardI; };
        if (np <= 2) { std::vector<u64> ks; for (u64 k = lo; k <= hi; k++) { u64 h; if (keep(k, h)) ks.push_back(k); } if (ks.empty()) { nAssumeDrop++; throw PathEnd(); } for (size_t i = ks.size(); i-- > 1;) { State *o = new State(s); addCons(*o, X.eq(e, X.cst(ks[i], 64))); mergeModel(*o, { { (uint32_t)e->c, ks[i] } }); keep(ks[i], o->shardH); Frame &of = o->th[o->cur].st.back(); if (q.dest >= 0) of.regs[q.dest] = VC(ks[i]); adv(of); work.push_back(o); nForks++; }
            addCons(s, X.eq(e, X.cst(ks[0], 64))); mergeModel(s, { { (uint32_t)e->c, ks[0] } }); keep(ks[0], s.shardH); return ret(VC(ks[0])); }
        auto setm = [&](State &t, u64 k) { addCons(t, X.eq(e, X.cst(k, 64))); mergeModel(t, { { (uint32_t)e->c, k } }); };
        for (u64 k = hi; k > lo; k--) { State *o = new State(s); setm(*o, k); Frame &of = o->th[o->cur].st.back(); if (q.dest >= 0) of.regs[q.dest] = VC(k); adv(of); work.push_back(o); nForks++; }
        setm(s, lo); return ret(VC(lo)); }
    case B_BYTES: { u64 p = A(0).c, n = A(1).c; Str nm = readStr(s, A(2).c); if (n) { Loc l = resolve(s, VC(p), n, true); for (u64 i = 0; i < n; i++) { Ref e = freshVar(s, 8, nm); writeLoc(s, l, l.off + i, 1, V(e), 8); } } return ret(VC(0)); }
    case B_ASSUME: {
        Val v = A(0); unsigned w = typeW(cast<CallBase>(q.I)->getArgOperand(0)->getType()); Ref c = X.notb(X.eq(R(v, w), X.cst(0, w)));
        if (c->k == KConst) { if (!c->c) { nAssumeDrop++; throw PathEnd(); } return ret(VC(0)); }
        if (!X.eval(c, *s.model)) { std::vector<std::pair<uint32_t, u64>> m; int r = S->check(s.cons, c, &m); if (r < 0) note("solver unknown in assume"); if (r != 1) { nAssumeDrop++; throw PathEnd(); } mergeModel(s, m); }
        addCons(s, c); return ret(VC(0)); }
    case B_ASSERT: {
        Val v = A(0); unsigned w = typeW(cast<CallBase>(q.I)->getArgOperand(0)->getType()); Ref c = X.notb(X.eq(R(v, w), X.cst(0, w))); nAsserts++;
        if (c->k == KConst) { if (!c->c) fail(s, "assert", readStr(s, A(1).c)); return ret(VC(0)); }
        nAssertQ++;
        bool mv = X.eval(c, *s.model) != 0; std::vector<std::pair<uint32_t, u64>> m; int r = mv ? S->check(s.cons, X.notb(c), &m) : 1;
        if (r < 0) { note("solver unknown on assertion '" + readStr(s, A(1).c) + "'"); }
        if (r == 1) { auto save = s.model; if (mv) mergeModel(s, m); report(s, "assert", readStr(s, A(1).c), *s.model); s.model = save;
            if (!mv) { std::vector<std::pair<uint32_t, u64>> m2; if (S->check(s.cons, c, &m2) != 1) throw PathEnd(); mergeModel(s, m2); } }
        addCons(s, c); return ret(VC(0)); }
    case B_COVER: { s.covers.insert(readStr(s, A(0).c)); return ret(VC(0)); }
    case B_CONC: return ret(VC(concretize(s, A(0), 64)));
    case B_FAIL: fail(s, "assert", readStr(s, A(0).c));
    case B_LIVE: return ret(VC(s.heapLive));
    case B_TRACE: { if (optVerbose || replaying) { Val v = A(1); fprintf(stderr, "trace %s %lld%s\n", readStr(s, A(0).c).c_str(), (long long)(v.e ? (u64)X.eval(v.e, *s.model) : v.c), v.e ? " (sym)" : ""); } return ret(VC(0)); }
    case B_ISSYM: return ret(VC(A(0).e != nullptr));
    case B_OPT: { Str n = readStr(s, A(0).c); u64 v = A(1).c; if (n == "timeouts") s.timeouts = v; else if (n == "nosched") s.noSched = (int)v; else if (n == "fifo") s.fifo = v != 0; return ret(VC(0)); }
    case B_EXIT: throw PathEnd();
    case B_SILENT: nAssumeDrop++; throw PathEnd();
    case B_SCHED: { if (!schedPoint(s)) return true; return ret(VC(0)); }
    case B_WAIT: {
        u64 p = concretize(s, A(0), 64); uint32_t v = (uint32_t)concretize(s, A(1), 32); Loc wl = resolve(s, VC(p), 4, false); u64 cur = concretize(s, readLoc(s, wl, wl.off, 4, 32), 32); auto &T = s.th[s.cur];
        if (cur == v) { T.timedOut = false; return ret(VC(0)); }
        if (T.timedOut) { T.timedOut = false; return ret(VC(1)); }
        T.status = Thread::Wait; T.waitAddr = p; T.waitVal = v; T.timed = A(2).c != 0; pickNext(s, true); return true; }
    case B_THNEW: {
        Val fn = A(0), arg = A(1); Function *F = fnAt[fn.c]; int tid = s.th.size(); 
        if (q.dest >= 0) f.regs[q.dest] = VC(tid); adv(f);
        s.th.emplace_back(); Thread &T = s.th.back(); auto &P = s.th[s.cur]; if ((int)P.vc.size() <= s.cur) P.vc.resize(s.cur + 1, 0); P.vc[s.cur]++; T.vc = P.vc; T.vc.resize(tid + 1, 0); T.vc[tid] = 1; P.vc[s.cur]++;
        int save = s.cur; s.cur = tid; pushFrame(s, s.th.back(), F, { arg }); s.cur = save; return true; }
    case B_THJOIN: { int t = (int)A(0).c; auto &T = s.th[s.cur]; if (s.th[t].status == Thread::Done) { joinVC(T.vc, s.th[t].vc); return ret(VC(0)); } T.status = Thread::Join; T.joinTid = t; pickNext(s, true); return true; }
    case B_THSELF: return ret(VC(s.cur));
    case B_THDONE: return ret(VC(s.th[A(0).c].status == Thread::Done));
    case B_CHOOSE: { u64 n = A(0).c; u64 c = 0; if (replaying) { if (s.replaySched < replaySched.size()) c = replaySched[s.replaySched++]; } else for (u64 i = 1; i < n; i++) { State *o = new State(s); Frame &of = o->th[o->cur].st.back(); if (q.dest >= 0) of.regs[q.dest] = VC(i); adv(of); o->sched.push_back((int)i); work.push_back(o); nSchedForks++; } s.sched.push_back((int)c); return ret(VC(c)); }
    case B_HBACQ: { auto it = s.sync.find(A(0).c); if (it != s.sync.end()) joinVC(s.th[s.cur].vc, it->second); return ret(VC(0)); }
    case B_HBREL: { if (s.th.size() > 1) { auto &T = s.th[s.cur]; if ((int)T.vc.size() <= s.cur) T.vc.resize(s.cur + 1, 0); joinVC(s.sync[A(0).c], T.vc); T.vc[s.cur]++; } return ret(VC(0)); }
    case B_ATOMIC: s.noSched += (A(0).c ? 1 : -1); return ret(VC(0));
    case B_MAPALIAS: { // returns base of a 2n-byte region whose halves are the same n bytes
        u64 n = concretize(s, A(0), 64); ObjP o = newObj(s, 2 * n, OHeap, true, "alias"); o->alias = n; s.heapLive++; return ret(VC(o->base)); }
    case B_ALIVE: { u64 p = concretize(s, A(0), 64); MemObj *o = s.mem.get(p >> SLOT_SHIFT); return ret(VC(o && o->alive && p >= o->base && p <= o->base + o->size)); }
    case B_OBJSIZE: { u64 p = concretize(s, A(0), 64); MemObj *o = s.mem.get(p >> SLOT_SHIFT); return ret(VC(o && o->alive ? o->size - (p - o->base) : 0)); }
    case B_UNWIND: { u64 obj = A(0).c, ti = A(1).c; unwind(s, obj, ti); return true; }
    case B_SQRT: return ret(V(X.un(KFSqrt, R(A(0), q.w), q.w)));
    case B_FABS: return ret(V(X.andE(R(A(0), q.w), X.cst(maskw(q.w - 1), q.w))));
    case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: return ret(V(X.un(KFRound, R(A(0), q.w), q.w, b - B_FLOOR)));
    case B_MATH1: { if (A(0).e) unsupported(s, "symbolic " + callee->getName().str()); double x = fromBits(A(0).c), r = 0; Str n = callee->getName().str();
        if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x); else if (n == "cbrt") r = cbrt(x); else if (n == "atan") r = atan(x); else if (n == "exp2") r = exp2(x); else unsupported(s, n); return ret(VC(toBits(r))); }
    case B_MATH2: { if (A(0).e || A(1).e) unsupported(s, "symbolic " + callee->getName().str()); Str n = callee->getName().str(); double x = fromBits(A(0).c), y = n == "ldexp" ? 0 : fromBits(A(1).c), r = 0; if (n == "pow") r = pow(x, y); else if (n == "atan2") r = atan2(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "hypot") r = hypot(x, y); else r = ldexp(x, (int)A(1).c); return ret(VC(toBits(r))); }
    }
    return false;
}

static void execCall(State &s, InstInfo &q) {
    Thread &T = s.th[s.cur]; Frame &f = T.st.back();
    Function *F = q.callee; unsigned na = cast<CallBase>(q.I)->arg_size();
    if (!F) {
        if (q.builtin == B_NOP) { if (q.dest >= 0) { // inline asm: identity barriers only
                if (q.ops.size() >= 1 && q.w) f.regs[q.dest] = get(f, q.ops[0]); else unsupported(s, "inline asm"); } if (q.op == Instruction::Invoke) takeEdge(f, q.edges[0]); else f.pc++; return; }
        u64 a = concretize(s, get(f, q.ops.back()), 64); auto it = fnAt.find(a);
        if (it == fnAt.end()) { fail(s, "memory", a < 65536 ? "call through null function pointer" : "call through invalid function pointer"); }
        F = it->second;
    }
    if (F->isIntrinsic()) { execIntrinsic(s, f, q, F->getIntrinsicID()); return; }
    static std::unordered_map<Function *, std::pair<int, Function *>> cls; auto ci = cls.find(F);
    if (ci == cls.end()) {
        Str n = F->getName().str(); int b = 0; Function *ov = nullptr;
        auto o = overrides.find(n); if (o != overrides.end()) ov = o->second;
        else if (optNop.count(n)) b = B_NOP;
        else { auto t = builtinTab.find(n); if (t != builtinTab.end()) b = t->second; }
        ci = cls.emplace(F, std::make_pair(b, ov)).first;
    }
    if (ci->second.first) { if (execBuiltin(s, f, q, ci->second.first, F)) return; }
    if (ci->second.second) F = ci->second.second;
    std::vector<Val> args(na); std::vector<unsigned> vw; for (unsigned i = 0; i < na; i++) args[i] = get(f, q.ops[i]);
    if (F->isVarArg()) for (unsigned i = 0; i < na; i++) vw.push_back(typeW(cast<CallBase>(q.I)->getArgOperand(i)->getType()));
    pushFrame(s, T, F, args, vw);
}

// executes until the path ends (PathEnd)
static void runState(State &s) {
    u64 check = 0;
    while (true) {
        Thread &T = s.th[s.cur]; Frame &f = T.st.back(); InstInfo &q = f.f->code[f.pc];
        s.steps++; nSteps++;
        if (s.steps > optMaxSteps) fail(s, "hang", "execution exceeded the step bound (possible non-termination)");
        if ((++check & 0xfff) == 0 && elapsed() > optTime) { note("time limit reached"); throw Fatal{ "time" }; }
        switch (q.op) {
        case Instruction::Ret: { Val v = q.ops.empty() ? VC(0) : get(f, q.ops[0]); doReturn(s, v); break; }
        case Instruction::Br: {
            if (q.ops.empty()) { takeEdge(f, q.edges[0]); break; }
            Val c = get(f, q.ops[0]); bool t = c.e ? decide(s, c.e) : c.c; takeEdge(s.th[s.cur].st.back(), q.edges[t ? 0 : 1]); break; }
        case Instruction::Switch: {
            Val c = get(f, q.ops[0]); int e = 0;
            if (!c.e) { for (auto &k : q.cases) if (k.first == c.c) { e = k.second; break; } takeEdge(f, q.edges[e]); break; }
            bool done = false; for (auto &k : q.cases) if (decide(s, X.eq(c.e, X.cst(k.first, q.ow)))) { takeEdge(s.th[s.cur].st.back(), q.edges[k.second]); done = true; break; }
            if (!done) takeEdge(s.th[s.cur].st.back(), q.edges[0]); break; }
        case Instruction::Unreachable: fail(s, "ub", "reached unreachable code");
        case Instruction::Call: case Instruction::Invoke: execCall(s, q); break;
        case Instruction::Resume: { Val v = get(f, q.ops[0]); u64 obj = (*v.e->agg)[0].c; u64 ti = loadMem(s, VC(obj - 24), 8, 64).c;
            // treat as a call to _Unwind_Resume: push a dummy so unwind() pops this frame
            unwind(s, obj, ti); break; }
        case Instruction::Alloca: { u64 n = concretize(s, get(f, q.ops[0]), q.ow); u64 p = allocMem(s, n * q.sz, OStack, false, "stack"); f.allocas.push_back(p >> SLOT_SHIFT); f.regs[q.dest] = VC(p); f.pc++; break; }
        case Instruction::Load: {
            auto *LI = cast<LoadInst>(q.I); bool at = LI->isAtomic();
            if (at && !f.f->rt) { if (!schedPoint(s)) break; }
            Frame &g = s.th[s.cur].st.back(); Val a = get(g, q.ops[0]); Val r;
            if (q.w) r = loadMem(s, a, q.sz, q.w, at); else r = loadTyped(s, a, q.I->getType());
            g.regs[q.dest] = r; g.pc++;
            if (at && s.th.size() > 1) { u64 ad = concretize(s, a, 64); hbLoad(s, ad, LI->getOrdering()); noteSpin(s, q.I, ad, r, q.sz * 8, false); if (s.th[s.cur].status != Thread::Run) pickNext(s, true); }
            break; }
        case Instruction::Store: {
            auto *SI = cast<StoreInst>(q.I); bool at = SI->isAtomic();
            if (at && !f.f->rt) { if (!schedPoint(s)) break; }
            Frame &g = s.th[s.cur].st.back(); Val v = get(g, q.ops[0]), a = get(g, q.ops[1]);
            if (q.ow && q.sz <= 8) storeMem(s, a, q.sz, v, q.ow, at); else storeTyped(s, a, v, q.I->getOperand(0)->getType());
            if (at && s.th.size() > 1) { hbStore(s, concretize(s, a, 64), SI->getOrdering(), false); noteSpin(s, q.I, 0, v, 64, true); }
            g.pc++; break; }
        case Instruction::AtomicRMW: {
            auto *AI = cast<AtomicRMWInst>(q.I); if (!f.f->rt && !schedPoint(s)) break;
            Frame &g = s.th[s.cur].st.back(); Val a = VC(concretize(s, get(g, q.ops[0]), 64)), v = get(g, q.ops[1]); unsigned nb = DL->getTypeStoreSize(AI->getType());
            Val o = loadMem(s, a, nb, q.w, true), n;
            switch (AI->getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, v, q.w); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, v, q.w); break;
            case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v, q.w); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v, q.w); break; case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, o, v, q.w); break;
            case AtomicRMWInst::Max: n = V(X.ite(X.slt(R(o, q.w), R(v, q.w)), R(v, q.w), R(o, q.w))); break; case AtomicRMWInst::Min: n = V(X.ite(X.slt(R(o, q.w), R(v, q.w)), R(o, q.w), R(v, q.w))); break;
            case AtomicRMWInst::UMax: n = V(X.ite(X.ult(R(o, q.w), R(v, q.w)), R(v, q.w), R(o, q.w))); break; case AtomicRMWInst::UMin: n = V(X.ite(X.ult(R(o, q.w), R(v, q.w)), R(o, q.w), R(v, q.w))); break;
            default: unsupported(s, "atomicrmw"); }
            hbLoad(s, a.c, AI->getOrdering()); storeMem(s, a, nb, n, q.w, true); hbStore(s, a.c, AI->getOrdering(), true);
            g.regs[q.dest] = o; g.pc++;
            noteSpin(s, q.I, a.c, o, nb * 8, !(n.c == o.c && n.e == o.e)); if (s.th[s.cur].status != Thread::Run) pickNext(s, true);
            break; }
        case Instruction::AtomicCmpXchg: {
            auto *AI = cast<AtomicCmpXchgInst>(q.I); if (!f.f->rt && !schedPoint(s)) break;
            Frame &g = s.th[s.cur].st.back(); Val a = VC(concretize(s, get(g, q.ops[0]), 64)), c = get(g, q.ops[1]), n = get(g, q.ops[2]); Type *T2 = AI->getCompareOperand()->getType(); unsigned w = typeW(T2), nb = DL->getTypeStoreSize(T2);
            Val o = loadMem(s, a, nb, w, true); Val eqv = icmp(CmpInst::ICMP_EQ, o, c, w); bool ok = eqv.e ? decide(s, eqv.e) : eqv.c;
            hbLoad(s, a.c, ok ? AI->getSuccessOrdering() : AI->getFailureOrdering());
            if (ok) { storeMem(s, a, nb, n, w, true); hbStore(s, a.c, AI->getSuccessOrdering(), true); }
            g.regs[q.dest] = mkAggV({ o, VC(ok) }); g.pc++;
            noteSpin(s, q.I, a.c, o, nb * 8, ok && !(n.c == o.c && n.e == o.e)); if (s.th[s.cur].status != Thread::Run) pickNext(s, true);
            break; }
        case Instruction::Fence: {
            auto *FI = cast<FenceInst>(q.I); if (s.th.size() > 1) { auto &T2 = s.th[s.cur]; if (ordAcq(FI->getOrdering())) { joinVC(T2.vc, T2.acqF); T2.acqF.clear(); } if (ordRel(FI->getOrdering())) { T2.relF = T2.vc; if ((int)T2.vc.size() <= s.cur) T2.vc.resize(s.cur + 1, 0); T2.vc[s.cur]++; } } f.pc++; break; }
        case Instruction::GetElementPtr: {
            Val b = get(f, q.ops[0]);
            if (q.gepVar.empty()) { f.regs[q.dest] = b.e ? V(X.add(b.e, X.cst((u64)q.gepOff, 64))) : VC(b.c + q.gepOff); f.pc++; break; }
            Val acc = b; u64 off = q.gepOff;
            for (size_t i = 0; i < q.gepVar.size(); i++) { Val ix = get(f, q.gepVar[i].first); unsigned w = q.gepW[i]; if (!ix.e) { off += (u64)sext64(ix.c, w) * (u64)q.gepVar[i].second; continue; }
                Ref e = w < 64 ? X.sext(ix.e, 64) : ix.e; e = X.mul(e, X.cst((u64)q.gepVar[i].second, 64)); acc = V(X.add(R(acc, 64), e)); }
            f.regs[q.dest] = acc.e ? V(X.add(acc.e, X.cst(off, 64))) : VC(acc.c + off); f.pc++; break; }
        case Instruction::ICmp: {
            auto p = cast<CmpInst>(q.I)->getPredicate(); Val a = get(f, q.ops[0]), b = get(f, q.ops[1]);
            if (!q.vec) f.regs[q.dest] = icmp(p, a, b, q.ow);
            else { auto *VT = cast<FixedVectorType>(q.I->getOperand(0)->getType()); unsigned n = VT->getNumElements(), lw = q.ow / n; std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(icmp(p, laneV(a, i, lw, q.ow), laneV(b, i, lw, q.ow), lw)); f.regs[q.dest] = concatV(l, 1); }
            f.pc++; break; }
        case Instruction::FCmp: {
            auto p = cast<CmpInst>(q.I)->getPredicate(); Val a = get(f, q.ops[0]), b = get(f, q.ops[1]);
            if (!q.vec) f.regs[q.dest] = V(fcmpE(p, R(a, q.ow), R(b, q.ow)));
            else { auto *VT = cast<FixedVectorType>(q.I->getOperand(0)->getType()); unsigned n = VT->getNumElements(), lw = q.ow / n; std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(V(fcmpE(p, R(laneV(a, i, lw, q.ow), lw), R(laneV(b, i, lw, q.ow), lw)))); f.regs[q.dest] = concatV(l, 1); }
            f.pc++; break; }
        case Instruction::Select: {
            Val c = get(f, q.ops[0]), a = get(f, q.ops[1]), b = get(f, q.ops[2]);
            if (q.I->getOperand(0)->getType()->isVectorTy()) { auto *VT = cast<FixedVectorType>(q.I->getType()); unsigned n = VT->getNumElements(), lw = q.w / n; std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(V(X.ite(R(laneV(c, i, 1, n), 1), R(laneV(a, i, lw, q.w), lw), R(laneV(b, i, lw, q.w), lw)))); f.regs[q.dest] = concatV(l, lw); f.pc++; break; }
            if (!c.e) { f.regs[q.dest] = c.c ? a : b; f.pc++; break; }
            // pointers and aggregates: fork; integers: ite
            if (q.I->getType()->isPointerTy() || !q.w) { bool t = decide(s, c.e); Frame &g = s.th[s.cur].st.back(); g.regs[q.dest] = t ? a : b; g.pc++; break; }
            f.regs[q.dest] = V(X.ite(c.e, R(a, q.w), R(b, q.w))); f.pc++; break; }
        case Instruction::FNeg: { Val a = get(f, q.ops[0]); auto *VT = dyn_cast<FixedVectorType>(q.I->getType()); unsigned n = VT ? VT->getNumElements() : 1, lw = q.w / n; std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(V(X.xorE(R(n == 1 ? a : laneV(a, i, lw, q.w), lw), X.cst((u128)1 << (lw - 1), lw)))); f.regs[q.dest] = n == 1 ? l[0] : concatV(l, lw); f.pc++; break; }
        case Instruction::ExtractValue: { Val a = get(f, q.ops[0]); for (unsigned i : cast<ExtractValueInst>(q.I)->indices()) a = (*a.e->agg)[i]; f.regs[q.dest] = a; f.pc++; break; }
        case Instruction::InsertValue: {
            Val a = get(f, q.ops[0]), v = get(f, q.ops[1]); auto idx = cast<InsertValueInst>(q.I)->getIndices();
            std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned d) -> Val { if (d == idx.size()) return v; std::vector<Val> c = *x.e->agg; c[idx[d]] = ins(c[idx[d]], d + 1); return mkAggV(c); };
            f.regs[q.dest] = ins(a, 0); f.pc++; break; }
        case Instruction::ExtractElement: { Val a = get(f, q.ops[0]); unsigned w = q.w; u64 i = concretize(s, get(f, q.ops[1]), 64); f.regs[q.dest] = laneV(a, i, w, q.ow); f.pc++; break; }
        case Instruction::InsertElement: { Val a = get(f, q.ops[0]), v = get(f, q.ops[1]); auto *VT = cast<FixedVectorType>(q.I->getType()); unsigned n = VT->getNumElements(), lw = q.w / n; u64 k = concretize(s, get(f, q.ops[2]), 64); std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(i == k ? v : laneV(a, i, lw, q.w)); f.regs[q.dest] = concatV(l, lw); f.pc++; break; }
        case Instruction::ShuffleVector: { auto *SV = cast<ShuffleVectorInst>(q.I); auto *VT = cast<FixedVectorType>(SV->getOperand(0)->getType()); unsigned n = VT->getNumElements(), lw = typeW(VT->getElementType()); Val a = get(f, q.ops[0]), b = get(f, q.ops[1]); std::vector<Val> l; for (int m : SV->getShuffleMask()) l.push_back(m < 0 ? VC(0) : (unsigned)m < n ? laneV(a, m, lw, n * lw) : laneV(b, m - n, lw, n * lw)); f.regs[q.dest] = concatV(l, lw); f.pc++; break; }
        case Instruction::Freeze: f.regs[q.dest] = get(f, q.ops[0]); f.pc++; break;
        case Instruction::LandingPad: throw Fatal{ "fell into landingpad" };
        default:
            if (Instruction::isBinaryOp(q.op)) {
                Val a = get(f, q.ops[0]), b = get(f, q.ops[1]);
                if (!q.vec) { Val r = binop(s, q.op, a, b, q.w); s.th[s.cur].st.back().regs[q.dest] = r; }
                else { auto *VT = cast<FixedVectorType>(q.I->getType()); unsigned n = VT->getNumElements(), lw = q.w / n; std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(binop(s, q.op, laneV(a, i, lw, q.w), laneV(b, i, lw, q.w), lw)); f.regs[q.dest] = concatV(l, lw); }
                s.th[s.cur].st.back().pc++; break;
            }
            if (Instruction::isCast(q.op)) {
                Val a = get(f, q.ops[0]); auto *VT = dyn_cast<FixedVectorType>(q.I->getType());
                if (!VT || q.op == Instruction::BitCast) f.regs[q.dest] = castop(s, q.op, a, q.ow, q.w);
                else { unsigned n = VT->getNumElements(); std::vector<Val> l; for (unsigned i = 0; i < n; i++) l.push_back(castop(s, q.op, laneV(a, i, q.ow / n, q.ow), q.ow / n, q.w / n)); f.regs[q.dest] = concatV(l, q.w / n); }
                f.pc++; break;
            }
            unsupported(s, Str("instruction ") + q.I->getOpcodeName());
        }
    }
}

// ------------------------------------------------------------------ driver
static Str jesc(const Str &s) { Str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static void endPath(State *s) { nPaths++; maxPathSteps = std::max(maxPathSteps, s->steps); for (auto &c : s->covers) coverCnt[c]++;
    if (s->finished && !replaying) { static u64 n = 0, nxt = 1; n++; if (n == nxt && samples.size() < 24) { nxt = n < 4 ? n + 1 : n * 2; Sample sm; for (auto &i : s->in) sm.in.push_back({ *i.name, (u64)X.eval(i.e, *s->model) }); for (auto &c : s->covers) sm.covers.push_back(c); samples.push_back(sm); } }
    delete s; }

int main(int argc, char **argv) {
    std::vector<Str> files; Str rtFile; unsigned to = 60000; Str dump; unsigned dumpN = 0;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i]; auto val = [&](const char *p) { return a.substr(strlen(p)); };
        if (a.rfind("--entry=", 0) == 0) optEntry = val("--entry="); else if (a.rfind("--out=", 0) == 0) optOut = val("--out="); else if (a.rfind("--time=", 0) == 0) optTime = atof(val("--time=").c_str());
        else if (a.rfind("--max-steps=", 0) == 0) optMaxSteps = strtoull(val("--max-steps=").c_str(), 0, 10); else if (a.rfind("--max-paths=", 0) == 0) optMaxPaths = strtoull(val("--max-paths=").c_str(), 0, 10);
        else if (a.rfind("--preempt=", 0) == 0) optPreempt = atoi(val("--preempt=").c_str()); else if (a.rfind("--replay=", 0) == 0) optReplay = val("--replay="); else if (a.rfind("--rt=", 0) == 0) rtFile = val("--rt=");
        else if (a.rfind("--nop=", 0) == 0) optNop.insert(val("--nop=")); else if (a.rfind("--skip-ctor=", 0) == 0) optSkipCtor.insert(val("--skip-ctor=")); else if (a.rfind("--ctor-only=", 0) == 0) optCtorOnly.insert(val("--ctor-only=")); else if (a.rfind("--shard=", 0) == 0) sscanf(a.c_str(), "--shard=%u/%u", &optShardI, &optShardN);
        else if (a == "-v") optVerbose++; else if (a == "--no-race") optRace = false; else if (a == "--no-format") optNoFormat = true; else if (a.rfind("--solver-timeout=", 0) == 0) to = atoi(val("--solver-timeout=").c_str()); else if (a.rfind("--max-alloc=", 0) == 0) optMaxAlloc = strtoull(val("--max-alloc=").c_str(), 0, 10);
        else if (a.rfind("--dump=", 0) == 0) { dump = val("--dump="); dumpN = 200; } else if (a.rfind("--max-viol=", 0) == 0) optMaxViol = atoi(val("--max-viol=").c_str()); else if (a.rfind("--mem=", 0) == 0) optMemMB = strtoull(val("--mem=").c_str(), 0, 10);
        else files.push_back(a);
    }
    tStart = std::chrono::steady_clock::now();
    S = new Solver(X, to); S->dumpDir = dump; S->dumpMax = dumpN;
    LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod; initBuiltins();
    auto load = [&](const Str &fn) { auto m = parseIRFile(fn, err, ctx); if (!m) { err.print("symx", errs()); exit(4); } return m; };
    if (!rtFile.empty()) { auto m = load(rtFile); for (auto &F : *m) if (!F.isDeclaration()) rtNames.insert(F.getName().str()); mod = std::move(m); }
    for (auto &fn : files) { auto m = load(fn); for (auto &F : *m) if (!F.isDeclaration() && !F.hasLinkOnceLinkage() && !F.hasWeakLinkage()) rtNames.erase(F.getName().str()); if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link failed %s\n", fn.c_str()); return 4; } }
    // functions of the runtime that are ordinary library templates are not runtime internals
    for (auto it = rtNames.begin(); it != rtNames.end();) { Function *F = mod->getFunction(*it); if (!F || F->hasLinkOnceLinkage() || F->hasWeakLinkage()) it = rtNames.erase(it); else ++it; }
    M = mod.get(); DL = &M->getDataLayout();
    for (auto &F : *M) { StringRef n = F.getName(); if (n.starts_with("symx_override.")) { overrides[n.substr(14).str()] = &F; rtNames.insert(n.str()); } }
    if (!optReplay.empty()) { replaying = true; std::ifstream in(optReplay); Str k; while (in >> k) { if (k == "sched") { int v; in >> v; replaySched.push_back(v); } else if (k == "in") { Str n; u64 v; in >> n >> v; replayIn.push_back({ n, v }); } else { Str rest; std::getline(in, rest); } } }
    int rc = 0;
    try {
        State *s = new State(); s->model = std::make_shared<std::vector<u64>>();
        for (auto &G : M->globals()) { if (G.hasExternalWeakLinkage()) { gAddr[&G] = 0; continue; } if (G.getName().starts_with("llvm.")) continue; u64 n = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; if (!n) n = 1; ObjP o = newObj(*s, n, OGlobal, true, "global"); gAddr[&G] = o->base; gvAt[o->base] = &G; }
        for (auto &F : *M) if (!F.isIntrinsic()) addrOf(&F);
        for (auto &G : M->globals()) if (G.hasInitializer() && gAddr.count(&G) && gAddr[&G]) { MemObj *o = s->mem.getW(gAddr[&G] >> SLOT_SHIFT); writeConst(o, 0, G.getInitializer()); if (G.isConstant()) o->readonly = true; }
        s->th.emplace_back(); s->th[0].vc = { 1 };
        // global constructors then the entry
        std::vector<Function *> ctors;
        if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<u64, Function *>> v; for (auto &o : CA->operands()) { auto *cs = cast<ConstantStruct>(o.get()); auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (F) v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F }); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) { Str n = p.second->getName().str(); bool skip = false; for (auto &k : optSkipCtor) if (n.find(k) != Str::npos) skip = true; if (!optCtorOnly.empty() && n.find("_I_rt") == Str::npos) { skip = true; for (auto &k : optCtorOnly) if (n.find(k) != Str::npos) skip = false; } if (!skip) ctors.push_back(p.second); } }
        Function *E = M->getFunction(optEntry); if (!E) throw Fatal{ "entry function not found: " + optEntry };
        // synthesise a driver: frames pushed in reverse cannot share; build IR
        auto *FT = FunctionType::get(Type::getVoidTy(ctx), false); Function *Drv = Function::Create(FT, GlobalValue::InternalLinkage, "symx_driver", M); auto *BB = BasicBlock::Create(ctx, "", Drv);
        for (auto *c : ctors) CallInst::Create(FT, c, "", BB);
        CallInst::Create(E->getFunctionType(), E, "", BB); ReturnInst::Create(ctx, BB); addrOf(Drv); rtNames.insert("symx_driver");
        pushFrame(*s, s->th[0], Drv, {});
        work.push_back(s);
        u64 it = 0;
        while (!work.empty()) {
            State *c = work.back(); work.pop_back();
            if (nPaths >= optMaxPaths) { note("path limit reached"); break; }
            if ((++it & 0xff) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > optMemMB) { note("memory limit reached"); break; } }
            try { runState(*c); } catch (PathEnd &) { endPath(c); }
            if ((int)viols.size() >= optMaxViol) { note("violation limit reached"); break; }
            if (!viols.empty() && elapsed() > optTime) break;
        }
    } catch (Fatal &f) { if (f.msg != "time") note("fatal: " + f.msg); }
    double el = elapsed(); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    std::ostringstream o;
    o << "{\n \"complete\": " << (incomplete.empty() ? "true" : "false") << ",\n \"incomplete\": ["; for (size_t i = 0; i < incomplete.size(); i++) o << (i ? ", " : "") << "\"" << jesc(incomplete[i]) << "\"";
    o << "],\n \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"sched_forks\": " << nSchedForks << ", \"instructions\": " << nSteps << ", \"max_path_steps\": " << maxPathSteps << ", \"assertions_evaluated\": " << nAsserts << ", \"assertion_queries\": " << nAssertQ << ", \"assume_pruned\": " << nAssumeDrop << ",\n";
    o << " \"queries\": " << S->st.queries << ", \"sat\": " << S->st.sat << ", \"unsat\": " << S->st.unsat << ", \"unknown\": " << S->st.unknown << ", \"cache_hits\": " << S->st.cacheHits << ", \"solver_s\": " << S->st.time << ", \"max_query_s\": " << S->st.maxTime << ",\n";
    o << " \"wall_s\": " << el << ", \"rss_mb\": " << ru.ru_maxrss / 1024 << ", \"symbolic_vars\": " << X.varWidth.size() << ", \"pending\": " << work.size() << ",\n \"covers\": {"; { bool fst = true; for (auto &c : coverCnt) { o << (fst ? "" : ", ") << "\"" << jesc(c.first) << "\": " << c.second; fst = false; } }
    o << "},\n \"functions\": ["; { bool fst = true; std::set<Str> ns;
        auto addSP = [&](const DISubprogram *sp) { if (!sp || !sp->getFile()) return; Str fn = sp->getFile()->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getFile()->getDirectory().str() + "/" + fn; size_t q = fn.find("/repo/"); if (q == Str::npos) return; ns.insert(fn.substr(q + 6) + ": " + sp->getName().str().substr(0, 80)); };
        for (auto *f : usedFuncs) if (!f->rt) { addSP(f->F->getSubprogram()); for (auto &BB : *f->F) for (auto &I : BB) for (const DILocation *d = I.getDebugLoc().get(); d; d = d->getInlinedAt()) if (auto *sc = dyn_cast_or_null<DILocalScope>(d->getScope())) addSP(sc->getSubprogram()); }
        for (auto &n : ns) { o << (fst ? "" : ", ") << "\"" << jesc(n) << "\""; fst = false; } }
    o << "],\n \"violations\": ["; for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; o << (i ? ",\n" : "\n") << "  {\"kind\": \"" << jesc(v.kind) << "\", \"msg\": \"" << jesc(v.msg) << "\", \"where\": \"" << jesc(v.where) << "\", \"count\": " << v.count << ", \"inputs\": ["; for (size_t k = 0; k < v.in.size(); k++) o << (k ? ", " : "") << "[\"" << jesc(v.in[k].first) << "\", " << v.in[k].second << "]"; o << "], \"sched\": ["; for (size_t k = 0; k < v.sched.size(); k++) o << (k ? ", " : "") << v.sched[k]; o << "]}"; }
    o << "],\n \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) { o << (i ? ",\n" : "\n") << "  {\"covers\": ["; for (size_t k = 0; k < samples[i].covers.size(); k++) o << (k ? ", " : "") << "\"" << jesc(samples[i].covers[k]) << "\""; o << "], \"inputs\": ["; for (size_t k = 0; k < samples[i].in.size(); k++) o << (k ? ", " : "") << "[\"" << jesc(samples[i].in[k].first) << "\", " << samples[i].in[k].second << "]"; o << "]}"; }
    o << "]\n}\n";
    if (!optOut.empty()) { std::ofstream fo(optOut); fo << o.str(); } else std::cout << o.str();
    if (!viols.empty()) rc = 1; else if (!incomplete.empty()) rc = 2;
    fflush(stdout); _exit(rc);
}
