// ------------------------------------------------------------------ constants
static Val zeroVal(Type *T);
static Val mkAggV(std::vector<Val> v) { return { 0, X.mkAgg(new std::vector<Val>(std::move(v))) }; }
static Val zeroVal(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < ST->getNumElements(); i++) v.push_back(zeroVal(ST->getElementType(i))); return mkAggV(v); }
    if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < AT->getNumElements(); i++) v.push_back(zeroVal(AT->getElementType())); return mkAggV(v); }
    unsigned w = typeW(T); return VC128(0, w ? w : 1);
}
static Val concatV(const std::vector<Val> &lanes, unsigned lw) {
    Ref acc = nullptr; for (auto &l : lanes) { Ref e = R(l, lw); acc = acc ? X.concat(e, acc) : e; } return V(acc);
}
static Val laneV(Val v, unsigned i, unsigned lw, unsigned tw) {
    if (!v.e) return VC((v.c >> (i * lw)) & mask64(lw));
    return V(X.extract(v.e, i * lw, lw));
}
static u64 addrOf(const GlobalValue *G) {
    auto it = gAddr.find(G); if (it != gAddr.end()) return it->second;
    if (auto *A = dyn_cast<GlobalAlias>(G)) { auto *B = A->getAliaseeObject(); u64 a = addrOf(cast<GlobalValue>(B)); 
        APInt off(64, 0); const Value *V = A->getAliasee(); if (auto *C = dyn_cast<ConstantExpr>(V)) V->stripAndAccumulateConstantOffsets(*DL, off, true); return gAddr[G] = a + off.getSExtValue(); }
    if (auto *F = dyn_cast<Function>(G)) { if (F->isDeclaration() && F->hasExternalWeakLinkage()) return gAddr[G] = 0; static u64 n = 0; u64 a = FUNC_BASE + 16 * (n++); gAddr[G] = a; fnAt[a] = const_cast<Function *>(F); return a; }
    if (G->hasExternalWeakLinkage()) return gAddr[G] = 0;
    throw Fatal{ "no address for " + G->getName().str() };
}
static Val constVal(const Constant *C) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) { const APInt &a = CI->getValue(); if (a.getBitWidth() <= 64) return VC(a.getZExtValue()); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64; return VC128(v, a.getBitWidth()); }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { APInt a = CF->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return VC(a.getZExtValue()); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64; return VC128(v, a.getBitWidth()); }
    if (isa<ConstantPointerNull>(C)) return VC(0);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroVal(T);
    if (auto *G = dyn_cast<GlobalValue>(C)) return VC(addrOf(G));
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        std::vector<Val> v; for (unsigned i = 0; i < D->getNumElements(); i++) v.push_back(constVal(D->getElementAsConstant(i)));
        if (T->isVectorTy()) return concatV(v, typeW(D->getElementType())); return mkAggV(v);
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
        std::vector<Val> v; for (unsigned i = 0; i < A->getNumOperands(); i++) v.push_back(constVal(A->getOperand(i)));
        if (T->isVectorTy()) return concatV(v, typeW(cast<VectorType>(T)->getElementType())); return mkAggV(v);
    }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        switch (E->getOpcode()) {
        case Instruction::GetElementPtr: { auto *G = cast<GEPOperator>(E); APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) throw Fatal{ "gep constexpr" }; return VC(constVal(cast<Constant>(E->getOperand(0))).c + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return VC(constVal(cast<Constant>(E->getOperand(0))).c & mask64(typeW(T)));
        case Instruction::Sub: return VC((constVal(E->getOperand(0)).c - constVal(E->getOperand(1)).c) & mask64(typeW(T)));
        case Instruction::Add: return VC((constVal(E->getOperand(0)).c + constVal(E->getOperand(1)).c) & mask64(typeW(T)));
        case Instruction::ICmp: { u64 a = constVal(E->getOperand(0)).c, b = constVal(E->getOperand(1)).c; switch (E->getPredicate()) { case CmpInst::ICMP_EQ: return VC(a == b); case CmpInst::ICMP_NE: return VC(a != b); case CmpInst::ICMP_ULT: return VC(a < b); case CmpInst::ICMP_UGT: return VC(a > b); case CmpInst::ICMP_ULE: return VC(a <= b); case CmpInst::ICMP_UGE: return VC(a >= b); default: break; } break; }
        case Instruction::Select: return constVal(E->getOperand(constVal(E->getOperand(0)).c ? 1 : 2));
        case Instruction::And: return VC(constVal(E->getOperand(0)).c & constVal(E->getOperand(1)).c);
        case Instruction::Or: return VC(constVal(E->getOperand(0)).c | constVal(E->getOperand(1)).c);
        case Instruction::Xor: return VC(constVal(E->getOperand(0)).c ^ constVal(E->getOperand(1)).c);
        case Instruction::Shl: return VC((constVal(E->getOperand(0)).c << constVal(E->getOperand(1)).c) & mask64(typeW(T)));
        case Instruction::LShr: return VC(constVal(E->getOperand(0)).c >> constVal(E->getOperand(1)).c);
        default: break;
        }
        Str s; raw_string_ostream o(s); E->print(o); throw Fatal{ "constexpr " + o.str() };
    }
    if (auto *DE = dyn_cast<DSOLocalEquivalent>(C)) return VC(addrOf(DE->getGlobalValue()));
    if (isa<BlockAddress>(C)) throw Fatal{ "blockaddress" };
    throw Fatal{ "constant kind" };
}
static void writeConst(MemObj *o, u64 off, const Constant *C) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        unsigned es = D->getElementByteSize(); StringRef r = D->getRawDataValues(); memcpy(&o->conc[off], r.data(), r.size()); (void)es; return; }
    if (auto *A = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(A->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) writeConst(o, off + L->getElementOffset(i), A->getOperand(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) writeConst(o, off + i * es, A->getOperand(i)); return; }
    Val v = constVal(C); u64 n = DL->getTypeStoreSize(T);
    if (!v.e) { for (u64 i = 0; i < n && i < 8; i++) o->conc[off + i] = (uint8_t)(v.c >> (8 * i)); }
    else { for (u64 i = 0; i < n; i++) o->conc[off + i] = (uint8_t)(v.e->c >> (8 * i)); }
}

// ------------------------------------------------------------------ decoding
enum Builtin { B_NONE = 0, B_NOP,
    B_MALLOC, B_CALLOC, B_FREE, B_REALLOC, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN,
    B_IN, B_PICK, B_BYTES, B_ASSUME, B_ASSERT, B_COVER, B_CONC, B_FAIL, B_LIVE, B_TRACE, B_ISSYM, B_OPT, B_EXIT, B_SILENT,
    B_SCHED, B_WAIT, B_THNEW, B_THJOIN, B_THSELF, B_CHOOSE, B_HBACQ, B_HBREL, B_ATOMIC, B_MAPALIAS, B_ALIVE, B_OBJSIZE, B_THDONE,
    B_UNWIND, B_TYPEID, B_INTRIN, B_SQRT, B_FMOD, B_FABS, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_RINT, B_MATH1, B_MATH2, B_FREXP, B_OVERRIDE };
static std::map<Str, int> builtinTab;
static void initBuiltins() {
    auto &t = builtinTab;
    t["malloc"] = B_MALLOC; t["calloc"] = B_CALLOC; t["free"] = B_FREE; t["realloc"] = B_REALLOC;
    t["memcpy"] = B_MEMCPY; t["memmove"] = B_MEMMOVE; t["memset"] = B_MEMSET; t["memcmp"] = B_MEMCMP; t["bcmp"] = B_MEMCMP; t["memchr"] = B_MEMCHR; t["strlen"] = B_STRLEN;
    t["sx_in"] = B_IN; t["sx_pick"] = B_PICK; t["sx_bytes"] = B_BYTES; t["sx_assume"] = B_ASSUME; t["sx_assert"] = B_ASSERT; t["sx_cover"] = B_COVER; t["sx_concrete"] = B_CONC; t["sx_fail"] = B_FAIL; t["sx_live"] = B_LIVE; t["sx_trace"] = B_TRACE; t["sx_issym"] = B_ISSYM; t["sx_opt"] = B_OPT; t["sx_exit"] = B_EXIT; t["sx_silent_end"] = B_SILENT;
    t["sx_sched"] = B_SCHED; t["sx_wait32"] = B_WAIT; t["sx_thread_new"] = B_THNEW; t["sx_thread_join"] = B_THJOIN; t["sx_thread_self"] = B_THSELF; t["sx_choose"] = B_CHOOSE; t["sx_hb_acquire"] = B_HBACQ; t["sx_hb_release"] = B_HBREL; t["sx_atomic"] = B_ATOMIC; t["sx_map_alias"] = B_MAPALIAS; t["sx_alive"] = B_ALIVE; t["sx_objsize"] = B_OBJSIZE; t["sx_thread_done"] = B_THDONE;
    t["sx_unwind"] = B_UNWIND;
    for (auto n : { "sin", "cos", "tan", "exp", "log", "log2", "log10", "cbrt", "atan", "asin", "acos", "sinh", "cosh", "tanh", "exp2" }) t[n] = B_MATH1;
    for (auto n : { "pow", "atan2", "fmod", "ldexp", "hypot" }) t[n] = B_MATH2;
    for (auto n : { "sqrt", "sqrtf" }) t[n] = B_SQRT; for (auto n : { "fabs", "fabsf" }) t[n] = B_FABS;
    for (auto n : { "floor", "floorf" }) t[n] = B_FLOOR; for (auto n : { "ceil", "ceilf" }) t[n] = B_CEIL; for (auto n : { "trunc", "truncf" }) t[n] = B_TRUNC; for (auto n : { "round", "roundf" }) t[n] = B_ROUND; for (auto n : { "rint", "rintf", "nearbyint", "nearbyintf" }) t[n] = B_RINT;
}
static std::map<const GlobalVariable *, int> typeIds; static int typeIdOf(const Value *v) {
    v = v->stripPointerCasts(); auto *g = dyn_cast<GlobalVariable>(v); if (!g) return 1; // null: catch all
    auto it = typeIds.find(g); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 2; return typeIds[g] = n; }

static FuncInfo *decode(Function *F) {
    auto it = finfo.find(F); if (it != finfo.end()) return it->second;
    FuncInfo *fi = new FuncInfo(); fi->F = F; fi->name = F->getName().str(); fi->rt = rtNames.count(fi->name) > 0; fi->fmt = optNoFormat && (fi->name.rfind("_ZNSt7__cxx119to_stringE", 0) == 0 || fi->name.find("__to_xstring") != Str::npos); finfo[F] = fi;
    std::map<const Value *, int> reg; int n = 0; std::map<const Constant *, int> cidx;
    for (auto &A : F->args()) { reg[&A] = n++; fi->argT.push_back(A.getType()); }
    std::map<const BasicBlock *, int> bpc; int pc = 0;
    for (auto &B : *F) { bpc[&B] = -1; bool first = true; for (auto &I : B) { if (!I.getType()->isVoidTy()) reg[&I] = n++; if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; if (first) { bpc[&B] = pc; first = false; } pc++; } }
    fi->nregs = n;
    auto opnd = [&](Value *v) -> int {
        auto r = reg.find(v); if (r != reg.end()) return r->second;
        if (auto *C = dyn_cast<Constant>(v)) { auto c = cidx.find(C); if (c != cidx.end()) return ~c->second; int k = fi->consts.size(); fi->consts.push_back(constVal(C)); cidx[C] = k; return ~k; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { int k = fi->consts.size(); fi->consts.push_back(VC(0)); return ~k; }
        throw Fatal{ "operand" };
    };
    for (auto &B : *F) for (auto &I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        InstInfo q; q.op = I.getOpcode(); q.I = &I; q.dest = I.getType()->isVoidTy() ? -1 : reg[&I]; q.w = typeW(I.getType()); q.callee = nullptr; q.builtin = 0; q.gepOff = 0; q.sz = 0; q.vec = I.getType()->isVectorTy(); q.ow = 0;
        auto mkEdge = [&](BasicBlock *T) { Edge e; e.pc = bpc[T]; for (auto &P : T->phis()) e.phis.push_back({ reg[&P], opnd(P.getIncomingValueForBlock(&B)) }); return e; };
        if (auto *BI = dyn_cast<BranchInst>(&I)) { if (BI->isConditional()) q.ops.push_back(opnd(BI->getCondition())); for (unsigned i = 0; i < BI->getNumSuccessors(); i++) q.edges.push_back(mkEdge(BI->getSuccessor(i))); }
        else if (auto *SI = dyn_cast<SwitchInst>(&I)) { q.ops.push_back(opnd(SI->getCondition())); q.ow = typeW(SI->getCondition()->getType()); q.edges.push_back(mkEdge(SI->getDefaultDest())); for (auto &c : SI->cases()) { q.cases.push_back({ c.getCaseValue()->getZExtValue(), (int)q.edges.size() }); q.edges.push_back(mkEdge(c.getCaseSuccessor())); } }
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            q.ops.push_back(opnd(G->getPointerOperand()));
            if (I.getType()->isVectorTy()) throw Fatal{ "vector gep" };
            for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                Value *ix = gi.getOperand();
                if (StructType *ST = gi.getStructTypeOrNull()) { q.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto *CI = dyn_cast<ConstantInt>(ix)) { q.gepOff += CI->getSExtValue() * (int64_t)es; continue; }
                q.gepVar.push_back({ opnd(ix), (int64_t)es }); q.gepW.push_back(typeW(ix->getType()));
            }
        }
        else if (auto *CB = dyn_cast<CallBase>(&I)) {
            for (auto &A : CB->args()) q.ops.push_back(opnd(A.get()));
            Value *cv = CB->getCalledOperand()->stripPointerCasts(); if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
            q.callee = dyn_cast<Function>(cv);
            if (!q.callee && !isa<InlineAsm>(cv)) q.ops.push_back(opnd(CB->getCalledOperand()));
            if (isa<InlineAsm>(cv)) q.builtin = B_NOP;
            if (auto *IV = dyn_cast<InvokeInst>(&I)) { q.edges.push_back(mkEdge(IV->getNormalDest())); q.edges.push_back(mkEdge(IV->getUnwindDest())); }
        }
        else if (isa<LandingPadInst>(I)) {}
        else if (auto *AI = dyn_cast<AllocaInst>(&I)) { q.ops.push_back(opnd(AI->getArraySize())); q.sz = DL->getTypeAllocSize(AI->getAllocatedType()); q.ow = typeW(AI->getArraySize()->getType()); }
        else { for (auto &O : I.operands()) q.ops.push_back(opnd(O.get())); if (I.getNumOperands()) q.ow = typeW(I.getOperand(0)->getType()); 
            if (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy()) q.vec = true;
            if (isa<LoadInst>(I)) q.sz = DL->getTypeStoreSize(I.getType()); if (isa<StoreInst>(I)) q.sz = DL->getTypeStoreSize(I.getOperand(0)->getType()); }
        fi->code.push_back(std::move(q));
    }
    return fi;
}

// ------------------------------------------------------------------ scalar operations
static Val binop(State &s, unsigned op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (op) {
        case Instruction::Add: return VC((x + y) & m); case Instruction::Sub: return VC((x - y) & m); case Instruction::Mul: return VC((x * y) & m);
        case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); return VC(y >= w ? 0 : (x << y) & m);
        case Instruction::LShr: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); return VC(y >= w ? 0 : x >> y);
        case Instruction::AShr: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); { int64_t p = sext64(x, w); return VC((u64)(p >> (y >= w ? w - 1 : y)) & m); }
        case Instruction::UDiv: if (!y) fail(s, "ub", "division by zero"); return VC(x / y);
        case Instruction::URem: if (!y) fail(s, "ub", "division by zero"); return VC(x % y);
        case Instruction::SDiv: case Instruction::SRem: { int64_t p = sext64(x, w), r = sext64(y, w); if (!r) fail(s, "ub", "division by zero"); if (r == -1) { if (op == Instruction::SRem) return VC(0); return VC((0 - (u64)p) & m); } return VC((u64)(op == Instruction::SDiv ? p / r : p % r) & m); }
        case Instruction::FAdd: return VC((u64)ExprCtx::foldF2(KFAdd, w, x, y)); case Instruction::FSub: return VC((u64)ExprCtx::foldF2(KFSub, w, x, y)); case Instruction::FMul: return VC((u64)ExprCtx::foldF2(KFMul, w, x, y)); case Instruction::FDiv: return VC((u64)ExprCtx::foldF2(KFDiv, w, x, y)); case Instruction::FRem: return VC((u64)ExprCtx::foldF2(KFRem, w, x, y));
        default: break;
        }
    }
    Ref x = R(a, w), y = R(b, w);
    if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) if (decide(s, X.eq(y, X.cst(0, w)))) fail(s, "ub", "division by zero");
    switch (op) {
    case Instruction::Add: return V(X.add(x, y)); case Instruction::Sub: return V(X.sub(x, y)); case Instruction::Mul: return V(X.mul(x, y));
    case Instruction::And: return V(X.andE(x, y)); case Instruction::Or: return V(X.orE(x, y)); case Instruction::Xor: return V(X.xorE(x, y));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (w == 64 || w == 32) y = X.andE(y, X.cst(w - 1, w)); return V(X.bin(op == Instruction::Shl ? KShl : op == Instruction::LShr ? KLShr : KAShr, x, y));
    case Instruction::UDiv: return V(X.bin(KUDiv, x, y)); case Instruction::URem: return V(X.bin(KURem, x, y)); case Instruction::SDiv: return V(X.bin(KSDiv, x, y)); case Instruction::SRem: return V(X.bin(KSRem, x, y));
    case Instruction::FAdd: return V(X.bin(KFAdd, x, y)); case Instruction::FSub: return V(X.bin(KFSub, x, y)); case Instruction::FMul: return V(X.bin(KFMul, x, y)); case Instruction::FDiv: return V(X.bin(KFDiv, x, y)); case Instruction::FRem: return V(X.bin(KFRem, x, y));
    }
    unsupported(s, "binop");
}
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; int64_t p1 = sext64(x, w), q = sext64(y, w);
        switch (p) { case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y);
        case CmpInst::ICMP_SLT: return VC(p1 < q); case CmpInst::ICMP_SLE: return VC(p1 <= q); case CmpInst::ICMP_SGT: return VC(p1 > q); case CmpInst::ICMP_SGE: return VC(p1 >= q); } }
    Ref x = R(a, w), y = R(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return V(X.eq(x, y)); case CmpInst::ICMP_NE: return V(X.notb(X.eq(x, y))); case CmpInst::ICMP_ULT: return V(X.ult(x, y)); case CmpInst::ICMP_ULE: return V(X.ule(x, y)); case CmpInst::ICMP_UGT: return V(X.ult(y, x)); case CmpInst::ICMP_UGE: return V(X.ule(y, x));
    case CmpInst::ICMP_SLT: return V(X.slt(x, y)); case CmpInst::ICMP_SLE: return V(X.sle(x, y)); case CmpInst::ICMP_SGT: return V(X.slt(y, x)); case CmpInst::ICMP_SGE: return V(X.sle(y, x)); }
    abort();
}
static Ref fcmpE(unsigned p, Ref x, Ref y) {
    switch (p) {
    case CmpInst::FCMP_FALSE: return X.cst(0, 1); case CmpInst::FCMP_TRUE: return X.cst(1, 1);
    case CmpInst::FCMP_OEQ: return X.bin(KFOeq, x, y); case CmpInst::FCMP_OLT: return X.bin(KFOlt, x, y); case CmpInst::FCMP_OLE: return X.bin(KFOle, x, y);
    case CmpInst::FCMP_OGT: return X.bin(KFOlt, y, x); case CmpInst::FCMP_OGE: return X.bin(KFOle, y, x);
    case CmpInst::FCMP_ONE: return X.orE(X.bin(KFOlt, x, y), X.bin(KFOlt, y, x)); case CmpInst::FCMP_UNO: return X.bin(KFUno, x, y);
    default: return X.notb(fcmpE(CmpInst::getInversePredicate((CmpInst::Predicate)p), x, y)); }
}
static Val castop(State &s, unsigned op, Val a, unsigned fw, unsigned tw) {
    switch (op) {
    case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: case Instruction::AddrSpaceCast:
        if (!a.e && tw <= 64) return VC(a.c & mask64(tw));
        if (tw == fw) return a;
        if (tw < fw) return V(X.extract(R(a, fw), 0, tw)); return V(X.zext(R(a, fw), tw));
    case Instruction::SExt: if (!a.e && tw <= 64) return VC((u64)sext64(a.c, fw) & mask64(tw)); return V(X.sext(R(a, fw), tw));
    case Instruction::FPToSI: return V(X.un(KFToSI, R(a, fw), tw)); case Instruction::FPToUI: return V(X.un(KFToUI, R(a, fw), tw));
    case Instruction::SIToFP: return V(X.un(KSIToF, R(a, fw), tw)); case Instruction::UIToFP: return V(X.un(KUIToF, R(a, fw), tw));
    case Instruction::FPExt: return V(X.un(KFExt, R(a, fw), tw)); case Instruction::FPTrunc: return V(X.un(KFTrunc, R(a, fw), tw));
    }
    unsupported(s, "cast");
}
static Val loadTyped(State &s, Val a, Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); std::vector<Val> v; u64 b = concretize(s, a, 64); for (unsigned i = 0; i < ST->getNumElements(); i++) v.push_back(loadTyped(s, VC(b + L->getElementOffset(i)), ST->getElementType(i))); return mkAggV(v); }
    if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v; u64 b = concretize(s, a, 64), es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) v.push_back(loadTyped(s, VC(b + i * es), AT->getElementType())); return mkAggV(v); }
    return loadMem(s, a, DL->getTypeStoreSize(T), typeW(T));
}
static void storeTyped(State &s, Val a, Val v, Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); u64 b = concretize(s, a, 64); for (unsigned i = 0; i < ST->getNumElements(); i++) storeTyped(s, VC(b + L->getElementOffset(i)), (*v.e->agg)[i], ST->getElementType(i)); return; }
    if (auto *AT = dyn_cast<ArrayType>(T)) { u64 b = concretize(s, a, 64), es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) storeTyped(s, VC(b + i * es), (*v.e->agg)[i], AT->getElementType()); return; }
    unsigned nb = DL->getTypeStoreSize(T), w = typeW(T);
    if (!v.e && nb > 8) v = { 0, X.cst(v.c, w) };
    if (v.e && v.e->k == KConst && nb <= 8) v = VC((u64)v.e->c);
    storeMem(s, a, nb, v, w);
}

// ------------------------------------------------------------------ control
static inline Val get(Frame &f, int i) { return i >= 0 ? f.regs[i] : f.f->consts[~i]; }
static void takeEdge(Frame &f, const Edge &e) {
    if (e.phis.size() == 1) f.regs[e.phis[0].first] = get(f, e.phis[0].second);
    else if (!e.phis.empty()) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e.phis.size() > 64) { big.resize(e.phis.size()); t = big.data(); } for (size_t i = 0; i < e.phis.size(); i++) t[i] = get(f, e.phis[i].second); for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].first] = t[i]; }
    f.pc = e.pc;
}
static void pushFrame(State &s, Thread &T, Function *F, const std::vector<Val> &args, const std::vector<unsigned> &vaW = {}) {
    if (F->isDeclaration()) unsupported(s, "call to undefined function " + F->getName().str());
    if (T.st.size() > 400) fail(s, "memory", "stack overflow (call depth > 400)");
    FuncInfo *fi = decode(F); if (!fi->calls++) usedFuncs.insert(fi);
    T.st.emplace_back(); Frame &f = T.st.back(); f.f = fi; f.pc = 0; f.regs.assign(fi->nregs, VC(0));
    size_t na = fi->argT.size(); for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
    for (size_t i = na; i < args.size(); i++) { f.varargs.push_back(args[i]); f.vaW.push_back(i < vaW.size() ? vaW[i] : 64); }
    if (fi->fmt) { if (na > 1 && f.regs[1].e) f.regs[1] = VC(0); for (auto &v : f.varargs) if (v.e) v = VC(0); } // --no-format: symbolic numbers are formatted as 0
    // byval arguments
    for (size_t i = 0; i < na; i++) if (F->hasParamAttribute(i, Attribute::ByVal)) {
        u64 n = DL->getTypeAllocSize(F->getParamByValType(i)); u64 p = allocMem(s, n, OStack, false, "byval"); s.mem.get(p >> SLOT_SHIFT)->threadOwner = s.cur; T.st.back().allocas.push_back(p >> SLOT_SHIFT); copyMem(s, VC(p), T.st.back().regs[i], n); T.st.back().regs[i] = VC(p); }
}
static void popFrame(State &s, Thread &T) { for (u64 id : T.st.back().allocas) { MemObj *o = s.mem.get(id); clearShadow(s, o->base, o->size); freeObj(s, id); } T.st.pop_back(); }

static void threadFinished(State &s);
static void pickNext(State &s, bool mustSwitch);

// RTTI: does thrown type match catch type, and at which adjustment
static const GlobalVariable *gvOf(const Value *v) { APInt off(64, 0); return dyn_cast<GlobalVariable>(v->stripAndAccumulateConstantOffsets(*DL, off, true)); }
static bool rttiUp(State &s, const GlobalVariable *t, const GlobalVariable *c, u64 obj, u64 &adj) {
    if (t == c || t->getName() == c->getName()) { adj = obj; return true; }
    if (!t->hasInitializer()) return false;
    auto *I = dyn_cast<ConstantStruct>(t->getInitializer()); if (!I) return false;
    auto *vt = gvOf(I->getOperand(0)); if (!vt) return false; StringRef vn = vt->getName();
    if (vn.contains("__si_class_type_info")) { auto *b = gvOf(I->getOperand(2)); return b && rttiUp(s, b, c, obj, adj); }
    if (vn.contains("__vmi_class_type_info")) {
        unsigned n = cast<ConstantInt>(I->getOperand(3))->getZExtValue();
        for (unsigned i = 0; i < n; i++) { auto *b = gvOf(I->getOperand(4 + 2 * i)); int64_t fl = cast<ConstantInt>(I->getOperand(5 + 2 * i))->getSExtValue(); if (!b) continue;
            int64_t off = fl >> 8; u64 o2 = obj + off; if (fl & 1) { u64 vp = loadMem(s, VC(obj), 8, 64).c; o2 = obj + (int64_t)loadMem(s, VC(vp + off), 8, 64).c; }
            if (rttiUp(s, b, c, o2, adj)) return true; }
    }
    return false;
}
static LandingPadInst *padOf(Instruction *I) { auto *IV = dyn_cast<InvokeInst>(I); return IV ? IV->getLandingPadInst() : nullptr; }
static bool matchPad(State &s, LandingPadInst *P, const GlobalVariable *ti, u64 obj, int &sel, u64 &adj) {
    for (unsigned i = 0; i < P->getNumClauses(); i++) {
        if (P->isCatch(i)) { Constant *c = P->getClause(i); if (c->isNullValue()) { sel = 1; adj = obj; return true; } auto *cg = gvOf(c); if (cg && ti && rttiUp(s, ti, cg, obj, adj)) { sel = typeIdOf(cg); return true; } }
        else { auto *A = P->getClause(i); bool listed = false; if (auto *CA = dyn_cast<ConstantArray>(A)) for (auto &o : CA->operands()) { auto *cg = gvOf(o.get()); u64 x; if (cg && ti && rttiUp(s, ti, cg, obj, x)) listed = true; } if (!listed) { sel = -1; adj = obj; return true; } }
    }
    return false;
}
static void unwind(State &s, u64 obj, u64 tiAddr) {
    auto git = gvAt.find(tiAddr); const GlobalVariable *ti = git == gvAt.end() ? nullptr : git->second;
    Thread &T = s.th[s.cur];
    // phase 1
    int handler = -1; int sel = 0; u64 adj = obj;
    for (int i = (int)T.st.size() - 2; i >= 0; i--) { Instruction *I = T.st[i].f->code[T.st[i].pc].I; if (auto *P = padOf(I)) if (matchPad(s, P, ti, obj, sel, adj)) { handler = i; break; } 
        if (auto *CB = dyn_cast<CallBase>(I)) if (!isa<InvokeInst>(I) && CB->doesNotThrow() && false) break; }
    if (handler < 0) { Str tn = ti ? demangle("_ZTS" + ti->getName().substr(4).str()) : "?"; fail(s, "exception", "uncaught exception: " + tn); }
    // phase 2: up to next landing pad (cleanup or handler)
    while (true) {
        popFrame(s, T); Frame &f = T.st.back(); Instruction *I = f.f->code[f.pc].I;
        auto *P = padOf(I); if (!P) continue;
        bool m = ((int)T.st.size() - 1 == handler); int sl = 0; u64 ad = obj;
        if (m) matchPad(s, P, ti, obj, sl, ad); else if (!P->isCleanup()) continue;
        if (m) storeMem(s, VC(obj - 16), 8, VC(ad), 64);
        takeEdge(f, f.f->code[f.pc].edges[1]);
        InstInfo &L = f.f->code[f.pc];
        if (L.op != Instruction::LandingPad) throw Fatal{ "no landingpad at unwind target" };
        f.regs[L.dest] = mkAggV({ VC(obj), VC((uint32_t)sl) }); f.pc++;
        return;
    }
}

static void doReturn(State &s, Val rv) {
    Thread &T = s.th[s.cur]; popFrame(s, T);
    if (T.st.empty()) { threadFinished(s); return; }
    Frame &f = T.st.back(); InstInfo &c = f.f->code[f.pc]; if (c.dest >= 0) f.regs[c.dest] = rv;
    if (c.op == Instruction::Invoke) takeEdge(f, c.edges[0]); else f.pc++;
}

// ------------------------------------------------------------------ threads
static bool enabled(State &s, int t) {
    auto &T = s.th[t];
    switch (T.status) {
    case Thread::Run: return true;
    case Thread::Done: return false;
    case Thread::Join: return s.th[T.joinTid].status == Thread::Done;
    case Thread::Wait: { MemObj *o = s.mem.get(T.waitAddr >> SLOT_SHIFT); if (!o || !o->alive) return true; Loc l = resolve(s, VC(T.waitAddr), 4, false); return readLoc(s, l, l.off, 4, 32).c == T.waitVal; }
    case Thread::Spin: { MemObj *o = s.mem.get(T.waitAddr >> SLOT_SHIFT); if (!o || !o->alive) return true; Loc l = resolve(s, VC(T.waitAddr), T.spinW / 8, false); Val v = readLoc(s, l, l.off, T.spinW / 8, T.spinW); return !(v.c == T.spinVal.c && v.e == T.spinVal.e); }
    }
    return false;
}
static void wake(State &s, int t) { auto &T = s.th[t]; T.reps.clear(); T.mustYield = false; if (T.status == Thread::Wait && T.timed && !enabled(s, t)) T.timedOut = true; if (T.status == Thread::Join) { joinVC(T.vc, s.th[T.joinTid].vc); } if (T.status == Thread::Spin) T.spin.clear(); T.status = Thread::Run; }
// forks one state per option; options from index nFree on cost one preemption
static int schedChoice(State &s, const std::vector<int> &opts, size_t nFree) {
    if (replaying) { int c = opts[0]; if (s.replaySched < replaySched.size()) c = replaySched[s.replaySched++]; auto it = std::find(opts.begin(), opts.end(), c); if (it == opts.end()) { c = opts[0]; it = opts.begin(); } if ((size_t)(it - opts.begin()) >= nFree) s.preempt++; s.sched.push_back(c); return c; }
    for (size_t i = 1; i < opts.size(); i++) { State *o = new State(s); o->sched.push_back(opts[i]); o->cur = opts[i]; if (i >= nFree) o->preempt++; wake(*o, opts[i]); work.push_back(o); nSchedForks++; }
    s.sched.push_back(opts[0]); return opts[0];
}
static void timedOpts(State &s, std::vector<int> &opts) { if (s.timeouts && s.preempt < optPreempt) for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && s.th[t].status == Thread::Wait && s.th[t].timed && !enabled(s, t)) opts.push_back(t); }
static void pickNext(State &s, bool) { // current thread cannot run
    std::vector<int> en; for (size_t t = 0; t < s.th.size(); t++) if (enabled(s, t)) en.push_back(t);
    size_t nFree = en.size();
    if (!en.empty()) timedOpts(s, en);
    else {
        // timed waits expire
        if (s.timeouts) for (size_t t = 0; t < s.th.size(); t++) if (s.th[t].status == Thread::Wait && s.th[t].timed) en.push_back(t);
        if (en.empty()) { // give spinning threads a bounded chance
            for (size_t t = 0; t < s.th.size(); t++) if (s.th[t].status == Thread::Spin && s.th[t].spinRelax < 40) { s.th[t].spinRelax++; en.push_back(t); }
            if (!en.empty()) en.resize(1);
        }
        if (en.empty()) { bool all = true; for (auto &T : s.th) if (T.status != Thread::Done) all = false; if (all) throw PathEnd();
            for (size_t t = 0; t < s.th.size(); t++) if (s.th[t].status != Thread::Done) { s.cur = t; break; }
            fail(s, "deadlock", "deadlock or livelock: no thread can make progress"); }
        nFree = en.size();
    }
    if (s.fifo) { en.resize(1); nFree = 1; }
    int c = schedChoice(s, en, nFree); s.cur = c; wake(s, c);
}
static bool schedPoint(State &s) { // returns true if execution should continue with the current instruction
    if (s.th.size() < 2 || s.noSched) return true;
    Thread &T = s.th[s.cur]; if (T.schedDone) { T.schedDone = false; return true; }
    if (T.mustYield) { // fairness: a loop of atomic updates that repeats itself lets the others run
        T.mustYield = false; std::vector<int> en; for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && enabled(s, t)) en.push_back(t);
        if (!en.empty()) { T.reps.clear(); if (s.fifo) en.resize(1); int c = schedChoice(s, en, en.size()); s.cur = c; wake(s, c); return false; }
    }
    if (s.preempt >= optPreempt) return true;
    std::vector<int> opts; opts.push_back(s.cur); for (size_t t = 0; t < s.th.size(); t++) if ((int)t != s.cur && enabled(s, t)) opts.push_back(t);
    timedOpts(s, opts);
    if (opts.size() == 1) return true;
    if (replaying && s.replaySched >= replaySched.size()) return true;
    T.schedDone = true;
    int c = schedChoice(s, opts, 1);
    if (c != s.cur) { s.cur = c; wake(s, c); return false; }
    s.th[s.cur].schedDone = false; return true;
}
static void threadFinished(State &s) {
    s.th[s.cur].status = Thread::Done;
    if (s.cur == 0) { s.finished = true; throw PathEnd(); }
    pickNext(s, true);
}
// spin detection after an atomic access that left memory unchanged
static void noteSpin(State &s, Instruction *I, u64 a, Val v, unsigned w, bool changed) {
    if (s.th.size() < 2) return; auto &T = s.th[s.cur];
    if (changed) { T.spin.clear(); T.spinRelax = 0; if (!a) return; auto k = std::make_tuple(I, a, v.e ? v.e->id | (1ull << 63) : v.c, (int)T.st.size());
        for (auto &r : T.reps) if (r.first == k) { if (++r.second >= optYield) { r.second = 0; T.mustYield = true; } return; }
        if (T.reps.size() > 16) T.reps.erase(T.reps.begin()); T.reps.push_back({k, 1}); return; }
    u64 h = v.e ? v.e->id | (1ull << 63) : v.c; auto key = std::make_tuple(I, a, h, (int)T.st.size()); int n = 0;
    for (auto &k : T.spin) if (k == key) n++;
    T.spin.push_back(key); if (T.spin.size() > 64) T.spin.erase(T.spin.begin());
    if (n >= 2) { T.status = Thread::Spin; T.waitAddr = a; T.spinVal = v; T.spinW = w; }
}

#include "exec.inc"
