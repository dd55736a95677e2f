// Symbolic-execution VC generator over LLVM IR.  See DESIGN.md, "The verifier".
#include "engine.hpp"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

using namespace llvm;

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static LLVMContext Ctx;

struct Options {
    std::string bc, contract, out = "-";
    unsigned maxSeconds = 300;
    unsigned queryMs = 20000;
    unsigned branchMs = 3000;
    u64 maxSteps = 200000000ull, maxPaths = 200000;
    unsigned maxForkValues = 40;
    bool forkSelect = false; // selects between pointers split the path
    bool aliasQuery = false; // resolve reads of symbolic cells against the stores on the path
    unsigned iteMax = 0; // symbolic offsets with at most this many values become if-then-else terms
    bool trace = false, verbose = false;
    unsigned maxReports = 20;
    u64 maxPathSteps = 40000000ull;
} opt;

// ------------------------------------------------------------------ results
struct Obl { u64 checked = 0, trivially = 0, discharged = 0, failed = 0, unknown = 0; std::string kind; };
static std::map<std::string, Obl> g_obl;
struct Report { std::string label, kind, msg, where; std::vector<std::pair<std::string, std::pair<uint32_t, u128>>> inputs; std::string arrays; std::vector<std::string> bt; bool definite; };
static std::vector<Report> g_reports;
static std::map<std::string, u64> g_covers;
static std::set<std::string> g_functions;
static std::set<std::string> g_external;
static std::map<std::string, u64> g_incomplete; // reasons
static u64 g_paths = 0, g_pathsEnded = 0, g_steps = 0, g_forks = 0, g_pathsAssumed = 0;
static std::chrono::steady_clock::time_point g_start;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count(); }

// ------------------------------------------------------------------ program image
static std::map<const Function*, std::unique_ptr<KFunc>> g_kf;
static std::vector<Val> g_consts;
static std::map<const Constant*, int> g_constIdx;
static std::map<const GlobalValue*, u64> g_gaddr;
static std::map<u64, Function*> g_fnAt;
static std::vector<ObjP> g_roGlobals; 
static ObjMap g_roMap;
static u64 g_nextGlobal = 0x100000;
static std::map<std::string, int> g_typeIds;
static std::map<int, std::string> g_typeNames;
static std::map<u64, std::string> g_tiAt; // address -> typeinfo name

static unsigned tyBits(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
struct Unsupported { std::string msg; };
[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }

static Val constVal(const Constant* c);
static u64 fnAddr(Function* f) {
    auto it = g_gaddr.find(f);
    if (it != g_gaddr.end()) return it->second;
    static u64 next = 0x1000;
    u64 a = next; next += 16;
    g_gaddr[f] = a; g_fnAt[a] = f;
    return a;
}
static u64 globalAddr(const GlobalValue* g) {
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    if (auto* f = dyn_cast<Function>(g)) return fnAddr(const_cast<Function*>(f));
    if (auto* a = dyn_cast<GlobalAlias>(g)) { u64 r = constVal(a->getAliasee()).u(); g_gaddr[g] = r; return r; }
    auto* gv = cast<GlobalVariable>(g);
    u64 sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8;
    u64 al = std::max<u64>(16, gv->getAlign() ? gv->getAlign()->value() : 16);
    g_nextGlobal = (g_nextGlobal + al - 1) / al * al;
    u64 ad = g_nextGlobal;
    g_nextGlobal += sz + 64;
    g_gaddr[g] = ad;
    return ad;
}
static Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        APInt a = ci->getValue();
        if (a.getBitWidth() > 128) unsup("wide constant");
        u128 v = a.getBitWidth() <= 64 ? (u128) a.getZExtValue() : ((u128) a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0);
        return C(v, a.getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        u128 v = a.getBitWidth() <= 64 ? (u128) a.getZExtValue() : ((u128) a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0);
        return C(v, a.getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return C(0, 64);
    if (auto* g = dyn_cast<GlobalValue>(c)) return C(globalAddr(g), 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            std::vector<Val> k;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++) {
                Constant* e = c->getAggregateElement(i);
                k.push_back(constVal(e));
            }
            return mkAgg(k);
        }
        return C(0, tyBits(t));
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) {
        std::vector<Val> k;
        for (unsigned i = 0;; i++) { Constant* e = c->getAggregateElement(i); if (!e) break; k.push_back(constVal(e)); }
        return mkAgg(k);
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) unsup("const gep");
            return mkAdd(constVal(e->getOperand(0)), C(off.getZExtValue(), 64));
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = constVal(e->getOperand(0)); unsigned w = tyBits(t);
            if (w && v.w != w) v = w < v.w ? mkTrunc(v, w) : mkZext(v, w);
            return v;
        }
        case Instruction::Trunc: return mkTrunc(constVal(e->getOperand(0)), tyBits(t));
        case Instruction::ZExt: return mkZext(constVal(e->getOperand(0)), tyBits(t));
        case Instruction::Add: return mkAdd(constVal(e->getOperand(0)), constVal(e->getOperand(1)));
        case Instruction::Sub: return mkSub(constVal(e->getOperand(0)), constVal(e->getOperand(1)));
        case Instruction::And: return mkAnd(constVal(e->getOperand(0)), constVal(e->getOperand(1)));
        case Instruction::Or: return mkOr(constVal(e->getOperand(0)), constVal(e->getOperand(1)));
        case Instruction::Xor: return mkBin(Op::XOR, constVal(e->getOperand(0)), constVal(e->getOperand(1)));
        case Instruction::Select: return mkIte(constVal(e->getOperand(0)), constVal(e->getOperand(1)), constVal(e->getOperand(2)));
        case Instruction::ICmp: {
            Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1));
            switch (cast<ConstantExpr>(e)->getPredicate()) {
            case CmpInst::ICMP_EQ: return mkEq(a, b);
            case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
            case CmpInst::ICMP_ULT: return mkUlt(a, b);
            case CmpInst::ICMP_UGT: return mkUlt(b, a);
            default: unsup("const icmp");
            }
        }
        default: unsup(std::string("const expr ") + e->getOpcodeName());
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    unsup("constant " + s);
}

static void writeConst(MemObj& o, u64 off, const Constant* c);
static Chunk* wchunk(MemObj& o, u64 ci) {
    auto& p = o.ch[ci];
    if (!p) {
        p = std::make_shared<Chunk>();
        memset(p->st, o.zeroInit ? 1 : 0, CH);
        memset(p->d, 0, CH);
    } else if (p.use_count() > 1) p = std::make_shared<Chunk>(*p);
    return p.get();
}
static void putByte(MemObj& o, u64 off, uint8_t b) {
    Chunk* c = wchunk(o, off / CH);
    if (c->st[off % CH] == 2) c->sym.erase(off % CH);
    c->st[off % CH] = 1; c->d[off % CH] = b;
}
static void putBytes(MemObj& o, u64 off, const Val& v, unsigned bytes) {
    if (v.isc()) { u128 x = v.c; for (unsigned i = 0; i < bytes; i++) { putByte(o, off + i, (uint8_t) x); x >>= 8; } return; }
    for (unsigned i = 0; i < bytes; i++) {
        Val b = mkExtract(v, i * 8, 8);
        if (b.isc()) { putByte(o, off + i, (uint8_t) b.c); continue; }
        Chunk* c = wchunk(o, (off + i) / CH);
        c->st[(off + i) % CH] = 2;
        c->sym[(off + i) % CH] = b;
    }
}
static Val uninitByte() { static u64 n = 0; return mkVar("uninit" + std::to_string(n++), 8); }
static Val getByte(MemObj& o, u64 off) {
    auto& p = o.ch[off / CH];
    unsigned i = off % CH;
    if (!p) {
        if (o.zeroInit) return C(0, 8);
        Val v = uninitByte();
        Chunk* c = wchunk(o, off / CH); c->st[i] = 2; c->sym[i] = v; // (cached: stays stable)
        return v;
    }
    if (p->st[i] == 1) return C(p->d[i], 8);
    if (p->st[i] == 2) return p->sym[i];
    Val v = uninitByte();
    Chunk* c = wchunk(o, off / CH); c->st[i] = 2; c->sym[i] = v;
    return v;
}
static Val getBytes(MemObj& o, u64 off, unsigned bytes) {
    // fast concrete path
    if (bytes <= 16) {
        u128 x = 0; bool ok = true;
        for (unsigned i = 0; i < bytes && ok; i++) {
            auto& p = o.ch[(off + i) / CH];
            if (!p) { if (!o.zeroInit) ok = false; continue; }
            if (p->st[(off + i) % CH] != 1) { ok = false; break; }
            x |= (u128) p->d[(off + i) % CH] << (8 * i);
        }
        if (ok) return C(x, bytes * 8);
    }
    Val r = getByte(o, off);
    for (unsigned i = 1; i < bytes; i++) r = mkConcat(getByte(o, off + i), r);
    return r;
}
static ObjP newObj(u64 base, u64 size, char kind, const std::string& name, bool zero) {
    auto o = std::make_shared<MemObj>();
    o->base = base; o->size = size; o->kind = kind; o->name = name; o->zeroInit = zero;
    o->ch.resize((size + CH - 1) / CH);
    return o;
}
static void writeConst(MemObj& o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zero default
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        u64 es = DL->getTypeAllocSize(et).getFixedValue();
        if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
            StringRef raw = cds->getRawDataValues();
            for (size_t i = 0; i < raw.size(); i++) putByte(o, off + i, (uint8_t) raw[i]);
            return;
        }
        for (unsigned i = 0;; i++) { Constant* e = c->getAggregateElement(i); if (!e) break; writeConst(o, off + i * es, e); }
        return;
    }
    Val v = constVal(c);
    if (v.n && v.n->op == Op::AGG) unsup("agg const");
    putBytes(o, off, v.w % 8 ? mkZext(v, (v.w + 7) / 8 * 8) : v, (v.w + 7) / 8);
}

static int constIndex(const Constant* c) {
    auto it = g_constIdx.find(c);
    if (it != g_constIdx.end()) return it->second;
    int i = -1;
    try { g_consts.push_back(constVal(c)); i = -(int) g_consts.size(); }
    catch (Unsupported& u) { Val v; v.w = 0; g_consts.push_back(v); i = -(int) g_consts.size(); }
    g_constIdx[c] = i;
    return i;
}

static KFunc* kfunc(Function* F) {
    auto& p = g_kf[F];
    if (p) return p.get();
    p = std::make_unique<KFunc>();
    KFunc* k = p.get();
    k->F = F;
    k->dname = demangle(F->getName().str());
    unsigned r = 0;
    for (auto& a : F->args()) k->vidx[&a] = r++;
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) k->vidx[&i] = r++;
    k->nregs = r;
    int bi = 0;
    for (auto& b : *F) k->bidx[&b] = bi++;
    k->blocks.resize(bi);
    k->cuts.resize(bi);
    bi = 0;
    auto opIdx = [&](Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) return constIndex(c);
        auto it = k->vidx.find(v);
        if (it != k->vidx.end()) return it->second;
        return INT_MIN; // metadata, blocks, inline asm
    };
    for (auto& b : *F) {
        KBlock& kb = k->blocks[bi++];
        kb.bb = &b;
        for (auto& i : b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::donothing
                    || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end
                    || id == Intrinsic::pseudoprobe || id == Intrinsic::var_annotation || id == Intrinsic::prefetch) continue;
            }
            KInst ki;
            ki.I = &i; ki.opc = i.getOpcode(); ki.ty = i.getType();
            ki.w = tyBits(i.getType());
            if (!i.getType()->isVoidTy()) ki.dest = k->vidx[&i];
            for (auto& o : i.operands()) ki.ops.push_back(opIdx(o));
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                ki.callee = dyn_cast<Function>(cv);
            }
            if (auto* br = dyn_cast<BranchInst>(&i)) {
                ki.succ[0] = k->bidx[br->getSuccessor(0)];
                if (br->isConditional()) ki.succ[1] = k->bidx[br->getSuccessor(1)];
            }
            if (auto* iv = dyn_cast<InvokeInst>(&i)) { ki.succ[0] = k->bidx[iv->getNormalDest()]; ki.succ[1] = k->bidx[iv->getUnwindDest()]; }
            if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                u64 cst = 0;
                if (g->getType()->isVectorTy()) { /* unsupported at execution */ }
                else for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* ix = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        u64 es = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                        if (auto* ci = dyn_cast<ConstantInt>(ix)) cst += (u64) ci->getSExtValue() * es;
                        else ki.gepVar.push_back({opIdx(ix), es});
                    }
                }
                ki.gepConst = cst;
            }
            if (isa<PHINode>(i)) kb.nphi++;
            ki.idxInBlock = kb.in.size();
            kb.in.push_back(std::move(ki));
        }
    }
    return k;
}

// ------------------------------------------------------------------ machine
static std::vector<std::unique_ptr<State>> g_work;
static State* S; // current state
static u64 g_stateId = 0;
struct EndPath { };           // path terminated
struct Retry { };             // constraints were added; re-execute the instruction

static std::string where(State& s) {
    for (size_t i = s.st.size(); i-- > 0;) {
        Frame& f = s.st[i];
        if (!f.f) continue;
        auto& b = f.f->blocks[f.block];
        int ip = f.ip; if (ip >= (int) b.in.size()) ip = b.in.size() - 1;
        if (ip < 0) continue;
        if (const DebugLoc& dl = b.in[ip].I->getDebugLoc()) {
            std::string r;
            if (auto* sc = dl->getScope()) { r = sc->getFilename().str() + ":" + std::to_string(dl.getLine()); if (auto* sp = sc->getSubprogram()) r += " (" + sp->getName().str() + ")"; }
            return r;
        }
        return f.f->dname;
    }
    return "?";
}
static std::vector<std::string> backtrace(State& s) {
    std::vector<std::string> r;
    for (size_t i = s.st.size(); i-- > 0;) {
        Frame& f = s.st[i];
        if (!f.f) continue;
        auto& b = f.f->blocks[f.block];
        int ip = std::min<int>(f.ip, b.in.size() - 1);
        std::string l = f.f->dname.substr(0, 120);
        if (ip >= 0) if (const DebugLoc& dl = b.in[ip].I->getDebugLoc()) {
            for (const DILocation* d = dl.get(); d; d = d->getInlinedAt()) {
                auto* sp = d->getScope()->getSubprogram();
                l += " | " + (sp ? sp->getName().str() : std::string()) + "@" + d->getFilename().str() + ":" + std::to_string(d->getLine());
            }
        }
        r.push_back(l);
        if (r.size() > 25) break;
    }
    return r;
}
static std::string curFunctionName(State& s) {
    Frame& f = s.st.back();
    auto& b = f.f->blocks[f.block];
    int ip = std::min<int>(f.ip, b.in.size() - 1);
    if (ip >= 0) if (const DebugLoc& dl = b.in[ip].I->getDebugLoc()) {
        if (auto* sp = dl->getScope()->getSubprogram()) {
            StringRef ln = sp->getLinkageName();
            return ln.empty() ? sp->getName().str() : demangle(ln.str());
        }
    }
    return f.f->dname;
}

static Val simp(State& s, const Val& v) {
    if (!v.n || s.subst.empty() || v.n->op == Op::AGG) return v;
    auto d = s.subst.find(v.n);
    if (d != s.subst.end()) return d->second;
    if (!s.simpCache) s.simpCache = std::make_shared<std::unordered_map<N, Val>>();
    auto c = s.simpCache->find(v.n);
    if (c != s.simpCache->end()) return c->second;
    N n = v.n;
    std::vector<Val> k; bool ch = false;
    for (auto& x : n->k) { Val y = simp(s, x); if (!same(x, y)) ch = true; k.push_back(y); }
    Val r = v;
    if (ch) {
        switch (n->op) {
        case Op::EXTRACT: r = mkExtract(k[0], n->aux, n->w); break;
        case Op::CONCAT: r = mkConcat(k[0], k[1]); break;
        case Op::ZEXT: r = mkZext(k[0], n->w); break;
        case Op::SEXT: r = mkSext(k[0], n->w); break;
        case Op::ITE: r = mkIte(k[0], k[1], k[2]); break;
        case Op::SELECT: r = mkSelectRoot(n->aux, k[0]); break;
        case Op::UF: r = mkUF(g_ufs[n->aux], k, n->w); break;
        default:
            if (n->op >= Op::FADD && n->op <= Op::FRTI) r = mkFp(n->op, k, n->w, n->aux);
            else r = mkBin(n->op, k[0], k[1]);
        }
        if (r.n) { auto d2 = s.subst.find(r.n); if (d2 != s.subst.end()) r = d2->second; }
    }
    (*s.simpCache)[n] = r;
    return r;
}

static bool evalIn(State& s, const Val& v, u128& out) {
    if (v.isc()) { out = v.c; return true; }
    if (!s.model) return false;
    std::unordered_map<N, u128> cache;
    return evalVal(v, *s.model, cache, out);
}
static void mergeModel(State& s, const Model& m) {
    auto nm = s.model ? std::make_shared<Model>(*s.model) : std::make_shared<Model>();
    for (auto& p : m.vars) nm->vars[p.first] = p.second;
    for (auto& p : m.arrays) nm->arrays[p.first] = p.second;
    for (auto& p : m.arrDefault) nm->arrDefault[p.first] = p.second;
    s.model = nm;
}
static void addSubst(State& s, N n, const Val& c) { s.subst[n] = c; s.simpCache.reset(); }
static void addPc(State& s, const Val& c0) {
    Val c = c0;
    if (c.isc()) return;
    if (c.n->op == Op::AND && c.w == 1) { addPc(s, c.n->k[0]); addPc(s, c.n->k[1]); return; }
    s.pc.push_back(c);
    if (c.n->op == Op::EQ && c.n->k[1].isc() && c.n->k[0].n) addSubst(s, c.n->k[0].n, c.n->k[1]);
    else addSubst(s, c.n, B(true));
    if (c.n->op == Op::XOR && c.n->k[1].isc() && c.n->k[0].n && c.w == 1) addSubst(s, c.n->k[0].n, B(false));
    if (c.n->op == Op::ULT || c.n->op == Op::ULE || c.n->op == Op::SLT || c.n->op == Op::SLE) {
        Val neg = mkNot(c); if (neg.n) addSubst(s, neg.n, B(false));
    }
}
// may cond hold? On Sat the model is returned merged for state s in *m
static Res may(State& s, const Val& c0, Model* m, unsigned ms = 0) {
    Val c = simp(s, c0);
    if (c.isc()) return c.c ? Res::Sat : Res::Unsat;
    u128 v;
    if (evalIn(s, c, v) && v) { g_solver.modelHits++; if (m) *m = Model(); return Res::Sat; }
    return solverCheck(s.pc, c, ms ? ms : opt.branchMs, m, false);
}
static void assumeIn(State& s, const Val& c0) { // adds c, keeps model consistent if possible
    Val c = simp(s, c0);
    if (c.isc()) return;
    u128 v;
    bool ok = evalIn(s, c, v) && v;
    if (!ok) {
        Model m;
        Res r = solverCheck(s.pc, c, opt.branchMs, &m, false);
        if (r == Res::Unsat) { addPc(s, c); throw EndPath(); }
        addPc(s, c);
        if (r == Res::Sat) { if (s.model) mergeModel(s, m); else { s.model = nullptr; } if (!s.model) { /* rebuild */ Model full; if (solverCheck(s.pc, B(true), opt.branchMs, &full, false) == Res::Sat) s.model = std::make_shared<Model>(full); } u128 q; if (s.model && !(evalIn(s, c, q) && q)) s.model = nullptr; }
        else { s.model = nullptr; s.maybeInfeasible = true; }
        return;
    }
    addPc(s, c);
}
static std::unique_ptr<State> fork(State& s) {
    auto n = std::make_unique<State>(s);
    n->id = ++g_stateId;
    g_forks++;
    return n;
}

static ObjMap& wmap(State& s) {
    if (s.mem.use_count() > 1) s.mem = std::make_shared<ObjMap>(*s.mem);
    return *s.mem;
}
static MemObj* findObj(State& s, u64 a) {
    auto it = s.mem->upper_bound(a);
    if (it != s.mem->begin()) { --it; MemObj* o = it->second.get(); if (a - o->base <= o->size) { if (a - o->base < o->size || o->size == 0) return o; 
        // one past the end: prefer this object only when nothing else matches
        auto r = g_roMap.upper_bound(a); if (r != g_roMap.begin()) { --r; if (a - r->second->base < r->second->size) return r->second.get(); } return o; } }
    auto r = g_roMap.upper_bound(a);
    if (r != g_roMap.begin()) { --r; MemObj* o = r->second.get(); if (a - o->base <= o->size) return o; }
    return nullptr;
}
static MemObj* wobj(State& s, u64 base) {
    auto& m = wmap(s);
    auto it = m.find(base);
    if (it == m.end()) return nullptr;
    if (it->second.use_count() > 1) it->second = std::make_shared<MemObj>(*it->second);
    return it->second.get();
}
static u64 allocAddr(State& s, u64 size, u64 align) {
    if (align < 16) align = 16;
    u64 a = (s.nextAddr + align - 1) / align * align;
    s.nextAddr = a + size + 32;
    return a;
}
static u64 allocate(State& s, u64 size, u64 align, char kind, const std::string& name, bool zero = false) {
    if (size > (1ull << 31)) unsup("allocation too large");
    u64 a = allocAddr(s, size, align);
    wmap(s)[a] = newObj(a, size, kind, name, zero);
    return a;
}
static void release(State& s, u64 base) { wmap(s).erase(base); }

// -------------------------------------------------------------- obligations
static void report(State& s, const std::string& label, const std::string& kind, const std::string& msg, const Model* m, bool definite) {
    g_obl[label].failed++;
    g_obl[label].kind = kind;
    unsigned cnt = 0;
    for (auto& r : g_reports) if (r.label == label) cnt++;
    if (cnt >= 3 || g_reports.size() >= opt.maxReports) return;
    Report r;
    r.label = label; r.kind = kind; r.msg = msg; r.where = where(s); r.bt = backtrace(s); r.definite = definite && !s.tainted;
    Model full;
    if (s.model) full = *s.model;
    if (m) {
        for (auto& p : m->vars) full.vars[p.first] = p.second;
        for (auto& p : m->arrays) full.arrays[p.first] = p.second;
        for (auto& p : m->arrDefault) full.arrDefault[p.first] = p.second;
    }
    std::unordered_map<N, u128> cache;
    for (auto& q : s.log) { u128 v = 0; if (!evalVal(q.v, full, cache, v)) v = 0; r.inputs.push_back({q.name, {q.w, v}}); }
    std::ostringstream as;
    for (auto& a : s.arrs) {
        u128 n = 0; evalVal(a.count, full, cache, n);
        as << "array " << a.name << " " << (u64) n << " " << a.elem << " " << (u64) full.arrDefault[a.root];
        for (auto& e : full.arrays[a.root]) as << " " << (u64) e.first << ":" << (u64) e.second;
        as << "\n";
    }
    r.arrays = as.str();
    g_reports.push_back(r);
    if (opt.verbose) { std::cerr << "REPORT " << label << " " << msg << " at " << r.where << "\n"; for (auto& i : r.inputs) std::cerr << "   " << i.first << " = " << valStr(C(i.second.second, i.second.first)) << "\n"; for (auto& b : r.bt) std::cerr << "     " << b << "\n"; }
}
// checks that cond holds on this path; afterwards cond is assumed
static void check(State& s, const Val& c0, const std::string& label, const std::string& kind, const std::string& msg) {
    auto& o = g_obl[label];
    o.kind = kind;
    o.checked++;
    Val c = simp(s, c0);
    if (c.isc() && c.c) { o.trivially++; o.discharged++; return; }
    Val nc = mkNot(c);
    Model m;
    Res r;
    u128 ev;
    if (nc.isc()) {
        r = Res::Sat;
        if (s.maybeInfeasible || !s.model) r = solverCheck(s.pc, B(true), opt.queryMs, &m, true);
    } else if (!s.maybeInfeasible && evalIn(s, nc, ev) && ev) { r = Res::Sat; }
    else r = solverCheck(s.pc, nc, opt.queryMs, &m, true);
    if (r == Res::Unsat) {
        o.discharged++;
        if (nc.isc()) throw EndPath();
        if (kind == "assert") addPc(s, c); // a proved assertion also serves as a lemma
        else if (kind != "lemma") addSubst(s, c.n, B(true));
        return;
    }
    if (r == Res::Unknown) { o.unknown++; s.tainted = s.tainted; if (opt.verbose) { std::cerr << "UNKNOWN " << label << " at " << where(s) << "\n"; solverDumpSmt2(s.pc, nc, "/tmp/unknown.smt2"); } if (nc.isc()) throw EndPath(); addPc(s, c); s.model = nullptr; s.maybeInfeasible = true; return; }
    report(s, label, kind, msg, &m, true);
    if (nc.isc()) throw EndPath();
    assumeIn(s, c); // continue with the remaining behaviours
}
[[noreturn]] static void failNow(State& s, const std::string& kind, const std::string& msg) {
    std::string label = kind + "@" + curFunctionName(s);
    check(s, B(false), label, kind, msg);
    throw EndPath();
}

static const Val& R(const Frame& f, int i) {
    if (i >= 0) return f.regs[i];
    if (i == INT_MIN) unsup("operand");
    const Val& v = g_consts[-i - 1];
    if (v.w == 0 && !v.n) unsup("unsupported constant operand");
    return v;
}

// forks so that v has a single concrete value in the current state
static u128 concretize(State& s, const Val& v0, const char* why) {
    Val v = simp(s, v0);
    if (v.isc()) return v.c;
    std::vector<std::pair<u128, Model>> vals;
    State probe = s;
    for (;;) {
        u128 x; Model m;
        bool have = false;
        if (vals.empty() && evalIn(s, v, x)) { have = true; }
        else {
            Val ex = B(true);
            for (auto& p : vals) ex = mkAnd(ex, mkNot(mkEq(v, C(p.first, v.w))));
            if (ex.isc() && !ex.c) break; // no other value exists
            Res r = solverCheck(s.pc, ex.isc() ? B(true) : ex, opt.branchMs * 2, &m, false);
            if (r == Res::Unsat) break;
            if (r == Res::Unknown) unsup(std::string("concretization undecided: ") + why);
            State t = s; if (t.model) mergeModel(t, m); else t.model = std::make_shared<Model>(m);
            if (!evalIn(t, v, x)) unsup(std::string("concretization without model: ") + why);
            have = true;
            bool dup = false; for (auto& p : vals) if (p.first == x) dup = true;
            if (dup) { unsup(std::string("concretization model mismatch: ") + why); }
        }
        if (!have) break;
        vals.push_back({x, m});
        if (vals.size() > opt.maxForkValues) unsup(std::string("too many values: ") + why + " " + valStr(v, 4));
    }
    if (vals.empty()) throw EndPath();
    for (size_t i = 1; i < vals.size(); i++) {
        auto n = fork(s);
        if (n->model) mergeModel(*n, vals[i].second); else n->model = nullptr;
        addPc(*n, mkEq(v, C(vals[i].first, v.w)));
        addSubst(*n, v.n, C(vals[i].first, v.w));
        { u128 q; if (n->model && !(evalIn(*n, v, q) && q == vals[i].first)) n->model = nullptr; }
        g_work.push_back(std::move(n));
    }
    addPc(s, mkEq(v, C(vals[0].first, v.w)));
    addSubst(s, v.n, C(vals[0].first, v.w));
    return vals[0].first;
}

// all values v can have on this path (complete), or false when there are more than limit
static bool allValues(State& s, const Val& v0, unsigned limit, std::vector<u128>& out) {
    Val v = simp(s, v0);
    if (v.isc()) { out = {v.c}; return true; }
    if (s.enumCache) { auto it = s.enumCache->find(v.n); if (it != s.enumCache->end()) { out = it->second; return !out.empty(); } }
    Val ex = B(true);
    u128 x;
    std::vector<u128> vals;
    bool ok = true;
    if (evalIn(s, v, x)) { vals.push_back(x); ex = mkAnd(ex, mkNot(mkEq(v, C(x, v.w)))); }
    State t; t.pc = s.pc; t.model = s.model;
    for (;;) {
        Model m;
        Res r = solverCheck(s.pc, ex, opt.branchMs * 2, &m, false);
        if (r == Res::Unsat) break;
        if (r == Res::Unknown) { ok = false; break; }
        t.model = s.model;
        if (t.model) mergeModel(t, m); else t.model = std::make_shared<Model>(m);
        if (!evalIn(t, v, x)) { ok = false; break; }
        bool dup = false; for (auto q : vals) if (q == x) dup = true;
        if (dup) { ok = false; break; }
        vals.push_back(x);
        if (vals.size() > limit) { ok = false; break; }
        ex = mkAnd(ex, mkNot(mkEq(v, C(x, v.w))));
    }
    if (ok && vals.empty()) throw EndPath();
    std::sort(vals.begin(), vals.end());
    out = vals;
    if (!ok) out.clear();
    auto nc = s.enumCache ? std::make_shared<std::unordered_map<N, std::vector<u128>>>(*s.enumCache) : std::make_shared<std::unordered_map<N, std::vector<u128>>>();
    (*nc)[v.n] = out;
    s.enumCache = nc;
    return ok;
}
static void promote(MemObj& o, unsigned elem) {
    if (o.arrayMode) return;
    if (o.size > 16384) unsup("array promotion of a large object " + o.name);
    if (o.size % elem) elem = 1;
    auto tab = std::make_shared<std::vector<Val>>();
    for (u64 i = 0; i < o.size; i += elem) tab->push_back(getBytes(o, i, elem));
    bool all = true;
    for (auto& v : *tab) if (!same(v, (*tab)[0])) all = false;
    o.elem = elem;
    if (tab->empty()) unsup("empty array");
    if (all) o.arr = arrConst((*tab)[0]);
    else o.arr = arrRoot(mkArrayRoot("tab", elem * 8, tab), elem * 8);
    o.arrayMode = true;
    o.ch.clear();
}
static Val arrIndex(State& s, const MemObj& o, const Val& off) {
    if (o.elem == 1) return off;
    unsigned sh = o.elem == 2 ? 1 : o.elem == 4 ? 2 : 3;
    if (off.isc()) { return C(off.c >> sh, 64); }
    return mkBin(Op::LSHR, off, C(sh, 64));
}
static bool impossibleIn(State& s, const Val& e) {
    if (e.isc()) return !e.c;
    int q = linearEq(e); if (q >= 0) return q == 0;
    if (e.n->op == Op::XOR || e.n->w == 1) { Val ne = mkNot(e); int z = linearEq(ne); if (z >= 0) return z == 1; }
    return solverCheck(s.pc, e, opt.branchMs, nullptr, false) == Res::Unsat;
}
static Val arrRead(State& s, MemObj& o, const Val& off, unsigned bytes) {
    unsigned e = o.elem;
    Val low = simp(s, mkAnd(off, C(e - 1, 64)));
    if (!low.isc()) {
        // prove alignment
        if (solverCheck(s.pc, mkNot(mkEq(low, C(0, 64))), opt.branchMs, nullptr, false) == Res::Unsat) low = C(0, 64);
        else low = C(concretize(s, low, "sub-element offset"), 64);
    }
    Val base = mkSub(off, low);
    Val r; bool first = true;
    unsigned need = bytes + (unsigned) low.u();
    for (unsigned i = 0; i < need; i += e) {
        Val ix = simp(s, arrIndex(s, o, mkAdd(base, C(i, 64))));
        // a fixed word (object header): drop stores at symbolic indices that provably do not alias it
        Val w = ix.isc() || opt.aliasQuery ? arrSelect(o.arr, ix, [&](const Val& e) { return impossibleIn(s, e); }) : arrSelect(o.arr, ix);
        r = first ? w : mkConcat(w, r);
        first = false;
        if (r.w > 128) unsup("wide array read");
    }
    return mkExtract(r, low.u() * 8, bytes * 8);
}
static void arrWrite(State& s, MemObj& o, const Val& off, const Val& v, unsigned bytes) {
    unsigned e = o.elem;
    Val low = simp(s, mkAnd(off, C(e - 1, 64)));
    if (!low.isc()) {
        if (solverCheck(s.pc, mkNot(mkEq(low, C(0, 64))), opt.branchMs, nullptr, false) == Res::Unsat) low = C(0, 64);
        else low = C(concretize(s, low, "sub-element offset"), 64);
    }
    Val base = mkSub(off, low);
    unsigned lo = low.u(), done = 0;
    for (unsigned i = 0; done < bytes; i += e) {
        Val idx = simp(s, arrIndex(s, o, mkAdd(base, C(i, 64))));
        unsigned start = i == 0 ? lo : 0;
        unsigned n = std::min(e - start, bytes - done);
        Val part = mkExtract(v, done * 8, n * 8);
        if (n < e) {
            Val old = arrSelect(o.arr, idx);
            Val res = part;
            if (start) res = mkConcat(part, mkExtract(old, 0, start * 8));
            if (start + n < e) res = mkConcat(mkExtract(old, (start + n) * 8, (e - start - n) * 8), res);
            part = res;
        }
        o.arr = arrStore(o.arr, idx, part);
        done += n;
    }
}

// resolves an address to a unique object; forks for the other possibilities.
static MemObj* resolve(State& s, Val& addr, unsigned bytes, Val& off, bool write) {
    addr = simp(s, addr);
    std::string fnl;
    if (addr.isc()) {
        MemObj* o = findObj(s, addr.u());
        if (!o) failNow(s, "memory", addr.u() < 4096 ? "null pointer access" : "access to invalid or freed memory");
        off = C(addr.u() - o->base, 64);
        if (!o->hasSym) {
            if (off.u() + bytes > o->size) failNow(s, "memory", "out of bounds access of " + o->name);
        } else {
            Val in = mkAnd(mkUle(C(off.u() + bytes, 64), o->symSize), B(true));
            check(s, in, "memory@" + curFunctionName(s), "memory", "out of bounds access of " + o->name);
        }
        if (write && o->readonly) failNow(s, "memory", "write to read-only memory");
        return o;
    }
    u128 a;
    if (!evalIn(s, addr, a)) {
        Model m;
        Res r = solverCheck(s.pc, B(true), opt.queryMs, &m, false);
        if (r == Res::Unsat) throw EndPath();
        if (r == Res::Sat) s.model = std::make_shared<Model>(m);
        if (!evalIn(s, addr, a)) unsup("symbolic address without model");
    }
    MemObj* o = findObj(s, (u64) a);
    std::string label = "memory@" + curFunctionName(s);
    if (!o) {
        // no object at the model's address: violation unless infeasible
        report(s, label, "memory", "symbolic address may be invalid", nullptr, true);
        g_obl[label].checked++;
        throw EndPath();
    }
    Val lo = C(o->base, 64);
    Val rel = mkSub(addr, lo);
    Val in = o->hasSym ? mkAnd(mkUle(rel, mkSub(o->symSize, C(bytes, 64))), mkUle(C(bytes, 64), o->symSize))
                       : (o->size >= bytes ? mkUle(rel, C(o->size - bytes, 64)) : B(false));
    in = simp(s, in);
    if (in.isc() && in.c) { g_obl[label].checked++; g_obl[label].discharged++; g_obl[label].trivially++; g_obl[label].kind = "memory"; }
    else {
        u128 ev;
        if (in.isc() || !evalIn(s, in, ev) || !ev) { // model's address lies out of bounds of the closest object
            auto& ob = g_obl[label]; ob.kind = "memory"; ob.checked++;
            report(s, label, "memory", "out of bounds access of " + o->name, nullptr, true);
            if (in.isc()) throw EndPath();
            assumeIn(s, in);
        } else {
            Model m;
            Res r = solverCheck(s.pc, mkNot(in), opt.queryMs, &m, true);
            auto& ob = g_obl[label]; ob.kind = "memory"; ob.checked++;
            if (r == Res::Unsat) { ob.discharged++; addPc(s, in); }
            else if (r == Res::Unknown) { ob.unknown++; addPc(s, in); }
            else {
                // other objects (or an invalid address) are possible: explore separately
                auto n = fork(s);
                if (n->model) mergeModel(*n, m);
                addPc(*n, mkNot(in));
                { u128 q; if (n->model && !(evalIn(*n, mkNot(in), q) && q)) n->model = nullptr; }
                g_work.push_back(std::move(n));
                ob.discharged++;
                addPc(s, in);
            }
        }
    }
    off = simp(s, rel);
    if (write && o->readonly) failNow(s, "memory", "write to read-only memory");
    return o;
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }

static Val loadBytes(State& s, Val addr, unsigned bytes) {
    Val off;
    MemObj* o = resolve(s, addr, bytes, off, false);
    if (!off.isc() && !o->arrayMode && opt.iteMax) {
        std::vector<u128> cs;
        u64 base = o->base;
        if (allValues(s, off, opt.iteMax, cs)) {
            Val r; bool first = true;
            for (u128 c : cs) {
                o = findObj(s, base + (u64) c);
                bool needW = false;
                for (unsigned i = 0; i < bytes; i++) { auto& p = o->ch[((u64) c + i) / CH]; if ((!p && !o->zeroInit) || (p && p->st[((u64) c + i) % CH] == 0)) needW = true; }
                if (needW && !o->readonly) o = wobj(s, base);
                Val x = getBytes(*o, (u64) c, bytes);
                r = first ? x : mkIte(mkEq(off, C(c, 64)), x, r);
                first = false;
            }
            return r;
        }
    }
    if (!off.isc() && !o->arrayMode) {
        // few candidates: fork, otherwise use array reasoning
        bool fewPossible = false;
        if (o->size <= 4096) {
            u64 cand = 0; (void) cand;
            try { 
                // try enumeration first (cheap when the index is a small enum / bucket)
                unsigned save = opt.maxForkValues; opt.maxForkValues = 9;
                try { u64 c = (u64) concretize(s, off, "load offset"); opt.maxForkValues = save; off = C(c, 64); fewPossible = true; }
                catch (...) { opt.maxForkValues = save; throw; }
            } catch (Unsupported&) {}
        }
        if (!fewPossible && o->size > 16384) { u64 base = o->base; off = C((u64) concretize(s, off, "offset into a large object"), 64); o = findObj(s, base); fewPossible = true; }
        if (!fewPossible) {
            if (o->readonly) {
                // build the table once on the shared read-only object
                unsigned e = (o->size % 8 == 0 && bytes == 8) ? 8 : (o->size % 4 == 0 && bytes == 4) ? 4 : (o->size % 2 == 0 && bytes == 2) ? 2 : 1;
                promote(*o, e);
            } else {
                MemObj* w = wobj(s, o->base);
                promote(*w, 1);
                o = w;
            }
        } else o = findObj(s, o->base);
    }
    if (o->arrayMode) return arrRead(s, *o, off, bytes);
    if (!off.isc()) unsup("symbolic offset");
    // reading may cache uninitialised bytes: only if some chunk needs it
    bool needW = false;
    for (unsigned i = 0; i < bytes; i++) { auto& p = o->ch[(off.u() + i) / CH]; if ((!p && !o->zeroInit) || (p && p->st[(off.u() + i) % CH] == 0)) needW = true; }
    if (needW && !o->readonly) o = wobj(s, o->base);
    return getBytes(*o, off.u(), bytes);
}
static void recordWrite(State& s, MemObj* o, const Val& off, const Val& len);
static void storeBytes(State& s, Val addr, const Val& v, unsigned bytes) {
    Val off;
    MemObj* o = resolve(s, addr, bytes, off, true);
    o = wobj(s, o->base);
    if (!o) unsup("store to unmapped");
    if (!off.isc() && !o->arrayMode && opt.iteMax) {
        std::vector<u128> cs;
        u64 base = o->base;
        if (allValues(s, off, opt.iteMax, cs)) {
            o = wobj(s, base);
            for (u128 c : cs) putBytes(*o, (u64) c, mkIte(mkEq(off, C(c, 64)), v, getBytes(*o, (u64) c, bytes)), bytes);
            return;
        }
    }
    if (!off.isc() && !o->arrayMode) {
        bool few = false;
        u64 base = o->base;
        if (o->size <= 4096) {
            unsigned save = opt.maxForkValues; opt.maxForkValues = 9;
            try { u64 c = (u64) concretize(s, off, "store offset"); off = C(c, 64); few = true; } catch (Unsupported&) {}
            opt.maxForkValues = save;
        }
        if (!few && o->size > 16384) { off = C((u64) concretize(s, off, "offset into a large object"), 64); few = true; }
        o = wobj(s, base);
        if (!few) promote(*o, 1);
    }
    recordWrite(s, o, off, C(bytes, 64));
    if (o->arrayMode) { arrWrite(s, *o, off, v, bytes); return; }
    putBytes(*o, off.u(), v, bytes);
}
static void recordWrite(State& s, MemObj* o, const Val& off, const Val& len) { (void) s; (void) o; (void) off; (void) len; }

static Val loadTy(State& s, const Val& addr, Type* t) {
    if (isAgg(t)) {
        std::vector<Val> k;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        if (n > 4096) unsup("huge aggregate load");
        for (unsigned i = 0; i < n; i++) {
            Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
            u64 o = t->isStructTy() ? (u64) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64) DL->getTypeAllocSize(et).getFixedValue();
            k.push_back(loadTy(s, mkAdd(addr, C(o, 64)), et));
        }
        return mkAgg(k);
    }
    unsigned w = tyBits(t);
    if (!w) unsup("load type");
    unsigned bytes = (w + 7) / 8;
    Val v = loadBytes(s, addr, bytes);
    return v.w == w ? v : mkTrunc(v, w);
}
static void storeTy(State& s, const Val& addr, const Val& v, Type* t) {
    if (isAgg(t)) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
            u64 o = t->isStructTy() ? (u64) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64) DL->getTypeAllocSize(et).getFixedValue();
            storeTy(s, mkAdd(addr, C(o, 64)), v.n->k[i], et);
        }
        return;
    }
    unsigned w = tyBits(t);
    unsigned bytes = (w + 7) / 8;
    storeBytes(s, addr, v.w % 8 ? mkZext(v, bytes * 8) : v, bytes);
}

// -------------------------------------------------------------- memory blocks
static void doMemcpy(State& s, Val dst, Val src, Val len) {
    len = simp(s, len);
    if (len.isc() && len.c == 0) return;
    dst = simp(s, dst); src = simp(s, src);
    Val doff, soff;
    if (!len.isc()) {
        // symbolic length: resolve through array objects, else enumerate
        MemObj* so = src.isc() ? findObj(s, src.u()) : nullptr;
        MemObj* dobj = dst.isc() ? findObj(s, dst.u()) : nullptr;
        if (!so || !dobj) {
            u128 a;
            if (!so && evalIn(s, src, a)) so = findObj(s, (u64) a);
            if (!dobj && evalIn(s, dst, a)) dobj = findObj(s, (u64) a);
        }
        bool arrs = so && dobj && (so->arrayMode || dobj->arrayMode);
        if (!arrs) { u64 n = (u64) concretize(s, len, "memcpy length"); len = C(n, 64); if (!n) return; }
        else {
            // n == 0 is a separate path so that bounds checks use n >= 1
            Val z = mkEq(len, C(0, 64));
            Model m;
            Res r0 = may(s, z, &m), r1;
            if (r0 != Res::Unsat) {
                Model m1; r1 = may(s, mkNot(z), &m1);
                if (r1 == Res::Unsat) return;
                auto n = fork(s); assumeIn(*n, z); 
                n->st.back().ip++; // nothing copied
                g_work.push_back(std::move(n));
                assumeIn(s, mkNot(z));
            }
            auto bound = [&](Val& p, MemObj* o, Val& off) {
                off = simp(s, mkSub(p, C(o->base, 64)));
                Val sz = o->hasSym ? o->symSize : C(o->size, 64);
                Val ok = mkAnd(mkUle(off, sz), mkUle(len, mkSub(sz, off)));
                check(s, ok, "memory@" + curFunctionName(s), "memory", "memcpy out of bounds of " + o->name);
            };
            bound(src, so, soff); 
            so = findObj(s, so->base);
            bound(dst, dobj, doff);
            u64 db = dobj->base, sb = so->base;
            if (dobj->readonly) failNow(s, "memory", "write to read-only memory");
            unsigned e = so->arrayMode ? so->elem : dobj->elem;
            if (!so->arrayMode) { if (so->readonly) promote(*so, e); else promote(*wobj(s, sb), e); }
            if (!findObj(s, db)->arrayMode) promote(*wobj(s, db), e);
            so = findObj(s, sb);
            MemObj* d = wobj(s, db);
            if (so->elem != d->elem) unsup("memcpy between arrays of different granularity");
            e = d->elem;
            Val al = mkOr(mkOr(doff, soff), len);
            al = simp(s, mkAnd(al, C(e - 1, 64)));
            if (!al.isc() && solverCheck(s.pc, mkNot(mkEq(al, C(0, 64))), opt.branchMs, nullptr, false) == Res::Unsat) al = C(0, 64);
            if (!al.isc() || al.c) unsup("unaligned symbolic memcpy");
            recordWrite(s, d, doff, len);
            d->arr = arrCopy(d->arr, arrIndex(s, *d, doff), so->arr, arrIndex(s, *so, soff), simp(s, arrIndex(s, *d, len)));
            return;
        }
    }
    u64 n = len.u();
    if (opt.iteMax && n <= 64 && (!dst.isc() || !src.isc())) {
        std::vector<std::pair<unsigned, Val>> vals;
        for (u64 i = 0; i < n;) { unsigned step = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; vals.push_back({step, loadBytes(s, simp(s, mkAdd(src, C(i, 64))), step)}); i += step; }
        u64 i = 0;
        for (auto& p : vals) { storeBytes(s, simp(s, mkAdd(dst, C(i, 64))), p.second, p.first); i += p.first; }
        return;
    }
    if (n > (1ull << 31)) failNow(s, "memory", "memcpy with a huge length");
    if (n > 0x7fffffff) unsup("memcpy size");
    // byte-wise with alignment chunks through resolve
    Val a = dst, b = src;
    MemObj* so = resolve(s, b, (unsigned) n, soff, false);
    u64 sb = so->base;
    if (!soff.isc() && !so->arrayMode) { soff = C((u64) concretize(s, soff, "memcpy source"), 64); }
    MemObj* d = resolve(s, a, (unsigned) n, doff, true);
    u64 db = d->base;
    if (!doff.isc() && !d->arrayMode) { doff = C((u64) concretize(s, doff, "memcpy dest"), 64); }
    so = findObj(s, sb);
    d = wobj(s, db);
    so = sb == db ? d : findObj(s, sb);
    recordWrite(s, d, doff, len);
    if (!so->arrayMode && !d->arrayMode) {
        std::vector<Val> tmp; 
        // copy with status (uninitialised stays uninitialised)
        std::vector<uint8_t> st(n), dv(n); std::map<u64, Val> sv;
        for (u64 i = 0; i < n; i++) {
            u64 o2 = soff.u() + i; auto& p = so->ch[o2 / CH];
            if (!p) { st[i] = so->zeroInit ? 1 : 0; dv[i] = 0; }
            else { st[i] = p->st[o2 % CH]; dv[i] = p->d[o2 % CH]; if (st[i] == 2) sv[i] = p->sym[o2 % CH]; }
        }
        for (u64 i = 0; i < n; i++) {
            u64 o2 = doff.u() + i;
            if (st[i] == 1) putByte(*d, o2, dv[i]);
            else { Chunk* c = wchunk(*d, o2 / CH); if (st[i] == 2) { c->st[o2 % CH] = 2; c->sym[o2 % CH] = sv[i]; } else { if (c->st[o2 % CH] == 2) c->sym.erase(o2 % CH); c->st[o2 % CH] = 0; } }
        }
        return;
    }
    // generic: chunks of 8 then 1 (values read first to behave like memmove)
    std::vector<std::pair<unsigned, Val>> vals;
    for (u64 i = 0; i < n;) {
        unsigned step = n - i >= 8 ? 8 : 1;
        Val v = so->arrayMode ? arrRead(s, *so, mkAdd(soff, C(i, 64)), step) : getBytes(*so, soff.u() + i, step);
        vals.push_back({step, v}); i += step;
    }
    d = wobj(s, db);
    u64 i = 0;
    for (auto& p : vals) {
        if (d->arrayMode) arrWrite(s, *d, mkAdd(doff, C(i, 64)), p.second, p.first); else putBytes(*d, doff.u() + i, p.second, p.first);
        i += p.first;
    }
}
static void doMemset(State& s, Val dst, Val v, Val len) {
    len = simp(s, len);
    if (len.isc() && len.c == 0) return;
    dst = simp(s, dst);
    Val doff;
    if (!len.isc()) {
        MemObj* d = dst.isc() ? findObj(s, dst.u()) : nullptr;
        if (!d) { u128 a; if (evalIn(s, dst, a)) d = findObj(s, (u64) a); }
        if (!d || !d->arrayMode) { u64 n = (u64) concretize(s, len, "memset length"); len = C(n, 64); if (!n) return; }
        else {
            Val z = mkEq(len, C(0, 64));
            Model m; if (may(s, z, &m) != Res::Unsat) {
                Model m1; if (may(s, mkNot(z), &m1) == Res::Unsat) return;
                auto n = fork(s); assumeIn(*n, z); n->st.back().ip++; g_work.push_back(std::move(n)); assumeIn(s, mkNot(z));
            }
            doff = simp(s, mkSub(dst, C(d->base, 64)));
            Val sz = d->hasSym ? d->symSize : C(d->size, 64);
            check(s, mkAnd(mkUle(doff, sz), mkUle(len, mkSub(sz, doff))), "memory@" + curFunctionName(s), "memory", "memset out of bounds of " + d->name);
            d = wobj(s, d->base);
            Val e = v; for (unsigned i = 1; i < d->elem; i++) e = mkConcat(v, e);
            Val al = simp(s, mkAnd(mkOr(doff, len), C(d->elem - 1, 64)));
            if (!al.isc() && solverCheck(s.pc, mkNot(mkEq(al, C(0, 64))), opt.branchMs, nullptr, false) == Res::Unsat) al = C(0, 64);
            if (!al.isc() || al.c) unsup("unaligned symbolic memset");
            recordWrite(s, d, doff, len);
            d->arr = arrCopy(d->arr, arrIndex(s, *d, doff), arrConst(e), C(0, 64), simp(s, arrIndex(s, *d, len)));
            return;
        }
    }
    u64 n = len.u();
    MemObj* d = resolve(s, dst, (unsigned) std::min<u64>(n, 0xffffffffu), doff, true);
    u64 db = d->base;
    if (!doff.isc() && !d->arrayMode) doff = C((u64) concretize(s, doff, "memset dest"), 64);
    d = wobj(s, db);
    recordWrite(s, d, doff, len);
    if (d->arrayMode) { for (u64 i = 0; i < n; i++) arrWrite(s, *d, mkAdd(doff, C(i, 64)), v, 1); return; }
    for (u64 i = 0; i < n; i++) putBytes(*d, doff.u() + i, v, 1);
}
static std::string cstr(State& s, u64 a) {
    std::string r;
    for (int i = 0; i < 400; i++) { Val b = loadBytes(s, C(a + i, 64), 1); if (!b.isc() || !b.c) break; r.push_back((char) b.u()); }
    return r;
}

#include "exec.inc"
