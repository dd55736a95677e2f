#pragma once
#include "expr.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>

using u64 = uint64_t;

static const unsigned CH = 256; // chunk size
struct Chunk {
    uint8_t st[CH]; // 0 uninit, 1 concrete, 2 symbolic
    uint8_t d[CH];
    std::map<uint16_t, Val> sym;
};
struct MemObj {
    u64 base = 0;
    u64 size = 0;         // concrete size (or maximal extent when symbolic)
    Val symSize;          // valid when hasSym
    bool hasSym = false;
    bool zeroInit = false;
    bool readonly = false;
    bool arrayMode = false;
    unsigned elem = 1;    // bytes per array element
    ArrP arr;
    std::vector<std::shared_ptr<Chunk>> ch;
    std::string name;
    char kind = 'h'; // g global, s stack, h heap, e exception, x harness
};
typedef std::shared_ptr<MemObj> ObjP;

struct KInst {
    llvm::Instruction* I;
    unsigned opc;
    int dest = -1;
    std::vector<int> ops;
    // GEP
    u64 gepConst = 0;
    std::vector<std::pair<int, u64>> gepVar; // op, scale
    unsigned w = 0;   // result width for first-class int/fp/ptr results
    llvm::Type* ty = nullptr;
    llvm::Function* callee = nullptr;
    int succ[2] = {-1, -1};
    int idxInBlock = 0;
};
struct KBlock {
    std::vector<KInst> in;
    int nphi = 0;
    llvm::BasicBlock* bb;
};
struct LoopCut;
struct KFunc {
    llvm::Function* F;
    std::vector<KBlock> blocks;
    std::map<const llvm::BasicBlock*, int> bidx;
    std::map<const llvm::Value*, int> vidx;
    unsigned nregs = 0;
    std::string dname;
    std::vector<std::shared_ptr<LoopCut>> cuts; // per block: non-null when header of a cut loop
    bool loopsDone = false;
};

struct Frame {
    KFunc* f = nullptr;
    int block = 0, prev = -1, ip = 0;
    std::vector<Val> regs;
    std::vector<u64> allocas;
    const KInst* call = nullptr; // call instruction in the caller
    std::vector<Val> varargs;
};

struct NondetRec { std::string name; uint32_t w; Val v; };
struct ArrRec { std::string name; u64 base; Val count; unsigned elem; uint32_t root; };

struct Exc { u64 obj; std::string ti; };

struct CutCtx { // an active cut loop iteration
    size_t depth; LoopCut* cut; u64 startAddr;
    std::vector<Val> havoc; // values of the integer phis at iteration start
    std::vector<Val> init;
    std::vector<Val> ghosts;
};

typedef std::map<u64, ObjP> ObjMap;
struct State {
    u64 id = 0;
    std::vector<Frame> st;
    std::shared_ptr<ObjMap> mem;
    std::vector<Val> pc;
    std::shared_ptr<Model> model;
    std::unordered_map<N, Val> subst;
    std::shared_ptr<std::unordered_map<N, Val>> simpCache;
    std::shared_ptr<std::unordered_map<N, std::vector<u128>>> enumCache;
    std::vector<NondetRec> log;
    std::vector<ArrRec> arrs;
    std::vector<Exc> caught;
    u64 nextAddr = 0;
    u64 steps = 0;
    bool maybeInfeasible = false;
    bool tainted = false;   // went through an approximation: failures on it are not definite
    std::vector<CutCtx> cuts;
    std::vector<std::pair<Val, std::string>> dummy;
};
