// Links the bitcode of the real sources with a contract file, applies the callee-contract
// replacements declared by the contract file and runs LLVM's scalar simplification pipeline.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <iostream>
#include <map>
using namespace llvm;

static std::string cstrOf(Constant* c) {
    c = cast<Constant>(c->stripPointerCasts());
    if (auto* g = dyn_cast<GlobalVariable>(c)) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) return d->isCString() ? d->getAsCString().str() : d->getAsString().str();
    return "";
}

int main(int argc, char** argv) {
    std::string out; std::vector<std::string> ins; std::string lvl = "1";
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") out = argv[++i]; else if (a == "-O") lvl = argv[++i]; else ins.push_back(a); }
    LLVMContext C; SMDiagnostic e;
    std::unique_ptr<Module> M = parseIRFile(ins[0], e, C); // contract file first
    if (!M) { e.print("prep", errs()); return 2; }
    Linker L(*M);
    for (size_t i = 1; i < ins.size(); i++) {
        auto m = parseIRFile(ins[i], e, C);
        if (!m) { e.print("prep", errs()); return 2; }
        bool only = ins[i].find("vk_rt") == std::string::npos;
        (void) only;
        if (L.linkInModule(std::move(m))) { std::cerr << "link error " << ins[i] << "\n"; return 2; }
    }
    // callee contracts
    std::vector<std::pair<std::string, Function*>> reps;
    for (auto& g : M->globals()) {
        if (!g.getName().starts_with("vk_replacements") || !g.hasInitializer()) continue;
        auto* arr = dyn_cast<ConstantArray>(g.getInitializer());
        if (!arr) continue;
        for (auto& op : arr->operands()) {
            auto* st = dyn_cast<ConstantStruct>(op);
            if (!st) continue;
            auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
            if (f) reps.push_back({cstrOf(st->getOperand(0)), f});
        }
    }
    std::vector<Function*> all;
    for (auto& f : *M) all.push_back(&f);
    for (auto* f : all) {
        if (f->isIntrinsic()) continue;
        std::string d = demangle(f->getName().str());
        for (auto& r : reps) {
            if (r.first.empty() || f == r.second) continue;
            bool m;
            if (r.first[0] == '~') { // ~prefix~suffix of the mangled name
                size_t q = r.first.find('~', 1); std::string a = r.first.substr(1, q - 1), z = r.first.substr(q + 1);
                m = f->getName().starts_with(a) && f->getName().ends_with(z);
            } else m = r.first.back() == '(' ? d.compare(0, r.first.size(), r.first) == 0 || d.find(" " + r.first) != std::string::npos : d == r.first;
            if (m && (d.find("lambda") != std::string::npos || d.find("::$_") != std::string::npos)) m = false; // a local function of the callee
            if (m && f->getName().find("vk_stub") == StringRef::npos) {
                std::cout << "replaced " << d << " by contract " << demangle(r.second->getName().str()) << "\n";
                f->replaceUsesWithIf(r.second, [&](Use& u) { 
                    auto* in = dyn_cast<Instruction>(u.getUser());
                    return !in || in->getFunction() != r.second; }); // a contract may call the function it replaces
                break;
            }
        }
    }
    // keep the contract entry points
    internalizeModule(*M, [](const GlobalValue& g) { return g.getName().starts_with("vk_contract_") || g.getName().starts_with("vk_meta_") || g.getName().starts_with("vk_loopspec") || g.getName() == "llvm.global_ctors"; });
    for (auto& f : *M) {
        f.removeFnAttr(Attribute::OptimizeNone);
        f.removeFnAttr("target-cpu"); f.removeFnAttr("target-features"); f.removeFnAttr("tune-cpu");
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager mp; mp.addPass(GlobalDCEPass()); mp.run(*M, MAM); }
    ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(lvl == "2" ? OptimizationLevel::O2 : OptimizationLevel::O1);
    MPM.run(*M, MAM);
    { ModulePassManager mp; mp.addPass(GlobalDCEPass()); mp.run(*M, MAM); }
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os);
    return 0;
}
