// ------------------------------------------------------------------ control flow

static bool loopHook(State& s, int from, int target);

static void jump(State& s, int target) {
    Frame& f = s.st.back();
    KBlock& b = f.f->blocks[target];
    if (b.nphi) {
        std::vector<Val> tmp(b.nphi);
        const BasicBlock* pred = f.f->blocks[f.block].bb;
        for (int i = 0; i < b.nphi; i++) {
            auto* p = cast<PHINode>(b.in[i].I);
            int ix = p->getBasicBlockIndex(pred);
            tmp[i] = R(f, b.in[i].ops[ix]);
        }
        for (int i = 0; i < b.nphi; i++) f.regs[b.in[i].dest] = tmp[i];
    }
    int from = f.block;
    f.prev = f.block;
    f.block = target;
    f.ip = b.nphi;
    if (!f.f->loopsDone || f.f->cuts[target]) { if (loopHook(s, from, target)) return; }
}

static void noteFunction(const Function* F) { g_functions.insert(demangle(F->getName().str())); }

static void pushCall(State& s, Function* F, const std::vector<Val>& args, const KInst* call) {
    KFunc* k = kfunc(F);
    if (s.st.size() > 3000) unsup("call depth");
    Frame f;
    f.f = k;
    f.regs.resize(k->nregs);
    size_t na = F->arg_size();
    for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
    // byval arguments get their own copy
    for (unsigned i = 0; i < na && i < args.size(); i++) {
        if (F->hasParamAttribute(i, Attribute::ByVal)) {
            Type* t = F->getParamByValType(i);
            u64 sz = DL->getTypeAllocSize(t).getFixedValue();
            u64 a = allocate(s, sz, 16, 's', "byval");
            doMemcpy(s, C(a, 64), args[i], C(sz, 64));
            f.regs[i] = C(a, 64);
            f.allocas.push_back(a);
        }
    }
    for (size_t i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
    f.call = call;
    s.st.push_back(std::move(f));
}
static void popFrame(State& s) {
    for (u64 a : s.st.back().allocas) release(s, a);
    s.st.pop_back();
    while (!s.cuts.empty() && s.cuts.back().depth > s.st.size()) s.cuts.pop_back();
}
static void finishCall(State& s, const KInst* ki, const Val& v) {
    Frame& f = s.st.back();
    if (ki->dest >= 0) f.regs[ki->dest] = v;
    if (ki->opc == Instruction::Invoke) jump(s, ki->succ[0]);
    else f.ip++;
}
static void doReturn(State& s, const Val* v) {
    const KInst* call = s.st.back().call;
    popFrame(s);
    if (s.st.empty()) { throw EndPath(); }
    if (!call) { throw EndPath(); }
    finishCall(s, call, v ? *v : Val());
}

// ------------------------------------------------------------------ exceptions
static std::map<std::string, std::string> g_stdBases = {
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
static bool tiMatch(State& s, const std::string& thrown, const std::string& want, u64 obj, u64& adj) {
    if (thrown == want) { adj = obj; return true; }
    auto it = g_stdBases.find(thrown);
    if (it != g_stdBases.end()) return tiMatch(s, it->second, want, obj, adj);
    GlobalVariable* g = M->getNamedGlobal(thrown);
    if (!g || !g->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return false;
    auto nameOf = [](Constant* c) { return c->stripPointerCasts()->getName().str(); };
    std::string vt;
    { Value* v = cs->getOperand(0)->stripInBoundsOffsets(); vt = v->getName().str(); }
    if (vt.find("si_class_type_info") != std::string::npos) return tiMatch(s, nameOf(cs->getOperand(2)), want, obj, adj);
    if (vt.find("vmi_class_type_info") != std::string::npos) {
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
            int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
            int64_t off = fl >> 8;
            u64 o2 = obj;
            if (fl & 1) { Val vp = loadBytes(s, C(obj, 64), 8); if (!vp.isc()) return false; Val d = loadBytes(s, C(vp.u() + off, 64), 8); o2 = obj + d.u(); }
            else o2 = obj + off;
            if (tiMatch(s, nameOf(cs->getOperand(i)), want, o2, adj)) return true;
        }
    }
    return false;
}
static int typeId(const std::string& n) {
    auto it = g_typeIds.find(n);
    if (it != g_typeIds.end()) return it->second;
    int id = g_typeIds.size() + 1;
    g_typeIds[n] = id; g_typeNames[id] = n;
    return id;
}
static std::string tiNameAt(u64 a) {
    for (auto& p : g_gaddr) if (p.second == a) return p.first->getName().str();
    return "?";
}
static std::map<u64, std::string> g_excTypes; // exception object address -> typeinfo name (addresses are unique per path prefix)
static void unwind(State& s, u64 obj, const std::string& ti) {
    // current frame's instruction is the throwing call
    for (;;) {
        Frame& f = s.st.back();
        KInst& ki = f.f->blocks[f.block].in[f.ip];
        if (ki.opc == Instruction::Invoke) {
            BasicBlock* ub = f.f->blocks[ki.succ[1]].bb;
            LandingPadInst* lp = ub->getLandingPadInst();
            int sel = 0; u64 adj = obj; bool match = false;
            for (unsigned i = 0; i < lp->getNumClauses() && !match; i++) {
                if (lp->isCatch(i)) {
                    Constant* c = lp->getClause(i);
                    if (isa<ConstantPointerNull>(c)) { match = true; sel = typeId("..."); adj = obj; }
                    else {
                        std::string want = c->stripPointerCasts()->getName().str();
                        if (tiMatch(s, ti, want, obj, adj)) { match = true; sel = typeId(want); }
                    }
                } else { match = true; sel = -1; } // filter: treat as matching (terminates)
            }
            if (match || lp->isCleanup()) {
                jump(s, ki.succ[1]);
                Frame& f2 = s.st.back();
                KBlock& b = f2.f->blocks[f2.block];
                while (b.in[f2.ip].opc != Instruction::LandingPad) f2.ip++;
                Val agg = mkAgg({C(match ? adj : obj, 64), C(sel, 32)});
                f2.regs[b.in[f2.ip].dest] = agg;
                f2.ip++;
                return;
            }
        }
        if (s.st.size() == 1) {
            failNow(s, "exception", "uncaught exception of type " + demangle(ti));
        }
        popFrame(s);
    }
}
static u64 g_stdVtable, g_whatText;
static void throwStd(State& s, const std::string& ti) {
    u64 a = allocate(s, 64, 16, 'e', "std exception", true);
    storeBytes(s, C(a, 64), C(g_stdVtable + 16, 64), 8);
    g_excTypes[a] = ti;
    s.caught.push_back({a, ti}); // remembered for identification (current exception)
    s.caught.pop_back();
    unwind(s, a, ti);
}

// ------------------------------------------------------------------ external functions
static Val fpUF(const char* n, const std::vector<Val>& a, unsigned w) {
    bool all = true; for (auto& x : a) all &= x.isc();
    if (all && w == 64) {
        double d[2] = {0, 0}; for (size_t i = 0; i < a.size() && i < 2; i++) { u64 x = a[i].u(); memcpy(&d[i], &x, 8); }
        std::string s = n; double r; bool ok = true;
        if (s == "pow") r = pow(d[0], d[1]); else if (s == "fmod") r = fmod(d[0], d[1]); else if (s == "sin") r = sin(d[0]); else if (s == "cos") r = cos(d[0]);
        else if (s == "tan") r = tan(d[0]); else if (s == "asin") r = asin(d[0]); else if (s == "acos") r = acos(d[0]); else if (s == "atan") r = atan(d[0]);
        else if (s == "log") r = log(d[0]); else if (s == "exp") r = exp(d[0]); else ok = false;
        if (ok) { u64 x; memcpy(&x, &r, 8); return C(x, 64); }
    }
    return mkUF(n, a, w);
}
static Val memcmpVal(State& s, Val a, Val b, u64 n, bool) {
    Val r = C(0, 32);
    std::vector<std::pair<Val, Val>> v;
    for (u64 i = 0; i < n; i++) v.push_back({loadBytes(s, mkAdd(a, C(i, 64)), 1), loadBytes(s, mkAdd(b, C(i, 64)), 1)});
    for (u64 i = n; i-- > 0;) r = mkIte(mkEq(v[i].first, v[i].second), r, mkIte(mkUlt(v[i].first, v[i].second), C((u128) -1, 32), C(1, 32)));
    return r;
}
struct CallCtx { State& s; const KInst* ki; std::vector<Val>& a; };
static std::string labelArg(State& s, const Val& v) { return v.isc() && v.u() ? cstr(s, v.u()) : "?"; }

// returns true when handled (result in r, 'done' says control already transferred)
static bool externalCall(State& s, Function* F, const KInst* ki, std::vector<Val>& a, Val& r, bool& done) {
    StringRef n = F->getName();
    unsigned w = tyBits(F->getReturnType());
    r = Val();
    done = false;
    // ---- harness interface
    if (n.starts_with("vk_")) {
        if (n == "vk_nondet") {
            unsigned bits = a[1].u();
            std::string nm = labelArg(s, a[0]);
            Val v = mkVar(nm, bits);
            s.log.push_back({nm, bits, v});
            r = mkZext(v, 64);
            return true;
        }
        if (n == "vk_assume") {
            Val c = mkExtract(a[0], 0, 1);
            c = simp(s, c);
            if (c.isc()) { if (!c.c) { g_pathsAssumed++; throw EndPath(); } return true; }
            Model m;
            if (may(s, c, &m) == Res::Unsat) { g_pathsAssumed++; throw EndPath(); }
            assumeIn(s, c);
            return true;
        }
        if (n == "vk_assert") { check(s, mkExtract(a[0], 0, 1), labelArg(s, a[1]), "assert", "assertion does not hold"); return true; }
        if (n == "vk_rewrite") { // lemma: both values are equal; from here on the first is replaced by the second
            check(s, mkEq(a[0], a[1]), labelArg(s, a[2]), "lemma", "values differ");
            Val x = simp(s, a[0]), y = simp(s, a[1]);
            if (x.n && !same(x, y)) addSubst(s, x.n, y);
            return true;
        }
        if (n == "vk_fail") { std::string l = labelArg(s, a[0]); check(s, B(false), l, "assert", "must not be reached"); throw EndPath(); }
        if (n == "vk_cover") {
            if (!a[0].isc()) { u64 k = (u64) concretize(s, a[0], "vk_cover"); a[0] = C(k, 64); }
            std::string l = labelArg(s, a[0]);
            if (g_covers[l] == 0) {
                Model m;
                if (!s.maybeInfeasible || solverCheck(s.pc, B(true), opt.queryMs, &m, true) == Res::Sat) g_covers[l]++;
            }
            return true;
        }
        if (n == "vk_end") throw EndPath();
        if (n == "vk_same") { r = C(same(simp(s, a[0]), simp(s, a[1])) ? 1 : 0, w); return true; }
        if (n == "vk_symbolic") { r = C(1, w); return true; }
        if (n == "vk_concretize") { unsigned save = opt.maxForkValues; opt.maxForkValues = 1100; u64 c; try { c = (u64) concretize(s, a[0], "vk_concretize"); } catch (...) { opt.maxForkValues = save; throw; } opt.maxForkValues = save; r = C(c, 64); return true; }
        if (n == "vk_bytes") {
            u64 len = (u64) concretize(s, a[1], "vk_bytes");
            std::string nm = labelArg(s, a[2]);
            for (u64 i = 0; i < len; i++) { Val v = mkVar(nm + "[" + std::to_string(i) + "]", 8); s.log.push_back({nm, 8, v}); storeBytes(s, mkAdd(a[0], C(i, 64)), v, 1); }
            return true;
        }
        if (n == "vk_array") { // (name, count, elem): fresh object with symbolic contents
            std::string nm = labelArg(s, a[0]);
            unsigned e = a[2].u();
            Val cnt = simp(s, a[1]);
            auto o = std::make_shared<MemObj>();
            u64 maxB = cnt.isc() ? cnt.u() * e : (1ull << 36);
            u64 base = allocAddr(s, maxB, 4096);
            o->base = base; o->size = maxB; o->kind = 'x'; o->name = nm; o->arrayMode = true; o->elem = e;
            uint32_t root = mkArrayRoot(nm, e * 8);
            o->arr = arrRoot(root, e * 8);
            o->hasSym = true;
            o->symSize = mkBin(Op::MUL, cnt, C(e, 64));
            if (!cnt.isc()) assumeIn(s, mkUle(cnt, C((1ull << 36) / e, 64)));
            wmap(s)[base] = o;
            s.arrs.push_back({nm, base, cnt, e, root});
            r = C(base, 64);
            return true;
        }
        if (n == "vk_and") { r = mkZext(mkAnd(mkExtract(a[0], 0, 1), mkExtract(a[1], 0, 1)), w); return true; }
        if (n == "vk_or") { r = mkZext(mkOr(mkExtract(a[0], 0, 1), mkExtract(a[1], 0, 1)), w); return true; }
        if (n == "vk_ite64") { r = mkIte(mkExtract(a[0], 0, 1), a[1], a[2]); return true; }
        if (n == "vk_print") { std::cerr << "[vk] " << labelArg(s, a[0]) << " " << valStr(simp(s, a[1]), 8) << "\n"; return true; }
        if (n == "vk_uf64") { r = mkUF(labelArg(s, a[0]), {a[1], a[2]}, 64); return true; }
        return false;
    }
    // ---- allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "aligned_alloc" || n == "calloc" || n == "_ZnwmRKSt9nothrow_t" || n == "posix_memalign") {
        Val sz = a[0]; u64 al = 16; bool zero = false;
        if (n == "aligned_alloc") { al = (u64) concretize(s, a[0], "alignment"); sz = a[1]; }
        if (n == "_ZnwmSt11align_val_t") al = (u64) concretize(s, a[1], "alignment");
        if (n == "calloc") { sz = mkBin(Op::MUL, a[0], a[1]); zero = true; }
        if (n == "posix_memalign") { al = (u64) concretize(s, a[1], "alignment"); sz = a[2]; }
        sz = simp(s, sz);
        u64 base;
        if (sz.isc()) base = allocate(s, sz.u(), al, 'h', "heap block", zero);
        else {
            unsigned save = opt.maxForkValues; opt.maxForkValues = 8;
            bool ok = true;
            try { sz = C(concretize(s, sz, "malloc size"), 64); } catch (Unsupported&) { ok = false; }
            opt.maxForkValues = save;
            if (ok) base = allocate(s, sz.u(), al, 'h', "heap block", zero);
            else {
                auto o = std::make_shared<MemObj>();
                base = allocAddr(s, 1ull << 36, std::max<u64>(al, 4096));
                o->base = base; o->size = 1ull << 36; o->kind = 'h'; o->name = "heap block"; o->arrayMode = true; o->elem = 8;
                o->arr = arrRoot(mkArrayRoot("heap", 64), 64);
                o->hasSym = true; o->symSize = sz;
                assumeIn(s, mkUle(sz, C(1ull << 36, 64)));
                wmap(s)[base] = o;
            }
        }
        if (n == "posix_memalign") { storeBytes(s, a[0], C(base, 64), 8); r = C(0, 32); return true; }
        r = C(base, 64);
        return true;
    }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
        Val p = simp(s, a[0]);
        if (!p.isc()) p = C(concretize(s, p, "free"), 64);
        if (p.u()) {
            auto it = s.mem->find(p.u());
            if (it == s.mem->end() || (it->second->kind != 'h' && it->second->kind != 'x')) failNow(s, "memory", "invalid free");
            release(s, p.u());
        }
        return true;
    }
    if (n == "memcpy" || n == "memmove") { doMemcpy(s, a[0], a[1], a[2]); r = a[0]; return true; }
    if (n == "memset") { doMemset(s, a[0], mkTrunc(a[1], 8), a[2]); r = a[0]; return true; }
    if (n == "memcmp" || n == "bcmp") {
        u64 len = (u64) concretize(s, a[2], "memcmp length");
        if (len > 100000) unsup("memcmp length");
        r = memcmpVal(s, a[0], a[1], len, true); return true;
    }
    if (n == "strlen") {
        u64 base = (u64) concretize(s, a[0], "strlen"); u64 i = 0;
        for (;; i++) { Val b = loadBytes(s, C(base + i, 64), 1); b = simp(s, b); if (!b.isc()) { 
                b = C(concretize(s, mkZext(mkEq(b, C(0, 8)), 8), "strlen byte") ? 0 : 1, 8); }
            if (!b.c) break; if (i > 200000) unsup("strlen"); }
        r = C(i, 64); return true;
    }
    if (n == "memchr") {
        u64 len = (u64) concretize(s, a[2], "memchr length");
        r = C(0, 64);
        for (u64 i = len; i-- > 0;) r = mkIte(mkEq(loadBytes(s, mkAdd(a[0], C(i, 64)), 1), mkTrunc(a[1], 8)), mkAdd(a[0], C(i, 64)), r);
        return true;
    }
    // ---- exceptions
    if (n == "__cxa_allocate_exception") { r = C(allocate(s, (u64) concretize(s, a[0], "exc"), 16, 'e', "exception object"), 64); return true; }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw") { u64 o = a[0].u(); std::string ti = tiNameAt(a[1].u()); g_excTypes[o] = ti; unwind(s, o, ti); done = true; return true; }
    if (n == "__cxa_begin_catch") { 
        u64 o = a[0].u();
        // locate the exception object that contains the adjusted pointer
        auto it = s.mem->upper_bound(o); if (it != s.mem->begin()) --it;
        s.caught.push_back({it->first, g_excTypes[it->first]});
        r = a[0]; return true; }
    if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) failNow(s, "exception", "rethrow without exception"); Exc e = s.caught.back(); unwind(s, e.obj, e.ti); done = true; return true; }
    if (n == "_ZSt17current_exceptionv") { storeBytes(s, a[0], s.caught.empty() ? C(0, 64) : C(s.caught.back().obj, 64), 8); return true; }
    if (n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { Val p = loadBytes(s, a[0], 8); if (!p.isc() || !p.u()) failNow(s, "exception", "rethrow of no exception"); u64 o = p.u(); unwind(s, o, g_excTypes[o]); done = true; return true; }
    if (n.starts_with("_ZNSt15__exception_ptr13exception_ptr") && (n.ends_with("_M_addrefEv") || n.ends_with("_M_releaseEv") || n.ends_with("D1Ev") || n.ends_with("D2Ev"))) return true;
    if (n == "_ZNSt15__exception_ptr13exception_ptrC1ERKS0_" || n == "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_") { storeBytes(s, a[0], loadBytes(s, a[1], 8), 8); return true; }
    if (n == "_ZNKSt9exception4whatEv") { r = C(g_whatText, 64); return true; }
    if (n.starts_with("_ZNSt13runtime_errorC") || n.starts_with("_ZNSt11logic_errorC")) { storeBytes(s, a[0], C(g_stdVtable + 16, 64), 8); return true; }
    if (n.starts_with("_ZNSt13runtime_errorD") || n.starts_with("_ZNSt11logic_errorD")) return true;
    if (n == "__cxa_get_exception_ptr") { r = a[0]; return true; }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__clang_call_terminate" || n == "__assert_fail" || n == "__cxa_pure_virtual") failNow(s, "abort", "call of " + n.str());
    if (n == "_ZSt17__throw_bad_allocv") { throwStd(s, "_ZTISt9bad_alloc"); done = true; return true; }
    if (n == "_ZSt28__throw_bad_array_new_lengthv") { throwStd(s, "_ZTISt20bad_array_new_length"); done = true; return true; }
    if (n == "_ZSt20__throw_length_errorPKc") { throwStd(s, "_ZTISt12length_error"); done = true; return true; }
    if (n == "_ZSt19__throw_logic_errorPKc") { throwStd(s, "_ZTISt11logic_error"); done = true; return true; }
    if (n == "_ZSt24__throw_out_of_range_fmtPKcz" || n == "_ZSt20__throw_out_of_rangePKc") { throwStd(s, "_ZTISt12out_of_range"); done = true; return true; }
    if (n == "_ZSt25__throw_bad_function_callv") { throwStd(s, "_ZTISt17bad_function_call"); done = true; return true; }
    if (n == "_ZSt19uncaught_exceptionsv") { r = C(0, 32); return true; }
    if (n == "__cxa_atexit") { r = C(0, 32); return true; }
    if (n == "__cxa_guard_acquire") { Val b = loadBytes(s, a[0], 1); r = mkZext(mkEq(b, C(0, 8)), 32); return true; }
    if (n == "__cxa_guard_release") { storeBytes(s, a[0], C(1, 8), 1); return true; }
    if (n == "__cxa_guard_abort") return true;
    if (n == "_ZNSt9exceptionD1Ev" || n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD0Ev") return true;
    if (n == "_ZNSt9bad_allocD1Ev" || n == "_ZNSt9bad_allocD2Ev") return true;
    if (n == "_ZNSt6chrono3_V212steady_clock3nowEv") { r = C(1000000000ull, 64); return true; }
    if (n == "pow" || n == "fmod" || n == "sin" || n == "cos" || n == "tan" || n == "asin" || n == "acos" || n == "atan" || n == "log" || n == "exp") { r = fpUF(n.str().c_str(), a, w); return true; }
    if (n == "floor") { r = mkFp(Op::FRTI, {a[0]}, w, 1); return true; }
    if (n == "ceil") { r = mkFp(Op::FRTI, {a[0]}, w, 2); return true; }
    if (n == "trunc") { r = mkFp(Op::FRTI, {a[0]}, w, 3); return true; }
    if (n == "sqrt") { r = mkFp(Op::FSQRT, {a[0]}, w); return true; }
    if (n == "fabs") { r = mkAnd(a[0], C(maskw(w - 1), w)); return true; }
    if (n == "fflush" || n == "fwrite" || n == "fprintf" || n == "puts" || n == "printf") { r = C(0, w ? w : 32); return true; }
    if (n == "__errno_location") { static u64 e = 0; if (!e) { e = 0x8000; } 
        if (!s.mem->count(e)) wmap(s)[e] = newObj(e, 4, 'g', "errno", true); r = C(e, 64); return true; }
    return false;
}

static Val bitrev(const Val& v, unsigned w) { Val r = mkExtract(v, w - 1, 1); for (int i = w - 2; i >= 0; i--) r = mkConcat(mkExtract(v, i, 1), r); return r; }
static Val ctpop(const Val& v) { Val r = C(0, v.w); for (unsigned i = 0; i < v.w; i++) r = mkAdd(r, mkZext(mkExtract(v, i, 1), v.w)); return r; }
static Val popc(Val v) {
    if (v.isc()) return C(__builtin_popcountll(v.u()) + __builtin_popcountll((u64)(v.c >> 64)), v.w);
    if (v.w != 64 && v.w != 32) return ctpop(v);
    auto K = [&](u64 c) { return C(c, v.w); };
    auto sh = [&](const Val& x, unsigned k) { return mkBin(Op::LSHR, x, C(k, v.w)); };
    v = mkSub(v, mkAnd(sh(v, 1), K(0x5555555555555555ull)));
    v = mkAdd(mkAnd(v, K(0x3333333333333333ull)), mkAnd(sh(v, 2), K(0x3333333333333333ull)));
    v = mkAnd(mkAdd(v, sh(v, 4)), K(0x0f0f0f0f0f0f0f0full));
    return sh(mkBin(Op::MUL, v, K(0x0101010101010101ull)), v.w - 8);
}
static Val ctz(const Val& v) { Val r = C(v.w, v.w); for (int i = v.w - 1; i >= 0; i--) r = mkIte(mkExtract(v, i, 1), C(i, v.w), r); return r; }
static Val clz(const Val& v) { Val r = C(v.w, v.w); for (unsigned i = 0; i < v.w; i++) r = mkIte(mkExtract(v, i, 1), C(v.w - 1 - i, v.w), r); return r; }

static bool intrinsic(State& s, const KInst* ki, IntrinsicInst* ii, std::vector<Val>& a, Val& r, bool& done) {
    unsigned w = ki->w;
    done = false; r = Val();
    switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0], a[1], a[2]); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(s, a[0], a[1], a[2]); return true;
    case Intrinsic::assume: { 
        check(s, a[0], "ub-assume@" + curFunctionName(s), "ub", "optimizer-derived assumption violated"); return true; }
    case Intrinsic::expect: r = a[0]; return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: failNow(s, "trap", "trap");
    case Intrinsic::ubsantrap: failNow(s, "undefined-behaviour", "undefined behaviour (ubsan check " + std::to_string(a[0].u()) + ")");
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned bw = a[0].w; auto id = ii->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
        unsigned xw = mul ? bw * 2 : bw + 1;
        if (xw > 128) unsup("wide overflow");
        auto ex = [&](const Val& v) { return sg ? mkSext(v, xw) : mkZext(v, xw); };
        Op o = mul ? Op::MUL : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::ADD : Op::SUB;
        Val full = mkBin(o, ex(a[0]), ex(a[1]));
        Val res = mul ? mkExtract(full, 0, bw) : mkBin(o, a[0], a[1]);
        Val ov;
        if (!mul && sg && !res.isc()) {
            // sign based formulation
            Val sa = mkExtract(a[0], bw - 1, 1), sb = mkExtract(a[1], bw - 1, 1), sr = mkExtract(res, bw - 1, 1);
            if (o == Op::ADD) ov = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))); else ov = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr)));
        } else if (!mul && !sg) ov = o == Op::ADD ? mkUlt(res, a[0]) : mkUlt(a[0], a[1]);
        else ov = mkNot(mkEq(full, ex(res)));
        r = mkAgg({res, ov}); return true; }
    case Intrinsic::uadd_sat: { Val t = mkAdd(a[0], a[1]); r = mkIte(mkUlt(t, a[0]), C(maskw(w), w), t); return true; }
    case Intrinsic::usub_sat: r = mkIte(mkUlt(a[0], a[1]), C(0, w), mkSub(a[0], a[1])); return true;
    case Intrinsic::umin: r = mkIte(mkUlt(a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::umax: r = mkIte(mkUlt(a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::smin: r = mkIte(mkBin(Op::SLT, a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::smax: r = mkIte(mkBin(Op::SLT, a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::abs: r = mkIte(mkBin(Op::SLT, a[0], C(0, w)), mkSub(C(0, w), a[0]), a[0]); return true;
    case Intrinsic::ctpop: r = popc(a[0]); return true;
    case Intrinsic::cttz: r = ctz(a[0]); return true;
    case Intrinsic::ctlz: r = clz(a[0]); return true;
    case Intrinsic::bswap: { r = mkExtract(a[0], 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a[0], i, 8)); return true; }
    case Intrinsic::bitreverse: r = bitrev(a[0], w); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Val sh = mkBin(Op::UREM, a[2], C(w, w));
        if (sh.isc()) {
            unsigned k = sh.u();
            if (ii->getIntrinsicID() == Intrinsic::fshl) r = k ? mkConcat(mkExtract(a[0], 0, w - k), mkExtract(a[1], w - k, k)) : a[0];
            else r = k ? mkConcat(mkExtract(a[0], 0, k), mkExtract(a[1], k, w - k)) : a[1];
        } else {
            Val inv = mkSub(C(w, w), sh);
            if (ii->getIntrinsicID() == Intrinsic::fshl) r = mkOr(mkBin(Op::SHL, a[0], sh), mkBin(Op::LSHR, a[1], inv));
            else r = mkOr(mkBin(Op::LSHR, a[1], sh), mkBin(Op::SHL, a[0], inv));
        }
        return true; }
    case Intrinsic::fabs: r = mkAnd(a[0], C(maskw(w - 1), w)); return true;
    case Intrinsic::floor: r = mkFp(Op::FRTI, {a[0]}, w, 1); return true;
    case Intrinsic::ceil: r = mkFp(Op::FRTI, {a[0]}, w, 2); return true;
    case Intrinsic::trunc: r = mkFp(Op::FRTI, {a[0]}, w, 3); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = mkFp(Op::FRTI, {a[0]}, w, 0); return true;
    case Intrinsic::sqrt: r = mkFp(Op::FSQRT, {a[0]}, w); return true;
    case Intrinsic::copysign: r = mkOr(mkAnd(a[0], C(maskw(w - 1), w)), mkAnd(a[1], C((u128) 1 << (w - 1), w))); return true;
    case Intrinsic::fmuladd: r = mkFp(Op::FADD, {mkFp(Op::FMUL, {a[0], a[1]}, w), a[2]}, w); return true;
    case Intrinsic::pow: r = fpUF("pow", {a[0], a[1]}, w); return true;
    case Intrinsic::sin: r = fpUF("sin", {a[0]}, w); return true;
    case Intrinsic::cos: r = fpUF("cos", {a[0]}, w); return true;
    case Intrinsic::log: r = fpUF("log", {a[0]}, w); return true;
    case Intrinsic::exp: r = fpUF("exp", {a[0]}, w); return true;
    case Intrinsic::eh_typeid_for: r = C(typeId(cast<Constant>(ii->getArgOperand(0))->stripPointerCasts()->getName().str()), 32); return true;
    case Intrinsic::objectsize: r = C(maskw(w), w); return true;
    case Intrinsic::is_constant: r = C(0, 1); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address:
    case Intrinsic::annotation: case Intrinsic::ssa_copy: r = a[0]; return true;
    case Intrinsic::stacksave: r = C(0, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::is_fpclass: {
        unsigned mask = a[1].u(); unsigned bw = a[0].w; unsigned mb = bw == 64 ? 52 : 23;
        Val ex = mkExtract(a[0], mb, bw - 1 - mb), man = mkExtract(a[0], 0, mb), sg = mkExtract(a[0], bw - 1, 1);
        Val exMax = mkEq(ex, C(maskw(ex.w), ex.w)), ex0 = mkEq(ex, C(0, ex.w)), man0 = mkEq(man, C(0, mb));
        Val quiet = mkExtract(man, mb - 1, 1), neg = sg, pos = mkNot(sg);
        Val res = B(false);
        auto add = [&](unsigned bit, const Val& v) { if (mask & bit) res = mkOr(res, v); };
        Val nan = mkAnd(exMax, mkNot(man0)), inf = mkAnd(exMax, man0), zero = mkAnd(ex0, man0), sub = mkAnd(ex0, mkNot(man0)), norm = mkAnd(mkNot(exMax), mkNot(ex0));
        add(1, mkAnd(nan, mkNot(quiet))); add(2, mkAnd(nan, quiet)); add(4, mkAnd(inf, neg)); add(8, mkAnd(norm, neg)); add(16, mkAnd(sub, neg)); add(32, mkAnd(zero, neg));
        add(64, mkAnd(zero, pos)); add(128, mkAnd(sub, pos)); add(256, mkAnd(norm, pos)); add(512, mkAnd(inf, pos));
        r = res; return true; }
    default: return false;
    }
}

static void doCall(State& s, const KInst* ki) {
    auto* cb = cast<CallBase>(ki->I);
    Frame& f = s.st.back();
    std::vector<Val> a;
    unsigned na = cb->arg_size();
    a.reserve(na);
    bool dbg = false;
    for (unsigned i = 0; i < na; i++) {
        if (ki->ops[i] == INT_MIN) { a.push_back(Val()); dbg = true; }
        else a.push_back(R(f, ki->ops[i]));
    }
    (void) dbg;
    Function* F = ki->callee;
    if (!F) {
        if (cb->isInlineAsm()) { unsup("inline asm"); }
        Val t = R(f, ki->ops[cb->getCalledOperandUse().getOperandNo()]);
        t = simp(s, t);
        if (!t.isc()) t = C(concretize(s, t, "call target"), 64);
        auto it = g_fnAt.find(t.u());
        if (it == g_fnAt.end()) failNow(s, "memory", "call through an invalid function pointer");
        F = it->second;
    }
    Val r; bool done = false;
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
        if (!intrinsic(s, ki, ii, a, r, done)) unsup("intrinsic " + F->getName().str());
        if (!done) finishCall(s, ki, r);
        return;
    }
    if (F->isDeclaration() || F->getName() == "__clang_call_terminate") {
        if (externalCall(s, F, ki, a, r, done)) { g_external.insert(demangle(F->getName().str())); if (!done) finishCall(s, ki, r); return; }
        unsup("external function " + demangle(F->getName().str()));
    }
    pushCall(s, F, a, ki);
}

// ------------------------------------------------------------------ instructions
static Val fcmp(FCmpInst::Predicate p, const Val& a, const Val& b) {
    auto oeq = [&] { return mkFp(Op::FOEQ, {a, b}, 1); };
    auto olt = [&](const Val& x, const Val& y) { return mkFp(Op::FOLT, {x, y}, 1); };
    auto ole = [&](const Val& x, const Val& y) { return mkFp(Op::FOLE, {x, y}, 1); };
    auto uno = [&] { return mkFp(Op::FUNO, {a, b}, 1); };
    switch (p) {
    case FCmpInst::FCMP_FALSE: return B(false);
    case FCmpInst::FCMP_TRUE: return B(true);
    case FCmpInst::FCMP_OEQ: return oeq();
    case FCmpInst::FCMP_OGT: return olt(b, a);
    case FCmpInst::FCMP_OGE: return ole(b, a);
    case FCmpInst::FCMP_OLT: return olt(a, b);
    case FCmpInst::FCMP_OLE: return ole(a, b);
    case FCmpInst::FCMP_ONE: return mkAnd(mkNot(oeq()), mkNot(uno()));
    case FCmpInst::FCMP_ORD: return mkNot(uno());
    case FCmpInst::FCMP_UNO: return uno();
    case FCmpInst::FCMP_UEQ: return mkOr(oeq(), uno());
    case FCmpInst::FCMP_UGT: return mkNot(ole(a, b));
    case FCmpInst::FCMP_UGE: return mkNot(olt(a, b));
    case FCmpInst::FCMP_ULT: return mkNot(ole(b, a));
    case FCmpInst::FCMP_ULE: return mkNot(olt(b, a));
    case FCmpInst::FCMP_UNE: return mkNot(oeq());
    default: unsup("fcmp");
    }
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::SLT, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::SLT, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::SLE, b, a);
    default: unsup("icmp");
    }
}

// branch on cond; current state continues with one side
static void branchTo(State& s, const Val& cond0, int t, int f) {
    Val cond = simp(s, cond0);
    if (cond.isc()) { jump(s, cond.c ? t : f); return; }
    u128 v; bool known = evalIn(s, cond, v);
    Model mt, mf; Res rt, rf;
    if (known && v) { rt = Res::Sat; rf = solverCheck(s.pc, mkNot(cond), opt.branchMs, &mf, false); }
    else if (known) { rf = Res::Sat; rt = solverCheck(s.pc, cond, opt.branchMs, &mt, false); }
    else { rt = solverCheck(s.pc, cond, opt.branchMs, &mt, false); rf = solverCheck(s.pc, mkNot(cond), opt.branchMs, &mf, false); }
    if (rt == Res::Unsat && rf == Res::Unsat) throw EndPath();
    if (rt == Res::Unsat) { addSubst(s, cond.n, B(false)); jump(s, f); return; }
    if (rf == Res::Unsat) { addSubst(s, cond.n, B(true)); jump(s, t); return; }
    auto o = fork(s);
    auto setup = [&](State& x, const Val& c, Res r, const Model& m, bool isKnown) {
        addPc(x, c);
        if (!isKnown) {
            if (r == Res::Sat) { if (x.model) mergeModel(x, m); else x.model = nullptr; u128 q; if (x.model && !(evalIn(x, c, q) && q)) x.model = nullptr; }
            else { x.model = nullptr; x.maybeInfeasible = true; }
        }
    };
    // continue with the false side first, keep the true side for later (depth first)
    setup(s, cond, rt, mt, known && v);
    setup(*o, mkNot(cond), rf, mf, known && !v);
    g_work.push_back(std::move(o));
    State* op = g_work.back().get();
    { State* save = S; S = op; try { jump(*op, f); } catch (EndPath&) { g_work.pop_back(); g_pathsEnded++; } S = save; }
    jump(s, t);
}

static void step(State& s) {
    Frame& f = s.st.back();
    const KInst* ki = &f.f->blocks[f.block].in[f.ip];
    auto set = [&](const Val& v) { f.regs[ki->dest] = v; f.ip++; };
    switch (ki->opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        static const std::map<unsigned, Op> mp = {{Instruction::Add, Op::ADD}, {Instruction::Sub, Op::SUB}, {Instruction::Mul, Op::MUL}, {Instruction::UDiv, Op::UDIV}, {Instruction::SDiv, Op::SDIV}, {Instruction::URem, Op::UREM}, {Instruction::SRem, Op::SREM}, {Instruction::And, Op::AND}, {Instruction::Or, Op::OR}, {Instruction::Xor, Op::XOR}, {Instruction::Shl, Op::SHL}, {Instruction::LShr, Op::LSHR}, {Instruction::AShr, Op::ASHR}};
        Val a = R(f, ki->ops[0]), b = R(f, ki->ops[1]);
        if (a.n && a.n->op == Op::AGG) {
            std::vector<Val> k; for (size_t i = 0; i < a.n->k.size(); i++) k.push_back(mkBin(mp.at(ki->opc), a.n->k[i], b.n->k[i])); set(mkAgg(k)); break;
        }
        if (ki->opc == Instruction::UDiv || ki->opc == Instruction::SDiv || ki->opc == Instruction::URem || ki->opc == Instruction::SRem) {
            if (b.isc()) { if (!b.c) failNow(s, "undefined-behaviour", "division by zero"); }
            else check(s, mkNot(mkEq(b, C(0, b.w))), "undefined-behaviour@" + curFunctionName(s), "ub", "division by zero");
            if (ki->opc == Instruction::SDiv || ki->opc == Instruction::SRem)
                check(s, mkNot(mkAnd(mkEq(a, C((u128) 1 << (a.w - 1), a.w)), mkEq(b, C(maskw(b.w), b.w)))), "undefined-behaviour@" + curFunctionName(s), "ub", "signed division overflow");
        }
        set(mkBin(mp.at(ki->opc), a, b));
        break;
    }
    case Instruction::FAdd: set(mkFp(Op::FADD, {R(f, ki->ops[0]), R(f, ki->ops[1])}, ki->w)); break;
    case Instruction::FSub: set(mkFp(Op::FSUB, {R(f, ki->ops[0]), R(f, ki->ops[1])}, ki->w)); break;
    case Instruction::FMul: set(mkFp(Op::FMUL, {R(f, ki->ops[0]), R(f, ki->ops[1])}, ki->w)); break;
    case Instruction::FDiv: set(mkFp(Op::FDIV, {R(f, ki->ops[0]), R(f, ki->ops[1])}, ki->w)); break;
    case Instruction::FRem: set(fpUF("fmod", {R(f, ki->ops[0]), R(f, ki->ops[1])}, ki->w)); break;
    case Instruction::FNeg: set(mkBin(Op::XOR, R(f, ki->ops[0]), C((u128) 1 << (ki->w - 1), ki->w))); break;
    case Instruction::ICmp: {
        Val a = R(f, ki->ops[0]), b = R(f, ki->ops[1]);
        if (a.n && a.n->op == Op::AGG) { std::vector<Val> k; for (size_t i = 0; i < a.n->k.size(); i++) k.push_back(icmp(cast<ICmpInst>(ki->I)->getPredicate(), a.n->k[i], b.n->k[i])); set(mkAgg(k)); break; }
        set(icmp(cast<ICmpInst>(ki->I)->getPredicate(), a, b)); break; }
    case Instruction::FCmp: set(fcmp(cast<FCmpInst>(ki->I)->getPredicate(), R(f, ki->ops[0]), R(f, ki->ops[1]))); break;
    case Instruction::Trunc: { Val a = R(f, ki->ops[0]); if (!ki->w) unsup("vector trunc"); set(mkTrunc(a, ki->w)); break; }
    case Instruction::ZExt: { if (!ki->w) unsup("vector zext"); set(mkZext(R(f, ki->ops[0]), ki->w)); break; }
    case Instruction::SExt: { if (!ki->w) unsup("vector sext"); set(mkSext(R(f, ki->ops[0]), ki->w)); break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val a = R(f, ki->ops[0]);
        if (a.n && a.n->op == Op::AGG && ki->w) { Val r = a.n->k[0]; for (size_t i = 1; i < a.n->k.size(); i++) r = mkConcat(a.n->k[i], r); a = r; }
        else if (!ki->w && ki->ty->isVectorTy() && !(a.n && a.n->op == Op::AGG)) {
            auto* vt = cast<FixedVectorType>(ki->ty); unsigned ew = tyBits(vt->getElementType()); std::vector<Val> k;
            for (unsigned i = 0; i < vt->getNumElements(); i++) k.push_back(mkExtract(a, i * ew, ew)); set(mkAgg(k)); break;
        }
        if (ki->w && a.w != ki->w) a = ki->w < a.w ? mkTrunc(a, ki->w) : mkZext(a, ki->w);
        set(a); break;
    }
    case Instruction::FPToSI: set(mkFp(Op::FPTOSI, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::FPToUI: set(mkFp(Op::FPTOUI, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::SIToFP: set(mkFp(Op::SITOFP, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::UIToFP: set(mkFp(Op::UITOFP, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::FPExt: if (ki->w > 64) unsup("fp80"); set(mkFp(Op::FPEXT, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::FPTrunc: set(mkFp(Op::FPTRUNC, {R(f, ki->ops[0])}, ki->w)); break;
    case Instruction::Freeze: set(R(f, ki->ops[0])); break;
    case Instruction::Select: {
        Val c = simp(s, R(f, ki->ops[0]));
        if (c.n && c.n->op == Op::AGG) unsup("vector select");
        if (!c.isc() && opt.forkSelect && ki->ty->isPointerTy()) c = C((u64) concretize(s, c, "select"), 1);
        set(mkIte(c, R(f, ki->ops[1]), R(f, ki->ops[2]))); break; }
    case Instruction::GetElementPtr: {
        if (ki->ty->isVectorTy()) unsup("vector gep");
        Val p = mkAdd(R(f, ki->ops[0]), C(ki->gepConst, 64));
        for (auto& g : ki->gepVar) {
            Val i = R(f, g.first);
            if (i.w != 64) i = i.w < 64 ? mkSext(i, 64) : mkTrunc(i, 64);
            p = mkAdd(p, mkBin(Op::MUL, i, C(g.second, 64)));
        }
        set(p); break;
    }
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(ki->I);
        u64 es = DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
        u64 n = (u64) concretize(s, R(f, ki->ops[0]), "alloca size");
        u64 a = allocate(s, es * n, ai->getAlign().value(), 's', "local " + (ai->hasName() ? ai->getName().str() : std::string()));
        f.allocas.push_back(a);
        set(C(a, 64)); break;
    }
    case Instruction::Load: {
        Val a = R(f, ki->ops[0]);
        Val v = loadTy(s, a, ki->ty);
        set(v); break; }
    case Instruction::Store: storeTy(s, R(f, ki->ops[1]), R(f, ki->ops[0]), ki->I->getOperand(0)->getType()); f.ip++; break;
    case Instruction::Br:
        if (ki->succ[1] < 0) jump(s, ki->succ[0]);
        else branchTo(s, R(f, ki->ops[0]), ki->succ[0], ki->succ[1]);
        break;
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(ki->I);
        Val v = simp(s, R(f, ki->ops[0]));
        if (v.isc()) {
            BasicBlock* t = sw->getDefaultDest();
            for (auto& c : sw->cases()) if ((u128) c.getCaseValue()->getZExtValue() == v.c) { t = c.getCaseSuccessor(); break; }
            jump(s, f.f->bidx[t]); break;
        }
        // group the cases by successor
        std::vector<std::pair<int, Val>> succ; Val rest = B(true);
        for (auto& c : sw->cases()) {
            int t = f.f->bidx[c.getCaseSuccessor()];
            Val e = mkEq(v, C(c.getCaseValue()->getZExtValue(), v.w));
            rest = mkAnd(rest, mkNot(e));
            bool found = false;
            for (auto& p : succ) if (p.first == t) { p.second = mkOr(p.second, e); found = true; }
            if (!found) succ.push_back({t, e});
        }
        succ.push_back({f.f->bidx[sw->getDefaultDest()], rest});
        std::vector<std::unique_ptr<State>> ns;
        bool any = false; int mine = -1;
        for (size_t i = 0; i < succ.size(); i++) {
            Val c = simp(s, succ[i].second);
            Model m; Res r;
            u128 ev; bool byModel = false;
            if (c.isc()) { if (!c.c) continue; r = Res::Sat; byModel = true; }
            else if (evalIn(s, c, ev) && ev) { r = Res::Sat; byModel = true; }
            else r = solverCheck(s.pc, c, opt.branchMs, &m, false);
            if (r == Res::Unsat) continue;
            auto n = fork(s);
            addPc(*n, c);
            if (!byModel) { if (r == Res::Sat && n->model) mergeModel(*n, m); else n->model = nullptr; u128 q; if (n->model && !c.isc() && !(evalIn(*n, c, q) && q)) n->model = nullptr; if (r == Res::Unknown) n->maybeInfeasible = true; }
            State* save = S; S = n.get();
            try { jump(*n, succ[i].first); g_work.push_back(std::move(n)); any = true; } catch (EndPath&) { any = true; }
            S = save;
        }
        (void) any; (void) mine;
        throw EndPath();
    }
    case Instruction::Ret: { 
        if (ki->ops.empty()) doReturn(s, nullptr); else { Val v = R(f, ki->ops[0]); doReturn(s, &v); }
        break; }
    case Instruction::Unreachable: failNow(s, "unreachable", "unreachable code executed");
    case Instruction::Call: case Instruction::Invoke: doCall(s, ki); break;
    case Instruction::Resume: {
        Val v = R(f, ki->ops[0]);
        u64 o = v.n->k[0].u();
        auto it = s.mem->upper_bound(o); if (it != s.mem->begin()) --it;
        unwind(s, it->first, g_excTypes[it->first]);
        break;
    }
    case Instruction::ExtractValue: {
        Val v = R(f, ki->ops[0]);
        for (unsigned i : cast<ExtractValueInst>(ki->I)->indices()) { if (!v.n || v.n->op != Op::AGG) unsup("extractvalue"); Val t = v.n->k[i]; v = t; }
        set(v); break;
    }
    case Instruction::InsertValue: {
        Val agg = R(f, ki->ops[0]), x = R(f, ki->ops[1]);
        auto idx = cast<InsertValueInst>(ki->I)->getIndices();
        std::function<Val(const Val&, size_t)> rec = [&](const Val& v, size_t d) -> Val {
            if (d == idx.size()) return x;
            if (!v.n || v.n->op != Op::AGG) unsup("insertvalue");
            std::vector<Val> k = v.n->k; k[idx[d]] = rec(k[idx[d]], d + 1); return mkAgg(k);
        };
        set(rec(agg, 0)); break;
    }
    case Instruction::ExtractElement: { Val v = R(f, ki->ops[0]); Val i = R(f, ki->ops[1]); if (!i.isc()) unsup("extractelement"); Val t = v.n->k[i.u()]; set(t); break; }
    case Instruction::InsertElement: { Val v = R(f, ki->ops[0]); Val i = R(f, ki->ops[2]); if (!i.isc()) unsup("insertelement"); auto k = v.n->k; k[i.u()] = R(f, ki->ops[1]); set(mkAgg(k)); break; }
    case Instruction::ShuffleVector: {
        Val a = R(f, ki->ops[0]), b = R(f, ki->ops[1]); std::vector<Val> k;
        for (int m : cast<ShuffleVectorInst>(ki->I)->getShuffleMask()) { if (m < 0) k.push_back(a.n->k[0]); else if ((size_t) m < a.n->k.size()) k.push_back(a.n->k[m]); else k.push_back(b.n->k[m - a.n->k.size()]); }
        set(mkAgg(k)); break;
    }
    case Instruction::Fence: f.ip++; break;
    case Instruction::AtomicRMW: {
        auto* ar = cast<AtomicRMWInst>(ki->I);
        Val p = R(f, ki->ops[0]), v = R(f, ki->ops[1]);
        Val old = loadTy(s, p, ki->ty), nv;
        switch (ar->getOperation()) { case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; case AtomicRMWInst::Or: nv = mkOr(old, v); break; default: unsup("atomicrmw"); }
        storeTy(s, p, nv, ki->ty); set(old); break;
    }
    default: unsup(std::string("instruction ") + ki->I->getOpcodeName());
    }
}

#include "loops.inc"

// ------------------------------------------------------------------ driver
static std::string jesc(const std::string& s) {
    std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char) c < 32) r += ' '; else r += c; } return r;
}
static void runState(State& s0) {
    S = &s0;
    State& s = s0;
    static std::set<const DISubprogram*> seenSp;
    static const DILocation* lastLoc = nullptr;
    try {
        for (;;) {
            Frame& f = s.st.back();
            const KInst& ki = f.f->blocks[f.block].in[f.ip];
            if (const DebugLoc& dl = ki.I->getDebugLoc()) if (dl.get() != lastLoc) { lastLoc = dl.get(); auto* sp = dl->getScope()->getSubprogram(); if (sp && seenSp.insert(sp).second) { StringRef ln = sp->getLinkageName(); g_functions.insert(ln.empty() ? sp->getName().str() : demangle(ln.str())); } }
            s.steps++; g_steps++;
            if (s.steps > opt.maxPathSteps) { g_incomplete["path step limit"]++; if (getenv("VK_UNSUP")) std::cerr << "STEPS at " << where(s) << "\n"; break; }
            if ((g_steps & 0x3fff) == 0 && elapsed() > opt.maxSeconds) { g_incomplete["time limit"]++; break; }
            step(s);
        }
    } catch (EndPath&) {
    } catch (Unsupported& u) {
        g_incomplete["unsupported: " + u.msg + " in " + curFunctionName(s)]++;
        if (opt.verbose || getenv("VK_UNSUP")) { std::cerr << "UNSUPPORTED " << u.msg << " at " << where(s) << "\n"; for (auto& b : backtrace(s)) std::cerr << "    " << b << "\n"; }
    }
    g_pathsEnded++;
}

static void putWhat(MemObj& o) {
    Function* f = cast<Function>(M->getOrInsertFunction("_ZNKSt9exception4whatEv", FunctionType::get(PointerType::getUnqual(Ctx), {PointerType::getUnqual(Ctx)}, false)).getCallee());
    putBytes(o, 32, C(fnAddr(f), 64), 8);
}
static void initExceptions() {
    g_whatText = g_nextGlobal; g_nextGlobal += 128; ObjP t = newObj(g_whatText, 16, 'g', "text of an exception", true); const char* x = "std::exception"; for (int i = 0; i < 15; i++) putByte(*t, i, x[i]); t->readonly = true; g_roMap[g_whatText] = t;
    g_stdVtable = g_nextGlobal; g_nextGlobal += 128; ObjP o = newObj(g_stdVtable, 40, 'g', "vtable of an exception of the C++ library", true); o->zeroInit = true; putWhat(*o); o->readonly = true; g_roMap[g_stdVtable] = o;
}
static void initGlobals(State& s) {
    initExceptions();
    std::vector<GlobalVariable*> gs;
    for (auto& g : M->globals()) gs.push_back(&g);
    for (auto* g : gs) globalAddr(g);
    for (auto* g : gs) {
        u64 a = globalAddr(g);
        u64 sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 8;
        bool ro = g->isConstant() && g->hasInitializer();
        ObjP o = newObj(a, sz, 'g', "global " + demangle(g->getName().str()), true);
        if (!g->hasInitializer()) o->zeroInit = true;
        o->readonly = ro;
        if (g->hasInitializer()) {
            try { writeConst(*o, 0, g->getInitializer()); } catch (Unsupported& u) { }
        }
        if (!g->hasInitializer() && g->getName().starts_with("_ZTVSt") && sz >= 40) putWhat(*o); // exception classes of the C++ library
        if (ro) g_roMap[a] = o; else (*s.mem)[a] = o;
    }
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--bc") opt.bc = nx();
        else if (a == "--contract") opt.contract = nx();
        else if (a == "--out") opt.out = nx();
        else if (a == "--time") opt.maxSeconds = std::stoul(nx());
        else if (a == "--query-ms") opt.queryMs = std::stoul(nx());
        else if (a == "--branch-ms") opt.branchMs = std::stoul(nx());
        else if (a == "--fork-values") opt.maxForkValues = std::stoul(nx());
        else if (a == "--fork-select") opt.forkSelect = true;
        else if (a == "--alias-query") opt.aliasQuery = true;
        else if (a == "--ite") opt.iteMax = std::stoul(nx());
        else if (a == "--path-steps") opt.maxPathSteps = std::stoull(nx());
        else if (a == "-v") opt.verbose = true;
        else if (a == "--trace") opt.trace = true;
    }
    g_start = std::chrono::steady_clock::now();
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, Ctx);
    if (!M) { std::cerr << "cannot read " << opt.bc << "\n"; return 2; }
    DL = &M->getDataLayout();
    Function* F = M->getFunction(opt.contract);
    if (!F) { std::cerr << "no contract " << opt.contract << "\n"; return 2; }
    auto init = std::make_unique<State>();
    init->mem = std::make_shared<ObjMap>();
    init->model = std::make_shared<Model>();
    initGlobals(*init);
    init->nextAddr = 0x10000000;
    // static constructors
    std::vector<Function*> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs;
        for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cf}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& c : cs) ctors.push_back(c.second);
    }
    loadLoopSpecs();
    for (auto* c : ctors) {
        pushCall(*init, c, {}, nullptr);
        S = init.get();
        try { for (;;) { step(*init); } } catch (EndPath&) {} catch (Unsupported& u) { std::cerr << "static init: " << u.msg << "\n"; g_incomplete["static init: " + u.msg]++; while (!init->st.empty()) popFrame(*init); }
    }
    g_covers.clear();
    init->steps = 0;
    pushCall(*init, F, {}, nullptr);
    g_work.push_back(std::move(init));
    while (!g_work.empty()) {
        auto st = std::move(g_work.back());
        g_work.pop_back();
        runState(*st);
        g_paths++;
        if (opt.verbose && g_paths % 200 == 0) std::cerr << "paths " << g_paths << " pending " << g_work.size() << " t=" << elapsed() << " queries " << g_solver.queries << "\n";
        if (elapsed() > opt.maxSeconds) { if (!g_work.empty()) g_incomplete["time limit"] += g_work.size(); break; }
        if (g_paths > opt.maxPaths) { g_incomplete["path limit"]++; break; }
    }
    // output
    std::ostringstream o;
    u64 tc = 0, td = 0, tu = 0, tf = 0, tt = 0;
    for (auto& p : g_obl) { tc += p.second.checked; td += p.second.discharged; tu += p.second.unknown; tf += p.second.failed; tt += p.second.trivially; }
    o << "{\n \"contract\": \"" << opt.contract << "\", \"paths\": " << g_paths << ", \"instructions\": " << g_steps << ", \"seconds\": " << elapsed()
      << ", \"checked\": " << tc << ", \"discharged\": " << td << ", \"by_simplification\": " << tt << ", \"unknown\": " << tu << ", \"failed\": " << tf
      << ", \"solver_queries\": " << g_solver.queries << ", \"solver_seconds\": " << g_solver.seconds << ", \"cvc5_calls\": " << g_solver.cvc5 << ", \"z3cli_calls\": " << g_solver.z3cli << ",\n \"obligations\": {";
    bool first = true;
    for (auto& p : g_obl) { o << (first ? "" : ",") << "\n  \"" << jesc(p.first) << "\": {\"kind\": \"" << p.second.kind << "\", \"checked\": " << p.second.checked << ", \"discharged\": " << p.second.discharged << ", \"trivial\": " << p.second.trivially << ", \"failed\": " << p.second.failed << ", \"unknown\": " << p.second.unknown << "}"; first = false; }
    o << "\n },\n \"covers\": {"; first = true;
    for (auto& p : g_covers) { o << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
    o << "},\n \"incomplete\": {"; first = true;
    for (auto& p : g_incomplete) { o << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
    o << "},\n \"loops\": ["; first = true;
    for (auto& l : g_loopNotes) { o << (first ? "" : ", ") << "\"" << jesc(l) << "\""; first = false; }
    o << "],\n \"externals\": ["; first = true;
    for (auto& p : g_external) { o << (first ? "" : ", ") << "\"" << jesc(p) << "\""; first = false; }
    o << "],\n \"functions\": ["; first = true;
    for (auto& p : g_functions) { o << (first ? "" : ", ") << "\"" << jesc(p) << "\""; first = false; }
    o << "],\n \"reports\": ["; first = true;
    for (auto& r : g_reports) {
        o << (first ? "" : ",") << "\n  {\"label\": \"" << jesc(r.label) << "\", \"kind\": \"" << r.kind << "\", \"definite\": " << (r.definite ? "true" : "false") << ", \"msg\": \"" << jesc(r.msg) << "\", \"where\": \"" << jesc(r.where) << "\", \"inputs\": [";
        bool f2 = true;
        for (auto& i : r.inputs) { char b[64]; snprintf(b, 64, "0x%lx", (unsigned long) i.second.second); o << (f2 ? "" : ", ") << "[\"" << jesc(i.first) << "\", " << i.second.first << ", \"" << b << "\"]"; f2 = false; }
        o << "], \"arrays\": \"" << jesc(r.arrays) << "\", \"backtrace\": [";
        f2 = true; for (auto& b : r.bt) { o << (f2 ? "" : ", ") << "\"" << jesc(b) << "\""; f2 = false; }
        o << "]}"; first = false;
    }
    o << "\n ]\n}\n";
    if (opt.out == "-") std::cout << o.str(); else { std::ofstream f(opt.out); f << o.str(); }
    fflush(stdout);
    _exit(0);
}
