// ------------------------------------------------------------------ loop contracts
static std::vector<std::string> g_loopNotes;
struct LoopCut { };
static void loadLoopSpecs() {}
static bool loopHook(State& s, int from, int target) { (void) s; (void) from; (void) target; s.st.back().f->loopsDone = true; return false; }
