// Bit-vector / floating-point / array terms used by the VC generator.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, ZEXT, SEXT,
    EQ, ULT, ULE, SLT, SLE,
    ITE, SELECT, UF,
    FADD, FSUB, FMUL, FDIV, FOEQ, FOLT, FOLE, FUNO,
    FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC, FSQRT, FRTI, // aux = rounding mode for FRTI
    AGG
};

struct Node;
struct Val;
typedef const Node* N;

// Either a concrete value (n == null) or a symbolic term.
struct Val {
    u128 c = 0;
    N n = nullptr;
    uint32_t w = 0;
    bool isc() const { return !n; }
    uint64_t u() const { return (uint64_t) c; }
};

struct Arr;
struct Node {
    Op op;
    uint32_t w;
    uint32_t id;
    uint64_t aux;      // EXTRACT: low bit; VAR: var id; UF: uf id; SELECT: root id
    std::vector<Val> k;
    uint64_t hash;
    const std::vector<uint32_t>* vars; // sorted var ids / array root ids that occur
    u128 kz = 0, ko = 0; // known zero / known one bits
    bool hasfp = false, hasmul = false, hasuf = false;
};

struct VarInfo { std::string name; uint32_t w; bool isArray = false; uint32_t elemW = 0;
    std::shared_ptr<std::vector<Val>> table; };

inline u128 maskw(uint32_t w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline i128 sx(u128 v, uint32_t w) {
    if (w >= 128) return (i128) v;
    u128 m = (u128) 1 << (w - 1);
    v &= maskw(w);
    return (i128) ((v ^ m) - m);
}
inline Val C(u128 c, uint32_t w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
inline Val B(bool b) { return C(b ? 1 : 0, 1); }
inline Val fromN(N n) { Val v; v.n = n; v.w = n->w; return v; }
inline bool same(const Val& a, const Val& b) { return a.w == b.w && a.n == b.n && (a.n || a.c == b.c); }

extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

Val mkVar(const std::string& name, uint32_t w);
uint32_t mkArrayRoot(const std::string& name, uint32_t elemW, std::shared_ptr<std::vector<Val>> table = nullptr);
Val mkBin(Op op, const Val& a, const Val& b);
Val mkNot(const Val& a); // width-1 negation or bitwise not
Val mkIte(const Val& c, const Val& a, const Val& b);
Val mkExtract(const Val& a, uint32_t lo, uint32_t w);
Val mkConcat(const Val& hi, const Val& lo);
Val mkZext(const Val& a, uint32_t w);
Val mkSext(const Val& a, uint32_t w);
inline Val mkTrunc(const Val& a, uint32_t w) { return mkExtract(a, 0, w); }
Val mkSelectRoot(uint32_t root, const Val& idx);
Val mkUF(const std::string& name, const std::vector<Val>& args, uint32_t w);
Val mkFp(Op op, const std::vector<Val>& k, uint32_t w, uint64_t aux = 0);
Val mkAgg(const std::vector<Val>& kids);
inline Val mkEq(const Val& a, const Val& b) { return mkBin(Op::EQ, a, b); }
inline Val mkAnd(const Val& a, const Val& b) { return mkBin(Op::AND, a, b); }
inline Val mkOr(const Val& a, const Val& b) { return mkBin(Op::OR, a, b); }
inline Val mkAdd(const Val& a, const Val& b) { return mkBin(Op::ADD, a, b); }
inline Val mkSub(const Val& a, const Val& b) { return mkBin(Op::SUB, a, b); }
inline Val mkUlt(const Val& a, const Val& b) { return mkBin(Op::ULT, a, b); }
inline Val mkUle(const Val& a, const Val& b) { return mkBin(Op::ULE, a, b); }

// Functional arrays: chains of stores / copies over an uninterpreted root.
struct Arr {
    enum Kind { Root, Store, Copy, ConstA } kind;
    uint32_t root = 0, elemW = 8;
    std::shared_ptr<const Arr> base, src;
    Val idx, val;            // Store (ConstA uses val)
    Val dstOff, srcOff, len; // Copy
};
typedef std::shared_ptr<const Arr> ArrP;
Val arrSelect(const ArrP& a, const Val& idx, const std::function<bool(const Val&)>& impossible = nullptr);
ArrP arrRoot(uint32_t root, uint32_t elemW);
ArrP arrStore(const ArrP& a, const Val& idx, const Val& v);
ArrP arrCopy(const ArrP& dst, const Val& dstOff, const ArrP& src, const Val& srcOff, const Val& len);
ArrP arrConst(const Val& v);

// Evaluation under a (partial) model. Returns false when a term cannot be evaluated.
struct Model {
    std::unordered_map<uint32_t, u128> vars;
    std::unordered_map<uint32_t, std::map<u128, u128>> arrays;
    std::unordered_map<uint32_t, u128> arrDefault;
};
bool evalVal(const Val& v, const Model& m, std::unordered_map<N, u128>& cache, u128& out);
std::string valStr(const Val& v, int depth = 6);

int linearEq(const Val& e); // 0: the equation never holds, 1: always, -1: unknown
bool linearUnsat(const std::vector<Val>& facts, const Val& extra);

// Solver
enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    uint64_t cvc5 = 0, z3cli = 0, sat_backend = 0, linear = 0;
    double seconds = 0;
};
extern SolverStats g_solver;
Res solverCheck(const std::vector<Val>& pc, const Val& extra, unsigned timeoutMs, Model* model, bool portfolio);
void solverDumpSmt2(const std::vector<Val>& pc, const Val& extra, const std::string& path);
