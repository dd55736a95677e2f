// Native counterpart of the verifier interface: runs a contract against the compiled real code, either
// with the inputs of a counterexample (replay) or with generated inputs (bounded search).
#include "vk.h"
#include "common/assert.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static bool g_search = false;
static std::map<std::string, std::deque<uint64_t>> g_inputs;
struct Arr { std::vector<std::pair<uint64_t, uint64_t>> set; uint64_t dflt = 0; };
static std::map<std::string, std::deque<Arr>> g_arrays;
static uint64_t g_rng;
static std::vector<uint64_t> g_seen;
static int g_logfd = -1;

static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1Dull; }
static uint64_t mask(uint64_t v, unsigned bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static uint64_t fbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t gen(unsigned bits) {
    uint64_t v;
    switch (rnd() % 12) {
    case 0: v = rnd() % 4; break;
    case 1: v = -(rnd() % 4); break;
    case 2: v = (1ull << (rnd() % bits)) + rnd() % 3 - 1; break;
    case 3: v = -((1ull << (rnd() % bits)) + rnd() % 3 - 1); break;
    case 4: v = rnd(); break;
    case 5: v = rnd() % 256; break;
    case 6: v = rnd() % 70000; break;
    case 7: v = g_seen.empty() ? 0 : g_seen[rnd() % g_seen.size()]; break;
    case 8: v = g_seen.empty() ? 1 : g_seen[rnd() % g_seen.size()] + rnd() % 3 - 1; break;
    case 9: { static const double ds[] = {0.0, -0.0, 1.0, -1.0, 0.5, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, -1e300, INFINITY, -INFINITY, NAN, 3.25}; v = bits == 64 ? fbits(ds[rnd() % 14]) : rnd(); break; }
    case 10: v = bits == 64 && !g_seen.empty() ? fbits((double) (int64_t) g_seen[rnd() % g_seen.size()]) : rnd(); break;
    default: v = rnd() >> (rnd() % bits); break;
    }
    return mask(v, bits);
}
static uint64_t take(const std::string& n, unsigned bits, bool range, uint64_t lo, uint64_t hi) {
    uint64_t v = 0;
    if (!g_search) {
        auto it = g_inputs.find(n);
        if (it != g_inputs.end() && !it->second.empty()) { v = it->second.front(); it->second.pop_front(); }
        else if (range) v = lo;
        if (range && v - lo > hi - lo) _exit(77);
    } else {
        v = gen(bits);
        if (range && v - lo > hi - lo) v = hi - lo == UINT64_MAX ? v : (rnd() % 4 == 0 ? (rnd() % 2 ? hi - rnd() % std::min<uint64_t>(hi - lo + 1, 4) : lo + rnd() % std::min<uint64_t>(hi - lo + 1, 4)) : lo + rnd() % (hi - lo + 1));
        v = mask(v, bits);
        g_seen.push_back(v);
        if (g_logfd >= 0) dprintf(g_logfd, "%s\x1f%u\x1f%llu\n", n.c_str(), bits, (unsigned long long) v);
    }
    return v;
}
[[noreturn]] static void failed(const char* what, const char* label) {
    printf("FAILED %s: %s\n", what, label); fflush(stdout); _exit(1);
}
extern "C" {
uint64_t vk_nondet(const char* name, unsigned bits) { return take(name, bits, false, 0, 0); }
uint64_t vk_native_range(const char* n, unsigned bits, uint64_t lo, uint64_t hi) { return take(n, bits, true, lo, hi); }
void vk_assume(bool c) { if (!c) _exit(77); }
void vk_assert(bool c, const char* label) { if (!c) failed("assertion", label); }
void vk_rewrite(uint64_t x, uint64_t y, const char* l) { if (x != y) failed("lemma", l); }
void vk_fail(const char* label) { failed("reached", label); }
void vk_cover(const char*) {}
void vk_end(void) { _exit(0); }
int vk_symbolic(void) { return 0; }
int vk_same(uint64_t a, uint64_t b) { return a == b; }
uint64_t vk_concretize(uint64_t v) { return v; }
void vk_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*) p)[i] = (uint8_t) take(std::string(name) + "[" + std::to_string(i) + "]", 8, false, 0, 0); }
void* vk_array(const char* name, uint64_t count, unsigned e) {
    if (g_search && count > 64) _exit(77);
    if (count > (1ull << 30) / e) _exit(77);
    uint8_t* p = (uint8_t*) malloc(count * e ? count * e : 1);
    auto it = g_arrays.find(name);
    bool have = it != g_arrays.end() && !it->second.empty();
    for (uint64_t i = 0; i < count; i++) { uint64_t v = g_search ? gen(e * 8 > 64 ? 64 : e * 8) : have ? it->second.front().dflt : 0; memcpy(p + i * e, &v, e > 8 ? 8 : e); if (g_search && g_logfd >= 0) dprintf(g_logfd, "@%s[%llu]\x1f%u\x1f%llu\n", name, (unsigned long long) i, e * 8, (unsigned long long) v); }
    if (have) { for (auto& s : it->second.front().set) if (s.first < count) memcpy(p + s.first * e, &s.second, e > 8 ? 8 : e); it->second.pop_front(); }
    return p;
}
bool vk_and(bool a, bool b) { return a && b; }
bool vk_or(bool a, bool b) { return a || b; }
uint64_t vk_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void vk_print(const char* n, uint64_t v) { printf("%s = %llu\n", n, (unsigned long long) v); }
}
// The implementation's own assertions are obligations: they replace src/common/assert.cpp here.
namespace tiro { namespace detail {
void assert_fail(const SourceLocation&, const char* cond, const char* msg) { printf("FAILED implementation assertion: %s (%s)\n", cond, msg ? msg : ""); fflush(stdout); _exit(1); }
void unreachable(const SourceLocation&, const char* msg) { printf("FAILED unreachable code reached: %s\n", msg ? msg : ""); fflush(stdout); _exit(1); }
}}

// usage: native replay CONTRACT INPUTS | native search CONTRACT SECONDS SEED LOGFILE
int main(int argc, char** argv) {
    if (argc < 4) return 3;
    auto fn = (void (*)()) dlsym(RTLD_DEFAULT, (std::string("vk_contract_") + argv[2]).c_str());
    if (!fn) { fprintf(stderr, "no such contract\n"); return 3; }
    if (std::string(argv[1]) == "replay") {
        std::ifstream f(argv[3]); std::string line;
        while (std::getline(f, line)) {
            std::stringstream ss(line); std::string n, w, v; std::getline(ss, n, '\x1f'); std::getline(ss, w, '\x1f'); std::getline(ss, v, '\x1f');
            if (!n.empty() && n[0] == '@') { // @name \x1f default \x1f i=v,i=v
                Arr a; a.dflt = strtoull(w.c_str(), 0, 0); std::stringstream s2(v); std::string kv;
                while (std::getline(s2, kv, ',')) { auto e = kv.find('='); if (e != std::string::npos) a.set.push_back({strtoull(kv.c_str(), 0, 0), strtoull(kv.c_str() + e + 1, 0, 0)}); }
                g_arrays[n.substr(1)].push_back(a);
            } else g_inputs[n].push_back(strtoull(v.c_str(), 0, 0));
        }
        alarm(60);
        fn();
        printf("contract holds on these inputs\n");
        fflush(stdout);
        _exit(0);
    }
    double secs = atof(argv[3]); uint64_t seed = argc > 4 ? strtoull(argv[4], 0, 0) : 1; const char* log = argc > 5 ? argv[5] : "/dev/null";
    g_search = true;
    auto t0 = std::chrono::steady_clock::now();
    uint64_t runs = 0, rejected = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        uint64_t s = seed * 1000003 + runs + 1;
        pid_t p = fork();
        if (p == 0) { g_rng = s * 0x9E3779B97F4A7C15ull | 1; rnd(); rnd(); g_logfd = -1; alarm(10); if (freopen("/dev/null", "w", stdout)) {} if (freopen("/dev/null", "w", stderr)) {} fn(); _exit(0); }
        int st = 0; waitpid(p, &st, 0); runs++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { rejected++; continue; }
        // reproduce with logging
        FILE* lf = fopen(log, "w"); 
        p = fork();
        if (p == 0) { g_rng = s * 0x9E3779B97F4A7C15ull | 1; rnd(); rnd(); g_logfd = fileno(lf); alarm(10); fn(); _exit(0); }
        waitpid(p, &st, 0);
        printf("FOUND seed=%llu runs=%llu status=0x%x\n", (unsigned long long) s, (unsigned long long) runs, st);
        return 1;
    }
    printf("NONE runs=%llu rejected=%llu\n", (unsigned long long) runs, (unsigned long long) rejected);
    return 0;
}
