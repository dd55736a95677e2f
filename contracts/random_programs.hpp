// Pseudo random programs: syntactically valid, mostly semantically valid. `break` and `continue` of a loop that a deferred
// expression is nested in are only generated where the loop is a statement of the function's body: see KNOWN_FINDINGS.
#pragma once
#include <string>
#include <vector>
namespace {
struct Gen {
    unsigned long long st; int budget; std::string o; std::vector<std::string> vars; std::vector<bool> mut; int loops = 0, next = 0, nested = 0;
    Gen(unsigned long long seed, int b = 40) : st(seed * 0x9E3779B97F4A7C15ull + 12345), budget(b) {}
    unsigned r(unsigned n) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned) ((st >> 11) % n); }
    std::string var() { return vars.empty() ? "1" : vars[r((unsigned) vars.size())]; }
    std::string mvar() { for (int i = 0; i < 8; i++) { size_t k = vars.empty() ? 0 : r((unsigned) vars.size()); if (k < vars.size() && mut[k]) return vars[k]; } return ""; }
    void expr(int d) {
        if (d <= 0 || --budget < 0) { switch (r(6)) { case 0: o += std::to_string(r(5)); break; case 1: o += r(2) ? "true" : "null"; break; case 2: o += "\"s\""; break; default: o += var(); } return; }
        switch (r(22)) {
        case 0: case 1: case 2: { static const char* ops[] = {" + ", " - ", " * ", " == ", " < ", " != ", " >= ", " / ", " % "}; o += "("; expr(d - 1); o += ops[r(9)]; expr(d - 1); o += ")"; break; }
        case 3: o += "("; expr(d - 1); o += r(2) ? " && " : " || "; expr(d - 1); o += ")"; break;
        case 4: o += "("; expr(d - 1); o += " ?? "; expr(d - 1); o += ")"; break;
        case 5: o += r(2) ? "-" : "!"; o += "("; expr(d - 1); o += ")"; break;
        case 6: { auto m = mvar(); if (m.empty()) { expr(d - 1); break; } static const char* ops[] = {" = ", " += ", " -= "}; o += "(" + m + ops[r(3)]; expr(d - 1); o += ")"; break; }
        case 7: o += "if ("; expr(d - 1); o += ") "; nested++; block(d - 1, true); o += " else "; block(d - 1, true); nested--; break;
        case 8: nested++; block(d - 1, true); nested--; break;
        case 9: { auto nm = "p" + std::to_string(next++); o += "func(" + nm + ") "; auto v = vars; auto m = mut; int l = loops, ne = nested; loops = 0; nested = 0; vars.push_back(nm); mut.push_back(true); if (r(3) == 0) { o += "= "; expr(d - 1); } else { block(d - 1, false); } vars = v; mut = m; loops = l; nested = ne; break; }
        case 10: o += "id("; expr(d - 1); o += ")"; break;
        case 11: o += "["; expr(d - 1); o += ", "; expr(d - 1); o += "]"; break;
        case 12: o += "("; expr(d - 1); o += ", "; expr(d - 1); o += ")"; break;
        case 13: o += "(a: "; expr(d - 1); o += ", b: "; expr(d - 1); o += ")"; break;
        case 14: o += var() + (r(2) ? "?.a" : ".a"); break;
        case 15: o += var() + (r(2) ? "?[" : "["); expr(d - 1); o += "]"; break;
        case 16: o += var() + (r(2) ? "?.m(" : ".m("); expr(d - 1); o += ")"; break;
        case 17: o += "\"x ${"; expr(d - 1); o += "} y\""; break;
        case 18: o += "(" + var() + (r(2) ? ".0" : "?.1") + ")"; break;
        case 19: o += var() + (r(2) ? "(" : "?("); expr(d - 1); o += ")"; break;
        case 20: o += r(2) ? "map{1: " : "set{"; expr(d - 1); o += "}"; break;
        default: jump(d); break;
        }
    }
    void jump(int d) { switch (r(4)) { case 0: if (loops) { o += "break"; break; } [[fallthrough]]; case 1: if (loops) { o += "continue"; break; } [[fallthrough]]; case 2: o += "return "; expr(d - 1); break; default: expr(d - 1); } }
    void decl(int d) { auto nm = "v" + std::to_string(next++); bool m = r(3) != 0; if (r(5) == 0) { auto n2 = "v" + std::to_string(next++); o += (m ? "var (" : "const (") + nm + ", " + n2 + ") = ("; expr(d - 1); o += ", "; expr(d - 1); o += "); "; vars.push_back(n2); mut.push_back(m); } else { o += (m ? "var " : "const ") + nm + " = "; expr(d - 1); o += "; "; } vars.push_back(nm); mut.push_back(m); }
    void stmt(int d) {
        if (--budget < 0) { o += ";"; return; }
        switch (r(14)) {
        case 0: case 1: case 2: decl(d); break;
        case 3: { auto m = mvar(); if (m.empty()) { expr(d - 1); } else { o += m + " = "; expr(d - 1); } o += "; "; break; }
        case 4: o += "if ("; expr(d - 1); o += ") "; block(d - 1, false); if (r(2)) { o += " else "; block(d - 1, false); } o += " "; break;
        case 5: o += "while ("; expr(d - 1); o += ") "; loop(d); break;
        case 6: { auto v = vars; auto m = mut; auto nm = "i" + std::to_string(next++); o += "for var " + nm + " = 0; "; vars.push_back(nm); mut.push_back(true); expr(d - 1); o += "; " + nm + " += 1 "; loop(d); vars = v; mut = m; break; }
        case 7: { auto v = vars; auto m = mut; auto nm = "e" + std::to_string(next++); o += "for " + nm + " in " + var() + " "; vars.push_back(nm); mut.push_back(false); loop(d); vars = v; mut = m; break; }
        case 8: case 9: { o += "defer "; int l = loops; if (nested) loops = 0; nested++; if (r(2)) block(d - 1, false); else expr(d - 1); nested--; loops = l; o += "; "; break; }
        case 10: o += var() + "[" + var() + "] = "; expr(d - 1); o += "; "; break;
        case 11: o += var() + ".a " + (r(2) ? "= " : "+= "); expr(d - 1); o += "; "; break;
        case 12: o += "assert("; expr(d - 1); o += ", \"m\"); "; break;
        default: expr(d); o += "; ";
        }
    }
    void loop(int d) { loops++; block(d - 1, false); loops--; o += " "; }
    void block(int d, bool value) { auto v = vars; auto m = mut; o += "{ "; for (unsigned n = d > 0 ? r(4) : 0; n > 0; n--) stmt(d); if (value) { expr(d - 1); o += "; "; } o += "}"; vars = v; mut = m; }
    std::string program() { o = "func id(x) = x; "; for (int k = 0; k < 2; k++) { int b = budget; vars = {"x", "y"}; mut = {true, true}; o += "export func f" + std::to_string(k) + "(x, y) { "; for (unsigned n = 2 + r(5); n > 0; n--) stmt(4); o += "} "; budget = b; } return o; }
};
}
