// Glob patterns for path segments.
#include "psisym.h"
#include "segment_glob.hpp"
#include <vector>
#ifndef GL
#define GL 4
#endif
#ifndef SCH
#define SCH 3
#endif
// reference: characters of the segment against the pattern
static std::vector<std::string> ch;
static bool ref(const std::string& g, size_t i, size_t j) {
    if (i == g.size()) return j == ch.size();
    if (g[i] == '*') { for (size_t k = j; k <= ch.size(); k++) if (ref(g, i + 1, k)) return true; return false; }
    if (j == ch.size()) return false;
    if (g[i] == '?') return ref(g, i + 1, j + 1);
    return ch[j].size() == 1 && ch[j][0] == g[i] && ref(g, i + 1, j + 1);
}
extern "C" int psi_main() {
    std::string g;
    size_t n = psi_pick(GL + 1, "glen");
    for (size_t i = 0; i < n; i++) g += "ab*?"[psi_pick(4, "g")];
    bool multi = psi_flag("multibyte literal");
    std::string s;
    size_t m = psi_pick(SCH + 1, "slen");
    for (size_t i = 0; i < m; i++) {
        std::string c;
        switch (psi_pick(3, "kind")) {
        case 0: c = std::string(1, (char)psi_sym_int(0x21, 0x7e, "ascii")); break;
        case 1: c = psi_utf8(1, "two bytes"); break;
        case 2: c = psi_utf8(2, "three bytes"); break;
        }
        ch.push_back(c); s += c;
    }
    bool want;
    if (multi) {   // a multi-byte character of the pattern stands for itself
        psi_assume(n >= 1 && m >= 1);
        std::string h = ch[0] + g;
        bool plain = true;
        for (size_t i = 0; i < ch[0].size(); i++) plain &= ch[0][i] != '*' && ch[0][i] != '?';
        psi_assume(plain);
        SegmentGlob sg(h);
        std::string t = s;
        ch.erase(ch.begin());
        want = ref(g, 0, 0);
        bool got = sg.matches(t);
        psi_observe("m", got);
        psi_check(got == want, "the match result is wrong (pattern starting with the character of the segment)");
        psi_reach("literal");
        return 0;
    }
    SegmentGlob sg(g);
    want = ref(g, 0, 0);
    bool got = sg.matches(s);
    psi_observe("m", got);
    psi_check(got == want, "the match result differs from the meaning of the pattern");
    psi_check(sg.isFixed() == (g.find_first_of("*?") == std::string::npos), "isFixed");
    psi_check(sg.asString() == g, "asString");
    psi_reach(want ? "match" : "no match");
    return 0;
}
