// StringFrag against the std::string it denotes.
#include "psisym.h"
#include "string_frag.hpp"
#include <vector>
#ifndef OPS
#define OPS 2
#endif
#ifndef SL
#define SL 3
#endif
static size_t pickUpTo(size_t hi, const char* n) { return (size_t)psi_concretize(psi_sym_int(0, hi, n)); }
static StringFrag piece(const std::string& src, std::string& model) {
    size_t b = pickUpTo(src.size(), "begin"), l = pickUpTo(src.size() - b, "len");
    model = src.substr(b, l);
    return StringFrag(src, b, l);
}
extern "C" int psi_main() {
    std::string s1 = psi_str_of("ab", SL, SL, "s1"), s2 = psi_str_of("ab", SL, SL, "s2");
    std::string m;
    StringFrag f;
    switch (psi_pick(3, "start")) {
    case 0: break;
    case 1: f = piece(s1, m); break;
    default: m = s2; { std::string tmp = s2; f = StringFrag(tmp); } break;
    }
    for (unsigned i = 0; i < OPS; i++) {
        std::string pm;
        switch (psi_pick(6, "op")) {
        case 0: f.append(piece(s1, pm)); m += pm; break;
        case 1: f.append(piece(s2, pm)); m += pm; break;
        case 2: f.append(StringFrag(s2)); m += s2; break;
        case 3: { size_t b = pickUpTo(m.size(), "sub"), l = pickUpTo(m.size() - b, "sublen"); StringFrag g(f, b, l); f = g; m = m.substr(b, l); break; }
        case 4: { StringFrag g(f); f = StringFrag("zzz"); f = g; StringFrag* self = &f; f = *self; break; }
        default: f.append(f); m += m; break;
        }
    }
    psi_obs_str("str", f.str());
    psi_check(f.str() == m, "the fragment does not denote the expected text");
    psi_check(f.length() == m.size(), "length");
    for (size_t i = 0; i < m.size() && i < f.length(); i++) psi_check(f[i] == m[i], "character access");
    psi_check(std::string(f.data(), f.length()) == m, "data");
    size_t p = pickUpTo(m.size(), "pos");
    psi_check(f.substr(p) == m.substr(p), "substr"); psi_check(f.substr(0, p) == m.substr(0, p), "substr prefix");
    psi_check(f.find('b', p) == m.find('b', p), "find looks outside of the fragment");
    psi_check(f.find('z', p) == std::string::npos, "find of a missing character");
    StringFrag c(f); psi_check(c.str() == m && c.length() == m.size(), "copy of a fragment");
    psi_reach("frag");
    return 0;
}
