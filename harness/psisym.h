// Interface between a harness and the symbolic executor (engine/psisym.cpp).
// The same harness is compiled natively (engine/psinative.cpp) to replay models.
#ifndef PSISYM_H
#define PSISYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
void psi_sym(void* p, size_t n, const char* name);                       // n unconstrained bytes
uint64_t psi_sym_int(uint64_t lo, uint64_t hi, const char* name);        // any value in lo..hi
void psi_assume(bool c);
void psi_check(bool c, const char* msg);
void psi_fail(const char* msg);
void psi_reach(const char* name);                                        // vacuity marker
void psi_observe(const char* name, uint64_t v);                          // compared between executor and native run
uint64_t psi_concretize(uint64_t v);                                     // split into one path per value
bool psi_is_symbolic(uint64_t v);
uint64_t psi_ite(bool c, uint64_t a, uint64_t b);
void psi_note(const char* msg);
}
#include <string>
// a string of length lo..hi (length enumerated by splitting) of unconstrained bytes
static inline std::string psi_str(size_t lo, size_t hi, const char* name) {
    size_t n = psi_concretize(psi_sym_int(lo, hi, name));
    std::string s(n, 'a');
    if (n) psi_sym(&s[0], n, name);
    return s;
}
// pick one of n alternatives, one path each
static inline unsigned psi_pick(unsigned n, const char* name) { return (unsigned)psi_concretize(psi_sym_int(0, n - 1, name)); }
static inline bool psi_flag(const char* name) { return psi_concretize(psi_sym_int(0, 1, name)) != 0; }
// any character of 1 + kind bytes (one sequence point per byte: the replay consumes values in the same order)
static inline std::string psi_utf8(unsigned kind, const char* name) {
    std::string c;
    if (kind == 0) { c += (char)psi_sym_int(0x01, 0x7f, name); return c; }
    c += kind == 1 ? (char)psi_sym_int(0xc2, 0xdf, name) : kind == 2 ? (char)psi_sym_int(0xe1, 0xec, name) : (char)psi_sym_int(0xf1, 0xf3, name);
    for (unsigned i = 0; i < kind; i++) c += (char)psi_sym_int(0x80, 0xbf, name);
    return c;
}
// a string whose characters come from a given alphabet (letters, kept symbolic)
static inline std::string psi_str_of(const char* alphabet, size_t lo, size_t hi, const char* name) {
    size_t n = psi_concretize(psi_sym_int(lo, hi, name));
    std::string s(n, 'a');
    size_t k = __builtin_strlen(alphabet);
    for (size_t i = 0; i < n; i++) {
        uint64_t x = psi_sym_int(0, k - 1, name);
        uint64_t c = (unsigned char)alphabet[0];
        for (size_t j = 1; j < k; j++) c = psi_ite(x == j, (unsigned char)alphabet[j], c);
        s[i] = (char)c;
    }
    return s;
}
static inline void psi_obs_str(const char* name, const std::string& s) {
    psi_observe(name, s.size());
    uint64_t h = 0;
    for (size_t i = 0; i < s.size() && i < 40; i++) h = ((h << 5) | (h >> 59)) ^ (uint64_t)(unsigned char)s[i];
    psi_observe(name, h);
}
extern "C" int psi_main();
#endif
