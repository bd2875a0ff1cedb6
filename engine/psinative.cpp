// Native counterpart of the executor's harness interface: replays one model.
#include "psisym.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
static std::vector<unsigned long long> vals; static size_t pos = 0;
static unsigned long long nextv() { if (pos >= vals.size()) return pos++, 0; return vals[pos++]; }
extern "C" {
void psi_sym(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)nextv(); }
uint64_t psi_sym_int(uint64_t lo, uint64_t hi, const char* nm) { uint64_t v = nextv(); if (v > hi - lo) { fprintf(stderr, "PSI-BAD-REPLAY %s\n", nm); fflush(0); _exit(78); } return lo + v; }
void psi_assume(bool c) { if (!c) { printf("PSI-ASSUME-FAILED\n"); fflush(0); _exit(77); } }
void psi_check(bool c, const char* msg) { if (!c) { printf("PSI-CHECK-FAILED: %s\n", msg); fflush(0); _exit(66); } }
void psi_fail(const char* msg) { printf("PSI-CHECK-FAILED: %s\n", msg); fflush(0); _exit(66); }
void psi_reach(const char*) {}
void psi_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
uint64_t psi_concretize(uint64_t v) { return v; }
bool psi_is_symbolic(uint64_t) { return false; }
uint64_t psi_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void psi_note(const char* m) { printf("NOTE %s\n", m); }
void psi_sink(const void*, size_t) {}
}
int main(int argc, char** argv) {
    if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) return 79; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) vals.push_back(v); fclose(f); }
    try { psi_main(); }
    catch (std::exception& e) { printf("PSI-UNCAUGHT: %s: %s\n", typeid(e).name(), e.what()); fflush(0); _exit(67); }
    catch (...) { printf("PSI-UNCAUGHT: ?\n"); fflush(0); _exit(67); }
    printf("PSI-DONE\n"); fflush(0);
    return 0;
}
