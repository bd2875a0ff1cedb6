// Small text and option helpers.
#include "psisym.h"
#if MODE == 0
#include "edit_distance.hpp"
#include <vector>
#include <string>
static unsigned refDist(const std::string& a, size_t i, const std::string& b, size_t j) {
    if (i == a.size()) return b.size() - j;
    if (j == b.size()) return a.size() - i;
    if (a[i] == b[j]) return refDist(a, i + 1, b, j + 1);
    return 1 + std::min(refDist(a, i + 1, b, j + 1), std::min(refDist(a, i + 1, b, j), refDist(a, i, b, j + 1)));
}
extern "C" int psi_main() {
    std::string a = psi_str(0, DL, "a"), b = psi_str(0, DL, "b");
    unsigned d = levenshteinDistance(a, b);
    psi_observe("d", d);
    psi_check(d == refDist(a, 0, b, 0), "not the smallest number of edits");
    psi_check(d == levenshteinDistance(b, a), "not symmetric");
    psi_check((d == 0) == (a == b), "zero for equal texts only");
    psi_reach("distance");
    return 0;
}
#elif MODE == 1
#include "edit_distance.hpp"
#include <vector>
#include <string>
extern "C" int psi_main() {
    // the nearest of a list
    unsigned n = psi_pick(4, "n");
    std::string s = psi_str_of("abc", 0, 2, "s");
    std::vector<std::string> c;
    // up to three short strings, or two longer ones
    for (unsigned i = 0; i < n; i++) c.push_back(n == 2 ? psi_str_of("ab", 1, LONG, "c") : psi_str_of("abc", 1, 2, "c"));
    std::string r = findTheMostSimilarString(s, c);
    psi_obs_str("r", r);
    if (n == 0) { psi_check(r.empty(), "something found in nothing"); psi_reach("empty"); return 0; }
    unsigned best = 1000; size_t at = 0;
    for (unsigned i = 0; i < n; i++) { unsigned d = levenshteinDistance(c[i], s); if (d < best) { best = d; at = i; } }
    psi_check(r == c[at], "not the first of the nearest strings");
    psi_reach("nearest");
    return 0;
}
#elif MODE == 2
#include "limit_checker.hpp"
#include <climits>
extern "C" int psi_main() {
    int absl = (int)psi_sym_int(0, 0xffffffffu, "abs");
    LimitChecker* lc = psi_flag("absolute given") ? new LimitChecker(absl) : new LimitChecker();
    bool hasAbs = true;
    int arg[SPECS], lim[SPECS]; unsigned n = 0;
    unsigned steps = psi_pick(SPECS + 1, "specs");
    bool given = false;
    { LimitChecker d; (void)d; }
    // the constructor without arguments means no absolute limit
    if (lc->absoluteLimit_ == INT_MAX) given = false;
    if (psi_flag("set absolute")) { absl = (int)psi_sym_int(0, 0xffffffffu, "abs2"); lc->setAbsoluteLimit(absl); } else absl = lc->absoluteLimit_;
    (void)hasAbs; (void)given;
    for (unsigned k = 0; k <= steps; k++) {
        if (k == steps || psi_flag("ask")) {
            int a = (int)psi_sym_int(0, 0xffffffffu, "argument"), v = (int)psi_sym_int(0, 0xffffffffu, "value");
            // the first added limit with the smallest argument that is not below the asked one
            int want = absl, at = 0; bool f = false;
            for (unsigned i = 0; i < n; i++) { bool better = arg[i] >= a && (!f || arg[i] < at); if (better) { f = true; at = arg[i]; want = lim[i]; } }
            bool r = lc->isAllowed(a, v);
            psi_observe("r", r);
            psi_check(r == (v <= want), "the wrong limit was applied");
            psi_reach(f ? "spec" : "absolute");
        }
        if (k < steps) {
            arg[n] = (int)psi_sym_int(0, 0xffffffffu, "spec argument");
            if (psi_flag("unlimited")) { lim[n] = INT_MAX; lc->addUnlimitedSpec(arg[n]); }
            else { lim[n] = (int)psi_sym_int(0, 0xffffffffu, "spec limit"); lc->addLimitSpec(arg[n], lim[n]); }
            n++;
        }
    }
    return 0;
}
#elif MODE == 3
#include "escaping.hpp"
extern "C" int psi_main() {
    std::string s = psi_str(1, EL, "s");
    for (size_t p = 0; p < s.size(); p++) {
        unsigned k = 0; for (size_t i = p; i > 0 && s[i - 1] == '\\'; i--) k++;
        bool r = Escaping::isEscaped(s, p);
        psi_observe("r", r);
        psi_check(r == (k % 2 == 1), "escaped means an odd number of backslashes just before");
        psi_reach(r ? "escaped" : "plain");
    }
    return 0;
}
#elif MODE == 4
#include "split_pipeline.hpp"
#include "shallow_aliaser.hpp"
#include <vector>
#include <stdexcept>
static std::string quote(const std::string& a, bool force) {
    std::string r; bool q = force || a.empty();
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i] == ' ') q = true;
        if (a[i] == '\\') r += "\\\\"; else if (a[i] == '"') r += "\\\""; else if (a[i] == '\n') r += "\\n"; else r += a[i];
    }
    return q ? "\"" + r + "\"" : r;
}
extern "C" int psi_main() {
    unsigned what = psi_pick(3, "what");
    if (what == 2) {
        std::string s = psi_str_of("a\\\"n ", 0, PL, "line");
        try {
            std::vector<std::string> v = splitPipeline(s);
            psi_observe("n", v.size());
            size_t tot = 0; for (size_t i = 0; i < v.size(); i++) tot += v[i].size();
            psi_check(tot + (v.empty() ? 0 : v.size() - 1) <= s.size(), "more text than there was");
            psi_reach("split");
        } catch (std::runtime_error&) { psi_check(s.find('\\') != std::string::npos, "refused without any escape sequence"); psi_reach("refused"); }
        return 0;
    }
    unsigned n = 1 + psi_pick(ARGS, "args");
    std::vector<std::string> v;
    for (unsigned i = 0; i < n; i++) {
        std::string a = what == 0 ? psi_str_of("a! \"\\\n\t", 0, AL, "a") : psi_str_of("a! \"\n\t", 0, AL, "a");
        v.push_back(a);
    }
    if (what == 0) {
        std::string line;
        for (unsigned i = 0; i < n; i++) line += (i ? " " : "") + quote(v[i], psi_flag("quoted"));
        std::vector<std::string> r = splitPipeline(line);
        psi_observe("n", r.size());
        psi_check(r == v, "a quoted argument list does not split into its arguments");
        psi_reach("quoted");
    } else {
        // the aliaser gives arguments that hold no alias (and no backslash) back unchanged
        ShallowAliaser sa;
        std::vector<std::string> r = sa.replace(v);
        psi_observe("n", r.size());
        psi_check(r == v, "arguments of a pipeline without aliases changed");
        psi_reach("aliaser");
    }
    return 0;
}
#elif MODE == 5
#include "stream_helpers.hpp"
#include <sstream>
extern "C" int psi_main() {
    std::string s = psi_str(0, PK, "s");
    std::istringstream in(s);
    unsigned skip = psi_pick(s.size() + 1, "skip");
    for (unsigned i = 0; i < skip; i++) in.get();
    std::string rest = s.substr(skip);
    unsigned what = psi_pick(3, "what");
    std::string want = rest, got;
    if (what == 0) { unsigned n = 1 + psi_pick(PK + 1, "size"); got = getStartingDataWithoutTouchingStream(in, n); want = rest.substr(0, n); }
    else if (what == 1) got = getDataWithoutTouchingIStream(in);
    else { got = getDataFromIStream(in); }
    psi_obs_str("got", got);
    psi_check(got == want, "not the text that follows in the stream");
    psi_check(in.good(), "the stream is left in an error state");
    std::string again; int c;
    while ((c = in.get()) != EOF) again += (char)c;
    psi_check(again == (what == 2 ? std::string() : rest), "peeking at the stream changed what is read next");
    psi_reach(what == 0 ? "start" : what == 1 ? "all" : "read");
    return 0;
}
#elif MODE == 6
#include "aliaser.hpp"
#include <vector>
extern "C" int psi_main() {
    // every name is any of four letters; which ones is left to the solver
    Aliaser al; std::vector<std::string> F, T; std::vector<bool> isVoid;
    unsigned n = psi_pick(EDGES + 1, "n");
    for (unsigned i = 0; i < n; i++) {
        F.push_back(std::string(1, (char)psi_sym_int('a', 'd', "from")));
        T.push_back(std::string(1, (char)psi_sym_int('a', 'd', "to")));
        isVoid.push_back(psi_flag("void"));
        if (isVoid[i]) al.addVoidAlias(F[i]); else al.addAlias(F[i], T[i]);
    }
    for (unsigned i = 0; i < n; i++) { F[i][0] = (char)psi_concretize((unsigned char)F[i][0]); if (!isVoid[i]) T[i][0] = (char)psi_concretize((unsigned char)T[i][0]); }
    bool reach[4][4], isA[4] = {};
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) reach[i][j] = i == j;
    for (unsigned k = 0; k < n; k++) for (int i = 0; i < 4; i++) {
        isA[i] = isA[i] | (F[k][0] == 'a' + i);
        if (!isVoid[k]) for (int j = 0; j < 4; j++) reach[i][j] = reach[i][j] | ((F[k][0] == 'a' + i) & (T[k][0] == 'a' + j));
    }
    for (int k = 0; k < 4; k++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) reach[i][j] = reach[i][j] | (reach[i][k] & reach[k][j]);
    unsigned count = 0;
    for (int i = 0; i < 4; i++) {
        std::string nm(1, (char)('a' + i));
        psi_check(al.isAlias(nm) == isA[i], "isAlias");
        count += isA[i];
        std::set<std::string> d = al.getAllDestinations(nm), a = al.getAllAliases(nm);
        unsigned nd = 0, na = 0;
        for (int j = 0; j < 4; j++) {
            std::string x(1, (char)('a' + j));
            psi_check((d.count(x) != 0) == (reach[i][j] & !isA[j]), "destinations are the names reachable through aliases that are no aliases themselves");
            psi_check((a.count(x) != 0) == (reach[j][i] & isA[j]), "aliases of a name are the aliases from which it can be reached");
            nd += reach[i][j] & !isA[j]; na += reach[j][i] & isA[j];
        }
        psi_observe("d", d.size()); psi_observe("a", a.size());
        psi_check(d.size() == nd && a.size() == na, "a name that is not in use");
    }
    psi_check(al.getAliasNames().size() == count, "names");
    psi_reach("aliases");
    return 0;
}
#endif
