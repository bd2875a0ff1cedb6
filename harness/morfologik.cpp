// Morfologik tags: which lexeme and which forms a tag stands for.
#include "psisym.h"
#include "morfologik_tags_parser.hpp"
#include <vector>
#include <map>
#include <string>
#include <algorithm>
typedef std::map<std::string, std::string> M;
typedef std::vector<std::string> V;
static V split(const std::string& s, char c) { V v(1); for (size_t i = 0; i < s.size(); i++) if (s[i] == c) v.push_back(""); else v.back() += s[i]; return v; }
static std::string kind(const std::string& a) {
    static const char* K[][2] = {{"subst", "pos"}, {"verb", "pos"}, {"adj", "pos"}, {"sg", "number"}, {"pl", "number"}, {"nom", "case"}, {"gen", "case"}, {"m1", "gender"}, {"f", "gender"}, {"perf", "aspect"}, {"imperf", "aspect"}, {"depr", "depreciativity"}, {"pact", "tense"}, {"fin", "tense"}, {"impt", "mode"}, {"pos", "degree"}, {"ter", "person"}};
    for (size_t i = 0; i < sizeof K / sizeof *K; i++) if (a == K[i][0]) return K[i][1];
    return "";
}
static M attributes(const V& parts) {
    M m; for (size_t i = 0; i < parts.size(); i++) { std::string k = kind(split(parts[i], '.')[0]); if (!k.empty()) m.insert(std::make_pair(k, parts[i])); }
    return m;
}
static std::vector<M> forms(const M& m) {
    std::vector<M> r(1);
    for (M::const_iterator i = m.begin(); i != m.end(); ++i) {
        V v = split(i->second, '.'); std::vector<M> n;
        for (size_t k = 0; k < r.size(); k++) for (size_t j = 0; j < v.size(); j++) { M x = r[k]; x[i->first] = v[j]; n.push_back(x); }
        r = n;
    }
    std::sort(r.begin(), r.end()); return r;
}
extern "C" int psi_main() {
    static const char* PART[] = {"subst", "sg.pl", "nom", "m1.f", "perf.imperf", "xx.yy", "verb", "nom.gen", "depr", "pact", "sg", "x", "impt", "fin", "perf", "", "adj", "gen.acc.loc", "pos", "ter.sec"};
    MorfologikTagsParser p; V parts; std::string tag;
    unsigned n = 1 + psi_pick(PARTS, "attributes");
    for (unsigned i = 0; i < n; i++) { parts.push_back(PART[psi_pick(VALUES, "attribute")]); tag += (i ? ":" : "") + parts.back(); }
    psi_note(tag.c_str());
    M m = attributes(parts);
    // all attributes
    std::vector<M> w = forms(m), g = p.parse(tag);
    std::sort(g.begin(), g.end());
    psi_check(g == w, "the tag is expanded into other forms");
    if (w.size() > 2) psi_reach("two alternatives");
    // the lexeme
    std::string pos; static const char* POS[] = {"pos", "depreciativity", "tense", "mode"};
    for (int i = 0; i < 4 && pos.empty(); i++) if (m.count(POS[i])) pos = m[POS[i]];
    if (pos == "pact") pos = "verb";
    M lex; lex["pos"] = pos; std::string own = pos == "subst" ? "gender" : pos == "verb" ? "aspect" : "";
    if (!own.empty()) { std::string v = m.count(own) ? m[own] : ""; std::replace(v.begin(), v.end(), '.', '-'); lex[own] = v; psi_reach("attribute of the lexeme"); }
    psi_check(p.getLexemeAttributes(tag) == lex, "the lexeme has other attributes");
    // its forms
    std::string word = m.count("pos") ? m["pos"] : ""; m.erase("pos"); if (word == "subst") m.erase("gender"); if (word == "verb") m.erase("aspect");
    w = forms(m); g = p.getFormAttributes(tag); std::sort(g.begin(), g.end());
    psi_check(g == w, "the forms have other attributes");
    psi_reach("forms");
    return 0;
}
