// Full-form lexicons: lines are encoded, put into a minimal automaton and looked up again.
#include "psisym.h"
#include <boost/shared_ptr.hpp>
#include "config.hpp"
#include "utility_functions.hpp"
#include "fsa_multi_store.hpp"
#include <map>
#include <set>
#include <vector>
#if MODE == 0
struct Entry { std::string form, lemma, tag, morpho; unsigned fields;
    std::string line() const { std::string s = form + "\t" + lemma; if (fields > 2) s += "\t" + tag; if (fields > 3) s += "\t" + morpho; return s; } };
typedef std::map<std::string, std::string> Features;
static Features features(const std::string& s, bool pos) {
    Features f;
    for (size_t i = 0; i <= s.size();) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); std::string a = s.substr(i, j - i); size_t e = a.find('='); if (e != std::string::npos) f[a.substr(0, e)] = a.substr(e + 1); else f[pos ? "pos" : a] = pos ? a : "1"; i = j + 1; }
    return f;
}
static std::string show(const Features& f) { std::string s; for (Features::const_iterator i = f.begin(); i != f.end(); ++i) s += i->first + "=" + i->second + ";"; return s; }
#endif
#if MODE == 0
static std::string word(unsigned lo, unsigned hi, const char* name) { unsigned n = lo + psi_pick(hi - lo + 1, name); std::string s; for (unsigned i = 0; i < n; i++) s += (char)psi_sym_int(0xc5, 0xc6, name); return s; }
#endif
extern "C" int psi_main() {
#if MODE == 1
    std::string form = psi_str(0, LEN, "form"), lemma = psi_str(1, LEN, "lemma");
    psi_assume(lemma[0] != 0);
    if (psi_flag("long")) {
        static const unsigned L[] = {55, 59, 62, 63, 64, 65, 100, 125};
        unsigned n = L[psi_pick(8, "length")];
        if (psi_flag("in front")) form = std::string(n, 'x') + form; else form += std::string(n, 'y');
        psi_reach("long");
    }
    std::string code = KLEndEncode(form, lemma);
    psi_obs_str("code", code);
    psi_check(KLEndDecode(form, code) == lemma, "the code of a lemma is decoded to another lemma");
    psi_reach("roundtrip");
#else
    static const char* TAGS[] = {"subst", "subst,gender=f", "verb"};
    static const char* MORPHO[] = {"case=acc", "number=sg,tense", "pl"};
    unsigned n = psi_pick(ENTRIES + 1, "entries");
    std::vector<Entry> e; std::vector<std::string> lines;
    for (unsigned i = 0; i < n; i++) {
        Entry x;
        x.form = word(1, FORM, "form"); x.lemma = word(1, LEMMA, "lemma");
        x.fields = 2 + psi_pick(FIELDS, "fields");
        if (x.fields > 2) x.tag = TAGS[psi_pick(x.fields > 3 ? 1 : 2, "tag")];
        if (x.fields > 3) x.morpho = MORPHO[psi_pick(3, "morpho")];
        std::string line = parseInput(x.line());
        for (size_t k = x.form.size() + 1; k < line.size() && k < x.form.size() + 3; k++) line[k] = (char)psi_concretize((unsigned char)line[k]); // one path per code
        e.push_back(x); lines.push_back(line);
    }
    fsa::FSAMultiStore::Builder builder;
    builder.createFromSeparatedLines(lines.begin(), lines.end());
    boost::shared_ptr<fsa::FSAMultiStore> store(builder.build());
    std::string q = n && psi_flag("a form that is there") ? e[0].form : word(0, FORM, "query");
    std::vector<std::string> found = store->get(q);
    LemmaMap m;
    for (size_t i = 0; i < found.size(); i++) parseResult(q, found[i], m);
    std::map<std::string, std::map<std::string, std::multiset<std::string> > > want; std::set<std::string> seen;
    unsigned hits = 0;
    for (unsigned i = 0; i < n; i++) {
        if (e[i].form != q || !seen.insert(lines[i]).second) continue;
        hits++;
        std::map<std::string, std::multiset<std::string> >& t = want[e[i].lemma];
        if (e[i].fields > 2) t[e[i].tag].insert(e[i].fields > 3 ? show(features(e[i].morpho, false)) : std::string());
    }
    psi_observe("found", found.size()); psi_observe("hits", hits);
    psi_check(m.size() == want.size(), "a form has other lemmas than the lexicon gives it");
    for (LemmaMap::iterator i = m.begin(); i != m.end(); ++i) {
        psi_check(want.count(i->first), "a form has a lemma that the lexicon does not give it");
        psi_check(i->second.size() == want[i->first].size(), "a lemma has other tags than the lexicon gives it");
        for (TagMap::iterator j = i->second.begin(); j != i->second.end(); ++j) {
            psi_check(want[i->first].count(j->first), "a lemma has a tag that the lexicon does not give it");
            psi_check(show(j->second.first) == show(features(j->first, true)), "a tag is taken apart wrongly");
            std::multiset<std::string> s;
            for (size_t k = 0; k < j->second.second.size(); k++) s.insert(show(j->second.second[k]));
            psi_check(s == want[i->first][j->first], "the morphological features differ from the lexicon");
        }
    }
    if (hits > 1) psi_reach("several"); else if (hits) psi_reach("one"); else psi_reach("none");
#endif
    return 0;
}
