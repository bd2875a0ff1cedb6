// Lemmatizer: which annotations a token gets for the entries a lexicon has for it.
#include "psisym.h"
#include "lattice.hpp"
#include "lattice_worker.hpp"
#include "lamerlemma.hpp"
#include "lemmatizer_annotator.hpp"
#include <vector>
#include <map>
#include <set>
typedef Lattice::EdgeDescriptor ED;
struct Entry { std::string form, lemma, tag, morpho; };
static std::vector<Entry> lexicon;
static const char* FEATURES[][2] = {{"case", "acc"}, {"number", "sg"}};
// stands for the compiled lexicon (what that gives is another property)
Dictionary::Dictionary() {}
LemmaMap Dictionary::get(const std::string& token) {
    LemmaMap m;
    for (size_t i = 0; i < lexicon.size(); i++) {
        const Entry& e = lexicon[i]; if (e.form != token) continue;
        FeatureMapSetPair& p = m[e.lemma][e.tag];
        p.first["pos"] = "s"; if (e.tag.size() > 1) p.first["gender"] = e.tag.substr(1);
        FeatureMap f; if (!e.morpho.empty()) f["case"] = e.morpho; p.second.push_back(f);
    }
    return m;
}
void Dictionary::readDictionary(const std::string&) {} void Dictionary::load(std::string) {} void Dictionary::save(std::string) {}
struct Lem {
    LamerLemma* real; static Lem* last;
    Lem(const boost::program_options::variables_map&) {
        real = (LamerLemma*)operator new(sizeof(LamerLemma)); new (&real->dict_) Dictionary(); new (&real->langCode_) std::string("pl"); real->level_ = 3; real->lexeme_ids_ = false; last = this;
    }
    bool lemmatize(const std::string& t, AnnotationItemManager& m, LemmatizerOutputIterator& o) { return real->lemmatize(t, m, o); }
    std::string getLanguage() const { return real->getLanguage(); }
    static std::list<std::string> getLayerTags() { return LamerLemma::getLayerTags(); }
};
Lem* Lem::last;
static bool has(Lattice& l, ED e, const char* tag) { return l.getLayerTagManager().isThere(tag, l.getEdgeLayerTags(e)); }
static std::string show(Lattice& l, ED e) {
    std::string r = std::string(1, (char)('0' + l.getEdgeSource(e))) + l.getAnnotationCategory(e) + "/" + l.getAnnotationText(e);
    std::list<std::pair<std::string, std::string> > v = l.getAnnotationItemManager().getValues(l.getEdgeAnnotationItem(e)); std::map<std::string, std::string> m(v.begin(), v.end());
    for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) r += "," + i->first + "=" + i->second;
    return r;
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" int psi_main() {
    static const char* KIND[] = {"normalization", "lemma", "lexeme", "form"};
    AnnotationItemManager aim; Lattice l(aim, "ab"); LayerTagManager& tm = l.getLayerTagManager(); Lattice::EdgeSequence none;
    unsigned n = 1 + psi_pick(TOKENS, "tokens"); std::vector<std::string> words, toks; std::vector<bool> wanted; bool other = KINDS && psi_flag("token-tag");
    for (unsigned i = 0; i < n; i++) {
        std::string w = psi_str_of(KINDS ? "aAbB" : "aA", 1, WORD, "token"); unsigned kind = KINDS ? psi_pick(i ? 2 : 5, "kind") : 0; 
        ED e = l.addEdge(i, i + 1, AnnotationItem(kind == 1 ? "I" : kind == 2 ? "word" : "T", StringFrag(w)), tm.createTagCollection(std::string(kind == 3 ? "token,!en" : (kind == 4) != other ? "other,!pl" : "token,!pl")), none);
        words.push_back(w); toks.push_back(show(l, e)); wanted.push_back(kind == 0 || kind == 2);
    }
    unsigned ne = psi_pick(ENTRIES + 1, "entries");
    for (unsigned i = 0; i < ne; i++) {
        Entry e; e.form = psi_str_of(KINDS ? "aAbB" : "aA", 1, WORD, "form"); e.lemma = psi_str_of("ax", 1, 1, "lemma"); unsigned id = psi_pick(2, "lexeme id"); if (id) e.lemma += ":1";
        e.tag = psi_flag("gender") ? "sf" : "s"; e.morpho = psi_flag("case") ? "acc" : "";
        for (unsigned k = 0; k < n; k++) psi_assume(toks[k].compare(1, 5, "word/") || (e.lemma != words[k] && e.lemma != words[k] + ":1"));   // or the lemma would be the token itself
        lexicon.push_back(e); psi_note((e.form + " " + e.lemma + " " + e.tag + " " + e.morpho).c_str());
    }
    for (unsigned k = 0; k < n; k++) psi_note(toks[k].c_str());
    typedef std::map<std::string, boost::program_options::variable_value> Options;
    static long room[sizeof(boost::program_options::variables_map) / sizeof(long) + 1];                                  // no options given
    boost::program_options::variables_map& options = *(boost::program_options::variables_map*)room; new (static_cast<Options*>(&options)) Options();
    LemmatizerAnnotator<Lem> a(options);
    if (other) a.tokenTag_ = "other";
    LamerLemma& ll = *Lem::last->real; ll.level_ = KINDS ? psi_pick(4, "level") : 3; ll.lexeme_ids_ = psi_flag("lexeme-ids");
    ((Annotator&)a).annotate(l);
    // what the entries ask for: annotations with what each is made from
    std::set<std::string> want, is;
    for (unsigned k = 0; k < n; k++) {
        if (!wanted[k] || !ll.level_) continue;
        const std::string& w = words[k]; std::string tail = w, head = w, at(1, (char)('0' + k));
        for (size_t i = 1; i < w.size(); i++) tail[i] = low(w[i]);
        head[0] = low(w[0]);
        for (int v = 0; v < 3; v++) {
            const std::string& x = v == 0 ? w : v == 1 ? tail : head;
            for (unsigned i = 0; i < ne; i++) {
                const Entry& e = lexicon[i]; if (e.form != x) continue;
                std::string lem = ll.lexeme_ids_ ? e.lemma : e.lemma.substr(0, 1);
                std::string norm = at + "term/" + x, lemma = at + "word/" + lem, lexeme = at + "s/" + lem + "+s" + (e.tag.size() > 1 ? ",gender=f" : ""), form = at + "s/" + x + (e.morpho.empty() ? "" : ",case=acc");
                want.insert("normalization " + norm + " < " + toks[k]); want.insert("lemma " + lemma + " < " + norm);
                if (ll.level_ > 1) want.insert("lexeme " + lexeme + " < " + lemma);
                if (ll.level_ > 2) want.insert("form " + form + " < " + lexeme);
                psi_reach(v == 0 ? "as written" : v == 1 ? "tail" : "head"); if (e.lemma.size() > 1) psi_reach("lexeme id");
            }
        }
    }
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
    while (it.hasNext()) {
        ED e = it.next(); std::string s = show(l, e); int kinds = 0;
        if (!has(l, e, "lamerlemma")) { bool tok = false; for (unsigned k = 0; k < n; k++) tok = tok || s == toks[k]; psi_check(tok, "an annotation without the tag of the lemmatizer"); continue; }
        psi_check(has(l, e, "morfologik-tagset") && has(l, e, "!pl") && l.getEdgeTarget(e) == l.getEdgeSource(e) + 1, "an annotation lacks tags or lies elsewhere");
        for (int k = 0; k < 4; k++) {
            if (!has(l, e, KIND[k])) continue;
            kinds++;
            std::list<Lattice::Partition> ps = l.getEdgePartitions(e);
            for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) {
                Lattice::Partition::Iterator q(l, *p); psi_check(q.hasNext(), "an annotation that was made from nothing"); ED x = q.next(); psi_check(!q.hasNext(), "an annotation made from several");
                is.insert(KIND[k] + std::string(" ") + s + " < " + show(l, x));
            }
        }
        psi_check(kinds == 1, "an annotation of no or several kinds");
    }
    for (std::set<std::string>::iterator i = is.begin(); i != is.end(); ++i) psi_note(("is " + *i).c_str());
    for (std::set<std::string>::iterator i = want.begin(); i != want.end(); ++i) psi_note(("want " + *i).c_str());
    psi_check(is == want, "the token has other annotations than the lexicon gives it");
    return 0;
}
