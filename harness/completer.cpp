// Completion of a pipeline: what is put in, in which order, and which of the possibilities.
#include "psisym.h"
#include <vector>
#include <map>
#include <set>
#include <stdexcept>
#include "auto_completer.hpp"
#include "annotator_promise.hpp"
#include "main_factories_keeper.hpp"
namespace boost { namespace program_options {
abstract_variables_map::abstract_variables_map() : m_next(0) {}
abstract_variables_map::abstract_variables_map(const abstract_variables_map* n) : m_next(n) {}
variables_map::variables_map() {}
const variable_value& variables_map::get(const std::string& n) const { static variable_value none; const_iterator i = find(n); return i == end() ? none : i->second; }
const variable_value& abstract_variables_map::operator[](const std::string& n) const { return get(n); }
void variables_map::clear() {} void variables_map::notify() {} void notify(variables_map&) {}
options_description::options_description(unsigned a, unsigned b) : m_line_length(a), m_min_description_length(b) {}
} }
ProcessorFactory::~ProcessorFactory() {}
std::string ProcessorFactory::doGetSubType() const { return ""; } std::string ProcessorFactory::doGetDescription() { return ""; } std::string ProcessorFactory::doGetDetailedDescription() { return ""; }
std::list<std::string> ProcessorFactory::doGetAliases() { return std::list<std::string>(); }
bool ProcessorFactory::doCheckRequirements(const boost::program_options::variables_map&, std::ostream&) const { return true; }
double ProcessorFactory::doGetQualityScore(const boost::program_options::variables_map&) const { return 0; } double ProcessorFactory::doGetEstimatedTime(const boost::program_options::variables_map&) const { return 0; }
double ProcessorFactory::getQualityScore(const boost::program_options::variables_map& o) const { return doGetQualityScore(o); }
double ProcessorFactory::getEstimatedTime(const boost::program_options::variables_map& o) const { return doGetEstimatedTime(o); }
std::string ProcessorFactory::getName() const { return doGetName(); }
boost::program_options::options_description ProcessorFactory::optionsHandled() { return doOptionsHandled(); }
Processor* ProcessorFactory::createProcessor(const boost::program_options::variables_map& o) { return doCreateProcessor(o); }
bool ProcessorFactory::checkRequirements(const boost::program_options::variables_map&, std::ostream&) const { return true; }
std::string ProcessorFactory::getContinuation(const boost::program_options::variables_map&) const { return ""; }
typedef boost::program_options::variables_map Options;
typedef std::list<std::list<std::string> > Lists;
static std::list<std::string> tags(unsigned m) { std::list<std::string> r; if (m & 1) r.push_back("a"); if (m & 2) r.push_back("b"); return r; }
static std::string langOf(const Options& o) { Options::const_iterator i = o.find("lang"); return i == o.end() ? "guess" : boost::any_cast<std::string>(i->second.value()); }
// an annotator that may be anything; what is not asked for stays open
struct Fake : public AnnotatorFactory {
    std::string name; int provides_, requires_, lang_, score_, time_, fails_;
    unsigned get(int& v, unsigned n, const char* what) { if (v < 0) { v = psi_pick(n, what); psi_note((name + " " + what + " " + (char)('0' + v)).c_str()); } return v; }
    Fake(const std::string& n) : name(n), provides_(-1), requires_(-1), lang_(-1), score_(-1), time_(-1), fails_(-1) {}
    unsigned provides() { return get(provides_, 1 << TAGS, "provides"); }
    // 0 nothing, 1 a, 2 b, 3 a and b from one, 4 a and b from any
    std::vector<unsigned> needs() { static const unsigned R[5][2] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {1, 2}}; unsigned r = get(requires_, TAGS == 1 ? 2 : 5, "requires"); std::vector<unsigned> v; for (int i = 0; i < 2; i++) if (R[r][i]) v.push_back(R[r][i]); return v; }
    // 0 none, 1 only pl, 2 only en, 3 pl or en, 4 pl
    unsigned lang() { return LANGS ? get(lang_, 5, "language") : 0; }
    int score() { return get(score_, 2, "score"); }
    int time() { return get(time_, TIMES, "time"); }
    unsigned fails() { return FAILS ? get(fails_, 3, "fails") : 0; }
    Annotator* doCreateAnnotator(const Options&) { unsigned f = fails(); if (f == 1) throw PsiException("fails"); if (f == 2) throw std::runtime_error("fails"); return 0; }
    Lists doRequiredLayerTags() { Lists r; std::vector<unsigned> n = needs(); for (size_t i = 0; i < n.size(); i++) r.push_back(tags(n[i])); return r; }
    Lists doOptionalLayerTags() { return Lists(); }
    std::list<std::string> doProvidedLayerTags() { return tags(provides()); }
    LanguagesHandling doLanguagesHandling(const Options& o) const { unsigned l = ((Fake*)this)->lang(); return l == 0 ? LANGUAGE_INDEPENDENT : l < 3 || langOf(o) != "guess" ? JUST_ONE_LANGUAGE : LANGUAGE_DEPENDENT; }
    std::list<std::string> doLanguagesHandled(const Options& o) const {
        unsigned l = ((Fake*)this)->lang(); std::list<std::string> r; std::string x = langOf(o);
        if (l >= 3 && x != "guess") r.push_back(x); else { if (l == 1 || l >= 3) r.push_back("pl"); if (l == 2 || l == 3) r.push_back("en"); }
        return r;
    }
    boost::program_options::options_description doOptionsHandled() { return boost::program_options::options_description(80, 40); }
    double doGetQualityScore(const Options&) const { return ((Fake*)this)->score(); }
    double doGetEstimatedTime(const Options&) const { return ((Fake*)this)->time(); }
    boost::filesystem::path doGetFile() const { throw std::runtime_error("no file"); }
    std::string doGetName() const { return name; }
};
static std::vector<Fake*> F;
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static long room[sizeof(MainFactoriesKeeper) / sizeof(long) + 1]; return *(MainFactoriesKeeper*)room; }
std::vector<std::string> MainFactoriesKeeper::getProcessorNames() { std::vector<std::string> r; for (size_t i = 0; i < F.size(); i++) r.push_back(F[i]->name); return r; }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(std::string n) { return *F[n[1] - '0']; }
// reference: every way to complete the pipeline
struct P { unsigned f; char lang; bool operator==(const P& o) const { return f == o.f && lang == o.lang; } };   // lang: p, e, - none, ? not set
typedef std::vector<P> Alt;
typedef std::vector<P> Seq;
static std::vector<Seq> all; static std::string langs;
static bool sub(unsigned a, unsigned b) { return (a & b) == a; }
static bool speaks(unsigned f, char l) { unsigned k = F[f]->lang(); return k == 0 || (l == 'p' ? k != 2 : k == 2 || k == 3); }
static void expand(Seq done, std::vector<Alt> rest) {
    if (rest.empty()) { all.push_back(done); return; }
    Alt a = rest.front(); rest.erase(rest.begin());
    bool multi = false; char one = 0;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].lang == '?') multi = true; else if (a[i].lang != '-') { if (one && one != a[i].lang) multi = true; one = a[i].lang; } }
    if (multi) {
        std::vector<Alt> m;
        for (size_t k = 0; k < langs.size(); k++) {
            Alt x;
            for (size_t i = 0; i < a.size(); i++) if (a[i].lang == '-' || a[i].lang == langs[k] || (a[i].lang == '?' && speaks(a[i].f, langs[k]))) { P p = a[i]; if (p.lang == '?') p.lang = langs[k]; x.push_back(p); }
            if (x.empty()) return;
            m.push_back(x);
        }
        rest.insert(rest.begin(), m.begin(), m.end()); expand(done, rest); return;
    }
    for (size_t i = 0; i < a.size(); i++) {
        P p = a[i]; std::vector<unsigned> need = F[p.f]->needs(); unsigned missing = 0;
        for (size_t k = 0; k < need.size() && !missing; k++) { bool there = false; for (size_t d = 0; d < done.size(); d++) if (sub(need[k], F[done[d].f]->provides())) there = true; if (!there) missing = need[k]; }
        if (!missing) { Seq d = done; d.push_back(p); expand(d, rest); continue; }
        Alt fill;
        for (unsigned f = 0; f < F.size(); f++) {
            std::vector<unsigned> n = F[f]->needs(); bool circle = false; for (size_t k = 0; k < n.size(); k++) if (sub(missing, n[k])) circle = true;
            if (circle || !sub(missing, F[f]->provides())) continue;
            unsigned l = F[f]->lang(); P x; x.f = f; x.lang = l == 0 ? '-' : l == 1 ? 'p' : l == 2 ? 'e' : p.lang;
            if (l >= 3 && p.lang == '-') continue;                            // no language to run it with
            if (l && p.lang != '-' && (x.lang != p.lang || !speaks(f, p.lang))) continue;
            fill.push_back(x);
        }
        if (fill.empty()) continue;
        std::vector<Alt> r = rest; r.insert(r.begin(), Alt(1, p)); r.insert(r.begin(), fill); expand(done, r);
    }
}
static void rate(const Seq& s, int& score, int& time) { score = time = 0; for (size_t i = 0; i < s.size(); i++) { score += F[s[i].f]->score(); time += F[s[i].f]->time(); } }
static bool circular(unsigned f, unsigned depth) {
    if (depth > F.size()) return true;
    std::vector<unsigned> n = F[f]->needs();
    for (size_t k = 0; k < n.size(); k++) for (unsigned g = 0; g < F.size(); g++) {
        std::vector<unsigned> m = F[g]->needs(); bool direct = false; for (size_t j = 0; j < m.size(); j++) if (sub(n[k], m[j])) direct = true;
        if (!direct && sub(n[k], F[g]->provides()) && circular(g, depth + 1)) return true;
    }
    return false;
}
extern "C" int psi_main() {
    for (unsigned i = 0; i < NF; i++) F.push_back(new Fake(std::string("f") + (char)('0' + i)));
#ifdef THREE
    unsigned steps = 3;
#else
    unsigned steps = 1 + psi_pick(STEPS, "steps");
#endif
    langs = LANGS ? (psi_flag("two languages") ? "pe" : "p") : "p";
    ProcessorPromiseAlternativeSequence seq; std::vector<Alt> given;
    for (unsigned i = 0; i < steps; i++) {
        ProcessorPromiseAlternative a(new std::list<ProcessorPromiseSharedPtr>()); Alt g;
#ifdef THREE
        unsigned m = 0;
#else
        unsigned m = i == 0 && steps == 1 ? psi_pick(2, "alternatives") : psi_pick(3, "alternatives");  // f0; f0 or f1; f1
#endif
        for (unsigned f = 0; f < 3; f++) {
#ifdef THREE
            if (f != i) continue;
#else
            if (f == 2 || (m != 1 && (m ? 1u : 0u) != f)) continue;
#endif
            Options o; boost::program_options::psi_parsed d; d.lang = "guess"; store(d, o);
            a->push_back(ProcessorPromiseSharedPtr(new AnnotatorPromise(F[f], o)));
            unsigned l = F[f]->lang(); P p; p.f = f; p.lang = l == 0 ? '-' : l == 1 ? 'p' : l == 2 ? 'e' : '?'; g.push_back(p);
        }
        seq.push_back(a); given.push_back(g);
    }
    for (unsigned i = 0; i < NF; i++) psi_assume(!circular(i, 0));             // annotators that need each other have no order
    std::list<std::string> lc; for (size_t i = 0; i < langs.size(); i++) lc.push_back(langs[i] == 'p' ? "pl" : "en");
    expand(Seq(), given);
    std::string note; for (size_t i = 0; i < all.size(); i++) { for (size_t k = 0; k < all[i].size(); k++) { note += (char)('0' + all[i][k].f); note += all[i][k].lang; } note += " "; } psi_note(note.c_str());
    bool some = false, unrunnable = false; int bs = 0, bt = 0;
    for (size_t i = 0; i < all.size(); i++) {
        bool ok = true; for (size_t k = 0; k < all[i].size(); k++) if (F[all[i][k].f]->fails()) ok = false;
        if (!ok) { unrunnable = true; continue; }
        int s, t; rate(all[i], s, t); if (!some || s > bs || (s == bs && t < bt)) { bs = s; bt = t; } some = true;
    }
    bool threw = false; boost::optional<ProcessorPromiseSequence> r;
    { AutoCompleter c(seq, lc); try { r = c.complete(); } catch (PsiException&) { threw = true; } }
    psi_check(threw == (!some && unrunnable), "an error is reported when none, or none is reported when one");
    psi_check(!!r == some, "a pipeline that can be completed is not, or the other way round");
    if (!some) { psi_reach(threw ? "cannot be run" : "impossible"); return 0; }
    Seq is; bool one = false;
    for (ProcessorPromiseSequence::iterator i = r->begin(); i != r->end(); ++i) {
        ProcessorPromise& p = **i; P x; x.f = ((Fake*)p.factory_)->name[1] - '0'; unsigned l = F[x.f]->lang(); std::string s = langOf(p.options_);
        x.lang = l == 0 ? '-' : l == 1 ? 'p' : l == 2 ? 'e' : s == "pl" ? 'p' : s == "en" ? 'e' : '?'; is.push_back(x);
    }
    note = "is "; for (size_t k = 0; k < is.size(); k++) { note += (char)('0' + is[k].f); note += is[k].lang; } psi_note(note.c_str());
    for (size_t i = 0; i < is.size(); i++) {
        std::vector<unsigned> need = F[is[i].f]->needs();
        for (size_t k = 0; k < need.size(); k++) { bool there = false; for (size_t d = 0; d < i; d++) if (sub(need[k], F[is[d].f]->provides())) there = true; psi_check(there, "a processor runs before what it needs"); }
        psi_check(is[i].lang != '?', "a processor runs without a language"); psi_check(!F[is[i].f]->fails(), "a pipeline is chosen that cannot be run");
    }
    for (size_t i = 0; i < all.size(); i++) if (all[i] == is) one = true;
    psi_check(one, "the pipeline is completed with something else");
    int s, t; rate(is, s, t); psi_check(s == bs && t == bt, "a better completion is passed over");
    psi_reach(is.size() > given.size() ? "completed" : "complete"); if (all.size() > 1) psi_reach("choice"); if (unrunnable) psi_reach("second choice"); if (langs.size() > 1 && is.size() > 2) psi_reach("languages");
    return 0;
}
