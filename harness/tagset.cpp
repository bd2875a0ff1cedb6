// Tagset converter: what a rule file does to annotations.
#include "psisym.h"
#include "lattice.hpp"
#include "lattice_worker.hpp"
#include "unumsunt.hpp"
#include <vector>
#include <map>
#include <set>
typedef Lattice::EdgeDescriptor ED;
typedef std::map<std::string, std::string> AV;
struct It { std::string cat, text; AV av; };
struct Cmd { std::string arg; std::vector<std::string> alt; };
struct Rule { std::string cat, word, val; bool skip; std::vector<Cmd> cmds; };
static std::string show(const It& i) {
    std::string r = i.cat + "/" + i.text;
    for (AV::const_iterator k = i.av.begin(); k != i.av.end(); ++k) if (!k->second.empty() && k->second != "fail") r += "," + k->first + "=" + k->second;
    return r;
}
static It item(Lattice& l, ED e) {
    It r; r.cat = l.getAnnotationCategory(e); r.text = l.getAnnotationText(e);
    AnnotationItem a = l.getEdgeAnnotationItem(e);
    std::list<std::pair<std::string, std::string> > v = l.getAnnotationItemManager().getValues(a);
    for (std::list<std::pair<std::string, std::string> >::iterator i = v.begin(); i != v.end(); ++i) r.av[i->first] = i->second;
    return r;
}
static std::string get(const It& i, const std::string& k) { AV::const_iterator f = i.av.find(k); return f == i.av.end() ? "" : f->second; }
static bool has(Lattice& l, ED e, const char* tag) { return l.getLayerTagManager().isThere(tag, l.getEdgeLayerTags(e)); }
static std::string any(AnnotationItemManager& aim) { AnnotationItem p("p"); aim.setValue(p, "m", aim.any_value()); return aim.getValues(p).front().second; }
static void apply(AnnotationItemManager& aim, const Rule& r, std::vector<It>& items) {
    std::vector<It> out;
    for (size_t i = 0; i < items.size(); i++) {
        const It& x = items[i];
        if ((!r.cat.empty() && x.cat != r.cat) || (!r.val.empty() && get(x, "k") != r.val) || (!r.word.empty() && x.text.substr(0, x.text.find('+')) != r.word)) { out.push_back(x); continue; }
        if (r.skip) { psi_reach("skipped"); continue; }
        std::vector<It> now(1, x);
        for (size_t c = 0; c < r.cmds.size(); c++) {
            std::vector<It> next; const Cmd& m = r.cmds[c];
            for (size_t v = 0; v < now.size(); v++) for (size_t a = 0; a < m.alt.size(); a++) {
                It y = now[v]; std::string s = m.alt[a];
                if (s[0] == '$') { s = get(y, s.substr(1)); if (s.empty()) s = "fail"; psi_reach("reference"); } else if (s == "0" && m.arg != "CAT") s = any(aim);
                if (m.arg == "CAT") y.cat = s; else y.av[m.arg] = s;
                next.push_back(y);
            }
            now = next; if (m.alt.size() > 1) psi_reach("alternative");
        }
        out.insert(out.end(), now.begin(), now.end());
    }
    items = out;
}
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim, "ab"); LayerTagManager& tm = l.getLayerTagManager();
    // a rule file
    std::string f = "@source src\n@target dst\n";
    std::string cs, ct, as, vs, vt;
    if (MAPS && psi_flag("blank line or comment")) f += psi_flag("comment") ? "# @cat A Z\n" : "\n";
    f += "@tags keep more\n";
    unsigned maps = MAPS ? psi_pick(8, "maps") : 0;
    if (maps & 1) { cs = psi_str_of("AB", 1, 1, "category"); ct = psi_str_of("BC", 1, 1, "new category"); f += "@cat " + cs + "\t" + ct + "\n"; }
    if (maps & 2) { as = "k"; f += "@attr k n\n"; }
    if (maps & 4) { vs = psi_str_of("xy", 1, 1, "value"); vt = psi_str_of("yz", 1, 1, "new value"); f += "@val   " + vs + " " + vt + "\n"; }
    std::vector<Rule> rules; unsigned nr = psi_pick(RULES + 1, "rules");
    for (unsigned i = 0; i < nr; i++) {
        Rule r; r.skip = false; std::string conds;
        unsigned c = psi_pick(4, "conditions");                               // category and one more
        r.cat = psi_str_of("AB", 1, 1, "condition category"); conds = "CAT = " + r.cat;
        if (c & 1) { r.word = psi_str_of("vw", 1, 1, "condition word"); conds += ", " + r.word; }
        if (c & 2) { r.val = psi_str_of("xy", 1, 1, "condition value"); conds += ", k=" + r.val; }
        std::string cmds; unsigned nc = 1 + psi_pick(2, "commands");
        for (unsigned k = 0; k < nc; k++) {
            unsigned what = psi_pick(k ? 5 : 6, "command"); Cmd m; bool breed = what < 5 && (k == 0 || rules.size() == 99 || r.cmds[0].alt.size() == 1) && psi_flag("alternatives");
            if (what == 5) { r.skip = true; cmds = "SKIP"; break; }
            m.arg = what < 2 ? "CAT" : what < 4 ? "m" : "k";
            m.alt.push_back(what == 0 ? psi_str_of("AB", 1, 1, "set category") : what == 1 ? "$k" : what == 2 ? psi_str_of("xy", 1, 1, "set value") : what == 3 ? "0" : "$m");
            if (breed) m.alt.push_back(m.arg == "CAT" ? (psi_flag("second is a reference") ? "$m" : psi_str_of("AB", 1, 1, "other category")) : psi_flag("second is a reference") ? "$k" : psi_str_of("xy", 1, 1, "other value"));
            r.cmds.push_back(m);
            cmds += (k ? ", " : "") + m.arg + (k ? "=" : " = ") + m.alt[0] + (breed ? "|" + m.alt[1] : "");
        }
        f += conds + " >> " + cmds + (i + 1 < nr || !MAPS || psi_flag("last line ends") ? "\n" : "");
        rules.push_back(r);
    }
    psi_note(f.c_str());
    // annotations: the second may have been made from the first
    unsigned n = 1 + psi_pick(EDGES, "edges"); std::vector<ED> es; std::vector<It> src; std::vector<std::vector<It> > dst; std::vector<bool> keep; bool derived = false;
    for (unsigned i = 0; i < n; i++) {
        It x; x.cat = psi_str_of("AB", 1, 1, "annotation category"); x.text = i == 0 ? std::string(psi_flag("with plus") ? "w+v+A" : "w") : std::string(psi_flag("same text") ? src[0].text : "v");
        if (psi_flag("k")) x.av["k"] = psi_str_of("xy", 1, 1, "k"); if (psi_flag("m")) x.av["m"] = "x";
        if (i && x.text == src[0].text) psi_assume(x.cat != src[0].cat || x.av != src[0].av);
        AnnotationItem a(x.cat, StringFrag(x.text)); for (AV::iterator k = x.av.begin(); k != x.av.end(); ++k) aim.setValue(a, k->first, k->second);
        unsigned t = i ? 0 : psi_pick(3, "tags"); keep.push_back(t == 0);
        Lattice::EdgeSequence::Builder b(l); if (i && psi_flag("derived")) { b.addEdge(es[0]); derived = true; }
        es.push_back(l.addEdge(0, 1, a, tm.createTagCollection(std::string(t == 0 ? "src,keep" : t == 1 ? "src,other" : "other")), b.build()));
        src.push_back(x);
        std::vector<It> now;
        if (t != 2) {
            It y; y.text = x.text; y.cat = !cs.empty() && x.cat == cs ? ct : x.cat;
            for (AV::iterator k = x.av.begin(); k != x.av.end(); ++k) y.av[!as.empty() && k->first == as ? "n" : k->first] = !vs.empty() && k->second == vs ? vt : k->second;
            now.push_back(y);
            for (size_t r = 0; r < rules.size(); r++) apply(aim, rules[r], now);
        }
        dst.push_back(now);
    }
    std::psi_ifstream::content() = f;
    Unumsunt u("pl", "x"); u.convertTags(l);
    // what there is now
    std::set<std::string> want, is; std::map<std::string, bool> kept;
    for (unsigned i = 0; i < n; i++) for (size_t k = 0; k < dst[i].size(); k++) want.insert(show(dst[i][k]));
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
    while (it.hasNext()) {
        ED e = it.next(); if (!has(l, e, "dst")) continue;
        std::string s = show(item(l, e)); is.insert(s); psi_note(("is " + s).c_str());
        psi_check(l.getEdgeSource(e) == 0 && l.getEdgeTarget(e) == 1 && has(l, e, "tagset-converter") && !has(l, e, "more"), "a converted annotation has other tags or another range");
        bool k = false, o = false;
        for (unsigned i = 0; i < n; i++) { if (s == show(src[i])) { o = true; k = k || keep[i]; } for (size_t j = 0; j < dst[i].size(); j++) if (s == show(dst[i][j])) k = k || keep[i]; }
        if (k) kept[s] = kept[s] || has(l, e, "keep"); else psi_check(!has(l, e, "keep"), "a tag was kept that was not there");
        if (!o) psi_check(!has(l, e, "src") && !has(l, e, "other"), "a converted annotation got tags of the source");
    }
    for (std::set<std::string>::iterator w = want.begin(); w != want.end(); ++w) psi_note(("want " + *w).c_str());
    psi_check(is == want, "the rules give other annotations");
    for (std::map<std::string, bool>::iterator k = kept.begin(); k != kept.end(); ++k) psi_check(k->second, "tags to be kept were not");
    // derived from a converted annotation
    if (n == 2 && derived && src[0].text != src[1].text && dst[0].size() == 1) for (size_t j = 0; j < dst[1].size(); j++) {
        bool found = false;
        Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
        while (it.hasNext()) {
            ED e = it.next(); if (!has(l, e, "dst") || show(item(l, e)) != show(dst[1][j])) continue;
            std::list<Lattice::Partition> ps = l.getEdgePartitions(e);
            for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) {
                Lattice::Partition::Iterator q(l, *p); if (!q.hasNext()) continue;
                ED x = q.next(); if (has(l, x, "dst") && show(item(l, x)) == show(dst[0][0])) found = true;
            }
        }
        psi_check(found, "a converted annotation does not refer to the converted one it was made from"); psi_reach("derived");
    }
    psi_reach(rules.empty() ? "substitutions" : "rules");
    return 0;
}
