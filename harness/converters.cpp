// Converters: joiner, selector and antiselector against what their descriptions say.
#include "psisym.h"
#include "lattice.hpp"
#include "lattice_worker.hpp"
#include "joiner.hpp"
#include "selector.hpp"
#include "antiselector.hpp"
#include <vector>
#include <map>
#include <set>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
struct It { std::string cat, text; std::map<std::string, std::string> av; };
static std::string show(const It& i) {
    std::string r = i.cat + "/" + i.text;
    for (std::map<std::string, std::string>::const_iterator k = i.av.begin(); k != i.av.end(); ++k) r += "," + k->first + "=" + k->second;
    return r;
}
static It item(Lattice& l, ED e) {
    It r; r.cat = l.getAnnotationCategory(e); r.text = l.getAnnotationText(e);
    AnnotationItem a = l.getEdgeAnnotationItem(e);
    std::list<std::pair<std::string, std::string> > v = l.getAnnotationItemManager().getValues(a);
    for (std::list<std::pair<std::string, std::string> >::iterator i = v.begin(); i != v.end(); ++i) r.av[i->first] = i->second;
    return r;
}
static void run(Annotator& a, Lattice& l) { a.annotate(l); }
#if MODE == 0
static bool has(Lattice& l, ED e, const char* tag) { return l.getLayerTagManager().isThere(tag, l.getEdgeLayerTags(e)); }
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim, "ab"); LayerTagManager& tm = l.getLayerTagManager();
    std::vector<ED> parent, all; std::vector<std::vector<unsigned> > par; std::vector<It> its; std::vector<bool> left, right; std::vector<VD> to;
    for (unsigned i = 0; i < 2; i++) parent.push_back(l.addEdge(0, 1, AnnotationItem(i ? "P" : "Q", StringFrag("p")), tm.createTagCollection(std::string("lexeme,!pl")), Lattice::EdgeSequence()));
    unsigned n = 1 + psi_pick(EDGES, "edges");
    for (unsigned i = 0; i < n; i++) {
        unsigned kind = i == 0 ? 0 : psi_pick(3, "left, right or both");
        It x; x.text = std::string(1, (char)('s' + i));
#ifdef FEW
        x.cat = "X"; unsigned at = 0;
#else
        x.cat = psi_str_of("XY", 1, 1, "category"); unsigned at = psi_pick(2, "attribute");
#endif
        AnnotationItem a(x.cat, StringFrag(x.text));
        if (at) { const char* k = kind == 0 ? "l" : kind == 1 ? "r" : "b"; aim.setValue(a, k, "v"); x.av[k] = "v"; }
        unsigned ps = psi_pick(4, "parents"); VD t = kind == 1 && psi_flag("another range") ? 2 : 1;
        std::vector<unsigned> p; if (ps & 1) p.push_back(0); if (ps & 2) p.push_back(1);
        ED e; LayerTagCollection tags = tm.createTagCollection(std::string(kind == 0 ? "left,!pl" : kind == 1 ? "right,!pl" : "left,right,!pl"));
        Lattice::EdgeSequence none;
        if (p.empty()) e = l.addEdge(0, t, a, tags, none);
        for (size_t k = 0; k < p.size(); k++) { Lattice::EdgeSequence::Builder b(l); b.addEdge(parent[p[k]]); e = l.addEdge(0, t, a, tags, b.build()); }
        all.push_back(e); par.push_back(p); its.push_back(x); left.push_back(kind != 1); right.push_back(kind != 0); to.push_back(t);
    }
#ifdef FEW
    unsigned plane = 2, at = 0; bool rt = false, rc = false;
#else
    unsigned plane = psi_pick(3, "plane");
    bool rt = psi_sym_int(0, 1, "take-right-text"), rc = psi_sym_int(0, 1, "take-right-category");
    unsigned at = psi_pick(3, "attributes");
#endif
    unsigned outer = psi_pick(3, "outer join");
    Joiner j("pl", "left", "right", plane == 0 ? "joined" : plane == 1 ? "joined,!pl" : "joined,!q", !rt, !rc, at == 0 ? Joiner::MERGE_ATTRIBUTES : at == 1 ? Joiner::TAKE_LEFT_ATTRIBUTES : Joiner::TAKE_RIGHT_ATTRIBUTES, outer != 1, outer == 2);
    run(j, l);
    // the product
    std::map<std::string, std::set<std::pair<int, int> > > want;
    for (unsigned i = 0; i < n; i++) {
        if (!left[i]) continue;
        bool found = false;
        for (unsigned k = 0; k < n; k++) {
            bool same = false;
            for (size_t x = 0; x < par[i].size(); x++) for (size_t y = 0; y < par[k].size(); y++) if (par[i][x] == par[k][y]) same = true;
            if (!right[k] || !same || to[k] != 1) continue;
            found = true;
            It x; x.cat = its[rc ? k : i].cat; x.text = its[rt ? k : i].text;
            x.av = its[at == 2 ? k : i].av; if (at == 0) x.av.insert(its[k].av.begin(), its[k].av.end());
            want[show(x)].insert(std::make_pair((int)i, (int)k)); psi_reach("joined");
        }
        if (outer == 2 || (outer == 0 && !found)) { want[show(its[i])].insert(std::make_pair((int)i, -1)); psi_reach("outer"); }
    }
    // what is there now
    std::map<std::string, std::set<std::pair<int, int> > > is;
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
    while (it.hasNext()) {
        ED e = it.next();
        if (!has(l, e, "joined")) continue;
        psi_check(l.getEdgeSource(e) == 0 && l.getEdgeTarget(e) == 1, "a joined annotation lies elsewhere");
        psi_check(has(l, e, plane == 2 ? "!q" : "!pl") && !has(l, e, plane == 2 ? "!pl" : "!q"), "a joined annotation lies in another plane");
        std::string s = show(item(l, e)); psi_check(!is.count(s), "two joined annotations are the same");
        std::set<std::pair<int, int> >& r = is[s];
        if (plane != 2) continue;
        std::list<Lattice::Partition> ps = l.getEdgePartitions(e);
        for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) {
            std::vector<int> m; Lattice::Partition::Iterator q(l, *p);
            while (q.hasNext()) { ED x = q.next(); int k = -1; for (unsigned i = 0; i < n; i++) if (all[i] == x) k = (int)i; psi_check(k >= 0, "joined from a foreign annotation"); m.push_back(k); }
            psi_check(m.size() == 1 || m.size() == 2, "joined from other than two annotations");
            r.insert(std::make_pair(m[0], m.size() == 2 ? m[1] : -1));
        }
    }
    psi_note((std::string("is ") + (is.empty() ? "" : is.begin()->first) + " want " + (want.empty() ? "" : want.begin()->first)).c_str());
    psi_check(is.size() == want.size(), "there are more or fewer joined annotations than pairs");
    for (std::map<std::string, std::set<std::pair<int, int> > >::iterator w = want.begin(); w != want.end(); ++w) {
        psi_check(is.count(w->first), "a pair was not joined");
        if (plane == 2) { psi_check(is[w->first] == w->second, "a joined annotation does not refer to its pair"); psi_reach("another plane"); }
    }
    return 0;
}
#elif MODE == 1
struct Test { std::string cat, val; };
static bool holds(const std::string& cond, const std::vector<Test>& ts) {
    if (cond.empty() || cond == "*") return true;
    for (size_t t = 0; t < ts.size(); t++)
        for (size_t i = 0; i <= cond.size(); i++) {                       // one alternative from i on
            bool all = true;
            for (;;) {
                size_t k = i; while (k < cond.size() && cond[k] != '|' && cond[k] != '&') k++;
                std::string c = cond.substr(i, k - i);
                if (c != ts[t].cat && (ts[t].val.empty() || c != "k=" + ts[t].val)) all = false;
                i = k;
                if (k == cond.size() || cond[k] == '|') break;
                i++;
            }
            if (all) return true;
        }
    return false;
}
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim, "abc"); LayerTagManager& tm = l.getLayerTagManager();
    Lattice::EdgeSequence none;
    bool blank = psi_flag("middle is blank"), withBlank = psi_flag("with-blank");
    std::vector<bool> tok; std::vector<ED> te;
    for (int i = 0; i < 3; i++) te.push_back(l.addEdge(i, i + 1, AnnotationItem(i == 1 && blank ? "B" : "T", StringFrag(std::string(1, (char)('a' + i)))), tm.createSingletonTagCollection("token"), none));
    // readings of the first token: single ones and a chain of two
    std::vector<Test> t01; unsigned nt = psi_pick(TESTS + 1, "test annotations");
    for (unsigned i = 0; i < nt; i++) {
        Test t; t.cat = psi_str_of("AB", 1, 1, "test category"); if (psi_flag("test value")) t.val = psi_str_of("AB", 1, 1, "test value");
        AnnotationItem a(t.cat, StringFrag(std::string(1, (char)('x' + i)))); if (!t.val.empty()) aim.setValue(a, "k", t.val);
        l.addEdge(0, 1, a, tm.createSingletonTagCollection("test"), none); t01.push_back(t);
    }
    unsigned nr = psi_pick(READINGS + 1, "readings"); std::vector<bool> ok; unsigned chain = 99;
    for (unsigned i = 0; i < nr; i++) {
        unsigned form = psi_pick(3, "condition"); std::string c;
        if (form == 1) c = psi_str_of("AB|&*", 1, CLEN, "condition"); else if (form == 2) c = "k=" + psi_str_of("AB|&", 1, CLEN, "value condition");
        AnnotationItem a("R", StringFrag(std::string(1, (char)('0' + i) + 0))); if (!c.empty()) aim.setValue(a, "condition", c);
        bool h = holds(c, t01);
        if (chain == 99 && psi_flag("chain")) {
            chain = i; VD v = l.addLooseVertex();
            bool t2 = psi_flag("second holds");                            // nothing can be tested on parts of a token
            AnnotationItem b("S", StringFrag("s")); if (!t2) aim.setValue(b, "condition", "A");
            l.addEdge(0, v, a, tm.createSingletonTagCollection("conditional"), none); l.addEdge(v, 1, b, tm.createSingletonTagCollection("conditional"), none);
            h = holds(c, std::vector<Test>()) && t2;
        } else l.addEdge(0, 1, a, tm.createSingletonTagCollection("conditional"), none);
        ok.push_back(h);
    }
    Selector s("conditional", "token", psi_flag("test-tag") ? "test" : "test", "selected", withBlank);
    run(s, l);
    std::multiset<std::string> want, is; bool any = false;
    for (unsigned i = 0; i < nr; i++) if (ok[i]) {
        It r; r.cat = "R"; r.text = std::string(1, (char)('0' + i)); any = true;
        want.insert(r.cat + r.text); if (chain == i) { want.insert("Ss"); psi_reach("chain"); } else psi_reach("reading");
    }
    if (!any) { want.insert("Ta"); psi_reach("fallback"); }
    if (!blank) want.insert("Tb"); else if (withBlank) want.insert("Bb");
    want.insert("Tc");
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
    while (it.hasNext()) { ED e = it.next(); if (tm.isThere("selected", l.getEdgeLayerTags(e))) { It i = item(l, e); is.insert(i.cat + i.text); } }
    std::string note; for (std::multiset<std::string>::iterator i = is.begin(); i != is.end(); ++i) note += *i + " "; note += "/ "; for (std::multiset<std::string>::iterator i = want.begin(); i != want.end(); ++i) note += *i + " "; psi_note(note.c_str());
    psi_check(is == want, "something else was selected");
    return 0;
}
#else
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim, "abc"); LayerTagManager& tm = l.getLayerTagManager();
    Lattice::EdgeSequence none;
    static const VD FROM[] = {0, 1, 2, 0, 1}, TO[] = {1, 2, 3, 2, 3};
    bool withBlank = psi_flag("with-blank"), in[5] = {false, false, false, false, false}; std::set<std::string> want, is;
    unsigned n = psi_pick(EDGES + 1, "edges"); std::vector<unsigned> tr; std::vector<std::string> tc;
    for (unsigned i = 0; i < n; i++) {
        unsigned r = psi_pick(5, "range"), t = psi_pick(3, "tag"); std::string c = psi_str_of("TB", 1, 1, "category"); bool both = t == 2;
        if (t != 0) in[r] = true;
        if (t != 1) { tr.push_back(r); tc.push_back(c + (char)('0' + i)); }
        l.addEdge(FROM[r], TO[r], AnnotationItem(c, StringFrag(std::string(1, (char)('0' + i)))), both ? tm.createTagCollection(std::string("in,token")) : tm.createSingletonTagCollection(t ? "in" : "token"), none);
    }
    bool same = psi_flag("out-tags include the fallback tag");
    Antiselector a("in", "token", same ? "out,token" : "out", withBlank);
    run(a, l);
    for (size_t i = 0; i < tr.size(); i++) if (!in[tr[i]] && (withBlank || tc[i][0] != 'B')) want.insert(tc[i] + (char)('a' + tr[i]));
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(tm.anyTag());
    while (it.hasNext()) {
        ED e = it.next(); if (!tm.isThere("out", l.getEdgeLayerTags(e))) continue;
        It x = item(l, e); unsigned r = 0; while (r < 4 && (FROM[r] != l.getEdgeSource(e) || TO[r] != l.getEdgeTarget(e))) r++;
        is.insert(x.cat + x.text + (char)('a' + r));
    }
    psi_check(is == want, "other annotations were taken over");
    psi_reach(want.empty() ? "none" : "some");
    return 0;
}
#endif
