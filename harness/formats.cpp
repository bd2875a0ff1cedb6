// Formats: PSI writer and reader.
#include "psisym.h"
#include "lattice.hpp"
#include "psi_lattice_writer.hpp"
#include "psi_lattice_reader.hpp"
#include <vector>
#include <sstream>
#include <algorithm>
#include <cstdio>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
static std::string anyChar(const char* name) { return psi_utf8(NKINDS == 1 ? 0 : psi_pick(NKINDS, name), name); }
static std::string anyText(unsigned lo, unsigned hi, const char* name) { unsigned n = lo + psi_pick(hi - lo + 1, name); std::string s; for (unsigned i = 0; i < n; i++) s += anyChar(name); return s; }
static std::string anyOf(unsigned lo, unsigned hi, const char* without, const char* name) { std::string s = anyText(lo, hi, name); for (size_t i = 0; i < s.size(); i++) for (const char* p = without; *p; p++) psi_assume(s[i] != *p); return s; }
static std::string num(long n) { char b[32]; snprintf(b, sizeof b, "%ld", n); return b; }
static std::string join(const std::list<std::string>& l) { std::string s; for (std::list<std::string>::const_iterator i = l.begin(); i != l.end(); ++i) { s += '\x01'; s += *i; } return s; }
static std::string vertex(Lattice& l, VD v) { return l.isLooseVertex(v) ? "@" + num(l.getLooseVertexIndex(v)) : num(v); }
static std::string show(Lattice& l, ED e, int depth) {
    const AnnotationItem& a = l.getEdgeAnnotationItem(e);
    std::string s = vertex(l, l.getEdgeSource(e)) + " " + vertex(l, l.getEdgeTarget(e)) + " " + a.getCategory() + "\x02" + a.getText() + "\x02" + join(l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e))) + "\x02";
    std::list<std::pair<std::string, std::string> > v = l.getAnnotationItemManager().getValues(a);
    std::vector<std::string> w;
    for (std::list<std::pair<std::string, std::string> >::iterator i = v.begin(); i != v.end(); ++i) w.push_back(i->first + "=" + i->second);
    std::sort(w.begin(), w.end());
    for (size_t i = 0; i < w.size(); i++) s += w[i] + "\x03";
    s += num((long)(l.getEdgeScore(e) * 1000));
    if (l.getLayerTagManager().isThere("symbol", l.getEdgeLayerTags(e))) return s;
    std::list<Lattice::Partition> p = l.getEdgePartitions(e);
    for (std::list<Lattice::Partition>::iterator i = p.begin(); i != p.end(); ++i) {
        s += "{" + num((long)(i->getScore() * 1000)) + join(l.getLayerTagManager().getTagNames(i->getTagList()));
        Lattice::Partition::Iterator it(l, *i);
        while (it.hasNext()) { Lattice::EdgeUsage u = it.nextUsage(); s += "[" + (depth ? show(l, u.getEdge(), depth - 1) : std::string("...")) + "$" + (NULLP(u.getRole()) ? std::string() : l.getAnnotationItemManager().zvalueToString(u.getRole())) + "]"; }
        s += "}";
    }
    return s;
}
static std::vector<std::string> all(Lattice& l) {
    std::vector<std::string> r;
    Lattice::EdgesSortedByTargetIterator i = l.edgesSortedByTarget(l.getLayerTagManager().anyTag());
    while (i.hasNext()) r.push_back(show(l, i.next(), 3));
    std::sort(r.begin(), r.end());
    return r;
}
extern "C" int psi_main() {
    AnnotationItemManager aim;
    Lattice l(aim);
    LayerTagManager& tm = l.getLayerTagManager();
    std::vector<VD> at; std::string text;
#if MODE == 0
    unsigned n = psi_pick(CH + 1, "chars");
    for (unsigned i = 0; i < n; i++) { at.push_back(text.size()); text += anyChar("char"); }
#else
    static const char* T[] = {"\n", "\xc5\xbc", "b", "_", " "};
    unsigned n = 2 + psi_pick(2, "chars");
    unsigned what = psi_pick(5, "free field");
    if ((what == 0 || what == 4) && psi_flag("long")) { text = "a fairly long text"; for (unsigned i = 0; i < text.size(); i++) at.push_back(i); }
    for (unsigned i = 0; i < n; i++) { at.push_back(text.size()); text += T[i]; }
    n = at.size();
#endif
    at.push_back(text.size());
    l.appendString(text);
    bool all_ = psi_flag("symbols");         // all of the text has symbols, or only what is annotated
    if (all_) l.addSymbols(0, text.size());
#if MODE == 0
    if (n && psi_flag("annotated")) {
        unsigned i = psi_pick(n, "from"), j = i + 1 + psi_pick(n - i, "length");
        Lattice::EdgeSequence::Builder b(l);
        bool symbols = all_ || psi_flag("own symbols");
        if (!all_ && symbols) l.addSymbols(at[i], at[j]);
        if (symbols) for (VD v = at[i]; v != at[j]; ) { ED e = l.firstOutEdge(v, l.getSymbolMask()); b.addEdge(e); v = l.getEdgeTarget(e); }
        l.addEdge(at[i], at[j], AnnotationItem("T", StringFrag("x")), tm.createSingletonTagCollection("token"), b.build());
        psi_reach("annotated");
    }
#else
    unsigned i = n - 2 + psi_pick(2, "from"), j = i + 1 + psi_pick(n - i, "length");
    Lattice::EdgeSequence::Builder b(l);
    bool symbols = all_ || psi_flag("own symbols");
    if (!all_ && symbols) l.addSymbols(at[i], at[j]);
    if (symbols) for (VD v = at[i]; v != at[j]; ) { ED e = l.firstOutEdge(v, l.getSymbolMask()); b.addEdge(e); v = l.getEdgeTarget(e); }
    AnnotationItem a("T" + (what == 1 ? anyOf(1, FREE, ",[<", "category") : std::string()), StringFrag(what == 2 ? anyText(1, FREE, "annotation") : std::string(what == 3 ? "" : "x")));
    if (what == 3) { aim.setValue(a, "k", anyOf(1, FREE, ",=[", "value")); if (all_ && psi_flag("second value")) aim.setValue(a, "m", "v"); }
    static const double SC[] = {0, 1.5, -2};
    ED t = l.addEdge(at[i], at[j], a, tm.createSingletonTagCollection("token"), b.build(), SC[what == 0 || what == 4 ? psi_pick(3, "score") : 0]);
    psi_reach(what == 1 ? "category" : what == 2 ? "annotation" : what == 3 ? "values" : "plain");
    if (what == 4) {
        ED r; unsigned k = j; bool two = j < n && symbols && psi_flag("two");
        if (two) {
            k = n; if (!all_) l.addSymbols(at[j], at[k]);
            Lattice::EdgeSequence::Builder e(l);
            for (VD v = at[j]; v != at[k]; ) { ED e2 = l.firstOutEdge(v, l.getSymbolMask()); e.addEdge(e2); v = l.getEdgeTarget(e2); }
            r = l.addEdge(at[j], at[k], AnnotationItem("T", StringFrag("y")), tm.createSingletonTagCollection("token"), e.build());
        }
        unsigned role = psi_pick(n > 3 || two || !symbols ? 2 : 3, "role"); Lattice::EdgeSequence::Builder c(l); c.addEdge(t, role ? aim.stringToZvalue(role == 1 ? "head" : "h" + anyOf(1, FREE, "$(,<]", "role")) : NULL_ZVALUE); if (two) c.addEdge(r);
        AnnotationItem p("NP", StringFrag(text.substr(at[i], at[k] - at[i])));
        l.addEdge(at[i], at[k], p, createUnion(tm.createSingletonTagCollection("parse"), tm.createSingletonTagCollection("x")), c.build());
        static const char* CAT[] = {"U", "V"};
        for (unsigned more = role < 2 ? psi_pick(n > 3 || two ? 2 : 3, "more alternatives") : 0, k2 = 0; k2 < more; k2++) {
            ED t2 = l.addEdge(at[i], at[j], AnnotationItem(CAT[k2]), tm.createSingletonTagCollection("token"), b.build());
            Lattice::EdgeSequence::Builder d(l); d.addEdge(t2); if (two) d.addEdge(r);
            l.addEdge(at[i], at[k], p, tm.createSingletonTagCollection("parse"), d.build(), SC[psi_pick(2, "score")]);
        }
        psi_reach("parse");
    } else if (what == 0 && all_ && psi_flag("correction")) {
        try { l.correctionReplace(at[i], at[j], anyText(1, 2, "corrected")); } catch (WrongVertexException&) { return 0; }
        psi_reach("correction");
    }
#endif
    std::ostringstream o; { PsiLatticeWriter w(psi_flag("header")); w.writeLattice(l, o); }
    psi_note(o.str().c_str());
    AnnotationItemManager aim2; Lattice m(aim2);
    std::istringstream is(o.str()); { PsiLatticeReader r; try { r.LatticeReader<std::istream>::readIntoLattice(is, m); } catch (PsiException& e) { psi_note(e.what()); psi_fail("what was written cannot be read"); } }
    psi_note(m.getAllText().c_str());
    // the text after the last edge is not written
    VD last = 0;
    { Lattice::EdgesSortedByTargetIterator i = l.edgesSortedByTarget(tm.anyTag()); while (i.hasNext()) last = std::max(last, l.getEdgeTarget(i.next())); }
    psi_check(m.getAllText() == text.substr(0, last), "the text is not what was written");
    std::vector<std::string> x = all(l), y = all(m);
    for (size_t i = 0; i < x.size(); i++) psi_note(x[i].c_str());
    psi_note("---");
    for (size_t i = 0; i < y.size(); i++) psi_note(y[i].c_str());
    psi_check(x.size() == y.size(), "another number of edges");
    psi_check(x == y, "other edges");
    psi_reach("roundtrip");
    return 0;
}
