// The lattice against a plain list of edges.
#include "psisym.h"
#include "lattice.hpp"
#include <vector>
#include <set>
#include <algorithm>
#include <type_traits>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
static const char* TAGS[] = {"symbol", "t", "u", "!p", "discarded"};
// identity of an edge: its ends, its category and its plane; its other tags may be symbolic
struct ME { VD from, to; std::string cat; bool plane; unsigned tags; double score; unsigned parts; };
static std::vector<ME> model;
static std::string keyOf(VD f, VD t, const std::string& c, bool plane) {
    char b[64]; snprintf(b, sizeof b, "%d %d %d ", f, t, (int)plane); return b + c;
}
static std::string keyOf(const ME& m) { return keyOf(m.from, m.to, m.cat, m.plane); }
static unsigned bits(Lattice& l, const LayerTagCollection& c) {
    unsigned r = 0;
    for (int k = 0; k < 5; k++) r |= (unsigned)l.getLayerTagManager().isThere(TAGS[k], c) << k;
    return r;
}
static LayerTagCollection coll(Lattice& l, unsigned b) {
    std::list<std::string> n; for (int k = 0; k < 5; k++) if (b >> k & 1) n.push_back(TAGS[k]);
    return l.getLayerTagManager().createTagCollection(n);
}
// the fixed tags and any of the others that may be there
static LayerTagCollection anyColl(Lattice& l, unsigned fixed, unsigned may) {
    LayerTagCollection lo = coll(l, fixed), hi = coll(l, fixed | may), c = lo;
    if (may == 0) return lo;
    if (std::is_trivially_copyable<LayerTagCollection>::value && sizeof c == 8) {
        psi_sym(&c, sizeof c, "tags"); psi_assume(isSubset(lo, c)); psi_assume(isSubset(c, hi)); psi_assume(c != coll(l, 0));
    } else for (int k = 0; k < 5; k++) if ((may >> k & 1) && psi_flag("tag")) c = createUnion(c, coll(l, 1u << k));
    return c;
}
static std::string describe(Lattice& l, ED e) { return keyOf(l.getEdgeSource(e), l.getEdgeTarget(e), l.getAnnotationCategory(e), l.getLayerTagManager().isThere("!p", l.getEdgeLayerTags(e))); }
static ME* find(VD f, VD t, const std::string& cat, bool plane) {
    for (size_t i = 0; i < model.size(); i++)
        if (model[i].from == f && model[i].to == t && model[i].cat == cat && model[i].plane == plane) return &model[i];
    return 0;
}
static void add(VD f, VD t, const std::string& cat, bool plane, unsigned tags, double score) {
    if (ME* m = find(f, t, cat, plane)) { m->tags |= tags; m->score = std::max(m->score, score); m->parts++; return; }
    ME m = {f, t, cat, plane, tags, score, 1}; model.push_back(m);
}
static bool match(unsigned tags, unsigned mask) { return mask == 0 || (tags & mask) == mask; }
static LayerTagMask maskOf(Lattice& l, unsigned m) { return m == 0 ? l.getLayerTagManager().anyTag() : l.getLayerTagManager().getMask(coll(l, m)); }
// the identities of the edges; their tags must be those of the model
template <class I> static std::vector<std::string> all(Lattice& l, I it) {
    std::vector<std::string> r; unsigned n = 0;
    while (it.hasNext()) {
        ED e = it.next(); r.push_back(describe(l, e));
        const ME* m = 0; for (size_t i = 0; i < model.size(); i++) if (keyOf(model[i]) == r.back()) m = &model[i];
        psi_check(m != 0, "an edge that was never added");
        psi_check(bits(l, l.getEdgeLayerTags(e)) == m->tags, "the tags of an edge are not those that it was given");
        psi_check(++n < 100, "an edge iterator does not end");
    }
    return r;
}
static std::vector<VD> vertices;
static void compare(Lattice& l, unsigned mask) {
    LayerTagMask m = maskOf(l, mask);
    for (size_t v = 0; v < vertices.size(); v++) for (int in = 0; in < 2; in++) {
        std::vector<std::string> want, got = in ? all(l, l.inEdges(vertices[v], m)) : all(l, l.outEdges(vertices[v], m));
        for (size_t i = 0; i < model.size(); i++) if ((in ? model[i].to : model[i].from) == vertices[v] && match(model[i].tags, mask)) want.push_back(keyOf(model[i]));
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        psi_observe("edges", got.size());
        psi_check(got == want, in ? "the edges entering a vertex are not those that were added" : "the edges leaving a vertex are not those that were added");
        try { ED e = in ? l.firstInEdge(vertices[v], m) : l.firstOutEdge(vertices[v], m); psi_check(std::find(want.begin(), want.end(), describe(l, e)) != want.end(), "first edge"); }
        catch (NoEdgeException&) { psi_check(want.empty(), "an edge was not found"); }
    }
}
static void compareSorted(Lattice& l, unsigned mask, bool loose) {
    LayerTagMask m = maskOf(l, mask);
    std::vector<std::string> want, got;
    for (size_t i = 0; i < model.size(); i++) if (match(model[i].tags, mask)) want.push_back(keyOf(model[i]));
    std::sort(want.begin(), want.end());
    int last = -100; bool sorted = true; unsigned n = 0;
    Lattice::EdgesSortedBySourceIterator s = l.edgesSortedBySource(m);
    while (s.hasNext()) { ED e = s.next(); got.push_back(describe(l, e)); VD v = l.getEdgeSource(e); if (v >= 0) { sorted &= v >= last; last = v; } psi_check(++n < 100, "sorted edges do not end"); }
    std::sort(got.begin(), got.end());
    psi_check(got == want, "the edges sorted by source are not all edges");
    psi_check(sorted, "the edges are not sorted by source");
    got.clear(); last = -100; sorted = true; n = 0;
    Lattice::EdgesSortedByTargetIterator t = l.edgesSortedByTarget(m);
    while (t.hasNext()) { ED e = t.next(); got.push_back(describe(l, e)); VD v = l.getEdgeTarget(e); if (v >= 0) { sorted &= v >= last; last = v; } psi_check(++n < 100, "sorted edges do not end"); }
    std::sort(got.begin(), got.end());
    psi_check(got == want, "the edges sorted by target are not all edges");
    psi_check(sorted, "the edges are not sorted by target");
    (void)loose;
}
static AnnotationItem item(const std::string& cat) { return cat[0] == '\'' ? AnnotationItem(cat, StringFrag(cat.substr(1))) : AnnotationItem(cat); }
extern "C" int psi_main() {
    AnnotationItemManager aim;
    static const char* TEXTS[] = {"a\xc5\xbc", "ab", "\xe2\x82\xac" "b"};
    std::string text = TEXTS[psi_pick(NTEXTS, "text")];
    Lattice l(aim, text);
    VD mid = l.getAllText()[0] == 'a' ? 1 : 3, end = text.size();
    std::string c0 = "'" + text.substr(0, mid), c1 = "'" + text.substr(mid);
    if (psi_flag("symbols")) { l.addSymbols(0, end); add(0, mid, c0, false, 1, 0); add(mid, end, c1, false, 1, 0); }
    bool loose = LOOSE && psi_flag("loose");
    vertices.push_back(0); vertices.push_back(mid); vertices.push_back(end);
    VD lv = -1;
    if (loose) { lv = l.addLooseVertex(); vertices.push_back(lv); }
    // masks that are asked about before the edges come
    unsigned early = psi_pick(3, "early mask"), when = early ? psi_pick(OPS, "asked before") : 0;
    for (int k = 0; k < OPS; k++) {
        if (early && (int)when == k) compare(l, early == 1 ? 2 : 1);
        unsigned op = psi_pick(4, "op");
        unsigned pair = psi_pick(loose ? 4 : 3, "pair");
        VD f = pair == 1 ? mid : pair == 3 ? lv : 0, t = pair == 0 ? mid : pair == 3 ? end : pair == 2 && loose && op == 1 ? lv : end;
        std::string sym = pair == 0 ? c0 : pair == 1 ? c1 : "x";
        if (op == 3) {          // discard an edge
            if (model.empty()) continue;
            size_t i = pair < model.size() ? pair : model.size() - 1;
            ED found; bool ok = false;
            Lattice::InOutEdgesIterator it = l.allOutEdges(model[i].from);
            std::string want = keyOf(model[i]);
            while (it.hasNext()) { ED e = it.next(); if (describe(l, e) == want) { found = e; ok = true; } }
            psi_check(ok, "an added edge was not found");
            l.discard(found);
            psi_reach("discard");
            model[i].tags |= 16; model[i].parts++;
            continue;
        }
        // what is added: a symbol, or another item with any tags, or the symbol's item with other tags
        std::string cat = op == 0 ? sym : op == 1 ? "x" : sym;
        bool plane = op == 1 && psi_flag("plane");
        LayerTagCollection tags = op == 0 ? coll(l, 1) : anyColl(l, plane ? 8 : 0, 6);
        static const double SC[] = {0, 2.5, -0.5};
        double score = k == 1 ? SC[psi_pick(op == 1 && !plane ? 3 : 2, "score")] : 0;
        ED e = l.addEdge(f, t, item(cat), tags, Lattice::EdgeSequence(), score);
        bool isSym = cat[0] == '\'';
        add(f, t, cat, plane, bits(l, tags), score);
        const ME* m = find(f, t, cat, plane);
        psi_check(describe(l, e) == keyOf(*m) && bits(l, l.getEdgeLayerTags(e)) == m->tags, "the returned edge is not the one that was added or extended");
        if (!isSym) { psi_check(l.getEdgeScore(e) == m->score, "the score of an edge is not the best one given"); psi_check(l.getEdgePartitions(e).size() == m->parts, "an alternative of an edge was lost"); }
        psi_check(l.isDiscarded(e) == ((m->tags & 16) != 0), "isDiscarded");
    }
    for (unsigned m = 0; m < 4; m++) compare(l, m == 3 ? 6 : m);
    compare(l, 16);
    compareSorted(l, 0, loose); compareSorted(l, 2, loose);
    for (size_t a = 0; a < vertices.size(); a++) for (size_t b = 0; b < vertices.size(); b++) {
        unsigned n = 0; for (size_t i = 0; i < model.size(); i++) n += model[i].from == vertices[a] && model[i].to == vertices[b];
        psi_observe("n", n);
        psi_check((unsigned)l.countEdges(vertices[a], vertices[b]) == n, "the number of edges between two vertices");
    }
    psi_reach(loose ? "loose" : "plain");
    return 0;
}
