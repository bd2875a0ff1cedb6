// Lattice: iteration, corrections, cutters, sequences.
#include "psisym.h"
#include "lattice.hpp"
#include <vector>
#include <algorithm>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
static std::vector<std::string> ch;      // characters of the text
static std::vector<VD> at;               // their positions, and the end
static std::string anyChar(unsigned kinds, const char* name) { unsigned k = psi_pick(kinds, name); return psi_utf8(k, name); }
static std::string makeText(unsigned lo, unsigned hi) {
    unsigned n = lo + psi_pick(hi - lo + 1, "chars"); std::string t;
    if (NPOOL == 0) { n = 3; static const char* T[] = {"a", "\xc5\xbc", "a"}; for (int i = 0; i < 3; i++) { at.push_back(t.size()); ch.push_back(T[i]); t += T[i]; } at.push_back(t.size()); return t; }
    for (unsigned i = 0; i < n; i++) { at.push_back(t.size()); ch.push_back(anyChar(NPOOL + !NPOOL, "char")); t += ch.back(); }
    at.push_back(t.size());
    return t;
}
static LayerTagCollection tag(Lattice& l, const std::string& n) { return l.getLayerTagManager().createSingletonTagCollection(n); }
static std::string show(Lattice& l, ED e) { char b[48]; snprintf(b, sizeof b, "%d %d ", l.getEdgeSource(e), l.getEdgeTarget(e)); return b + l.getAnnotationCategory(e); }
#if MODE == 0
static bool spells(Lattice& l, VD v, const std::string& s, size_t i, VD last, bool openEnd, unsigned depth) {
    psi_check(depth < 20, "symbol edges form a cycle");
    bool out = false;
    Lattice::InOutEdgesIterator it = l.outEdges(v, l.getSymbolMask());
    if (i == s.size() && v == last) return true;
    while (it.hasNext()) {
        out = true;
        ED e = it.next(); std::string c = l.getAnnotationText(e);
        psi_check(!c.empty(), "a symbol without text");
        if (s.compare(i, c.size(), c) == 0 && spells(l, l.getEdgeTarget(e), s, i + c.size(), last, openEnd, depth + 1)) return true;
    }
    return openEnd && i == s.size() && !out;
}
extern "C" int psi_main() {
    AnnotationItemManager aim;
    std::string t = makeText(1, CH);
    Lattice l(aim, t);
    l.addSymbols(l.getFirstVertex(), l.getLastVertex());
    unsigned n = ch.size(), op = psi_pick(3, "op");
    unsigned i = psi_pick(n + 1, "from"), j = op == 0 ? i : i + psi_pick(n - i + 1, "length");
    std::string ins; unsigned k = op == 1 ? 0 : psi_pick(INS + 1, "inserted");
    for (unsigned x = 0; x < k; x++) ins += anyChar(2, "new");
    std::string want = t.substr(0, at[i]) + ins + t.substr(at[j]);
    bool refused = false;
    try {
        if (op == 0) l.correctionInsert(at[i], ins);
        else if (op == 1) l.correctionErase(at[i], at[j]);
        else l.correctionReplace(at[i], at[j], ins);
    } catch (WrongVertexException&) { refused = true; }
    psi_observe("refused", refused);
    // erasing up to the very end is not possible, everything else is
    psi_check(refused == (j == n && j - i > k), "a possible correction is refused, or an impossible one is not");
    psi_check(l.getAllText() == t && spells(l, 0, t, 0, at[n], false, 0), "the original text cannot be read any more");
    if (!refused) psi_check(spells(l, 0, want, 0, at[n], j == n && k > j - i, 0), "no path through the symbols spells the corrected text");
    psi_reach(refused ? "refused" : op == 0 ? "insert" : op == 1 ? "erase" : "replace");
    return 0;
}
#elif MODE == 1
#ifdef ALLDISTURB
#define DISTURB 6
#else
#define DISTURB 3
#endif
extern "C" int psi_main() {
    AnnotationItemManager aim;
    std::string t = makeText(3, 3);
    Lattice l(aim, t);
    if (psi_flag("symbols")) l.addSymbols(0, at[3]);
    static const char* T[] = {"t", "u"};
    std::vector<std::string> want[2][2];   // [kind of iteration][t only, all]
    unsigned edges = 1 + psi_pick(3, "edges");
    std::vector<ED> es;
    for (unsigned i = 0; i < edges; i++) {
        unsigned f = psi_pick(2, "from"), to = 2 + psi_pick(2, "to"); if (f == to) to++;
        char c[8]; snprintf(c, sizeof c, "x%u", i);
        es.push_back(l.addEdge(at[f], at[to], AnnotationItem(c), tag(l, T[psi_pick(2, "tag")])));
    }
    unsigned kind = psi_pick(6, "iteration");
    LayerTagMask mt = l.getLayerTagManager().getMask("t"), mu = l.getLayerTagManager().getMask("u");
    std::vector<std::string> plain, mixed;
    unsigned disturb = psi_pick(DISTURB, "lookup after");
    for (int pass = 0; pass < 2; pass++) {
        // the second lattice is built in the same way, and asked about other masks in the middle of the iteration
        std::vector<std::string>& r = pass ? plain : mixed;
        unsigned n = 0;
#define RUN(IT) { IT; while (it.hasNext()) { psi_check(n < 50, "an iteration does not end"); if (!pass && n == disturb) { \
            l.outEdges(0, mu).hasNext(); try { l.firstInEdge(at[3], l.getLayerTagManager().getMask("v")); } catch (NoEdgeException&) {} \
            l.edgesSortedByTarget(l.getLayerTagManager().getMask("w")).hasNext(); \
            for (unsigned x = 0; x < at.size(); x++) { l.outEdges(at[x], mt).hasNext(); l.inEdges(at[x], mt).hasNext(); l.allOutEdges(at[x]).hasNext(); l.allInEdges(at[x]).hasNext(); } \
            l.edgesSortedBySource(mt).hasNext(); try { l.firstOutEdge(0, mt); l.firstInEdge(at[3], mt); } catch (NoEdgeException&) {} l.countEdges(0, at[3]); } r.push_back(show(l, it.next())); n++; } }
        switch (kind) {
        case 0: RUN(Lattice::InOutEdgesIterator it = l.outEdges(0, mt)) break;
        case 1: RUN(Lattice::InOutEdgesIterator it = l.inEdges(at[3], mt)) break;
        case 2: RUN(Lattice::InOutEdgesIterator it = l.allOutEdges(0)) break;
        case 3: RUN(Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(mt)) break;
        case 4: RUN(Lattice::EdgesSortedByTargetIterator it = l.edgesSortedByTarget(mt)) break;
        case 5: RUN(Lattice::EdgesSortedBySourceIterator it = l.allEdgesSortedBySource()) break;
        }
    }
    psi_observe("n", plain.size());
    psi_check(plain == mixed, "a lookup in the middle of an iteration changes what is iterated over");
    psi_reach("iterated");
    return 0;
}
#elif MODE == 2
struct C : Cutter {
    unsigned seg; std::vector<size_t> b;
    template <class T> AnnotationItem cut(const T& text, size_t& pos) {
        size_t p = pos, e = pos; unsigned k = 0;
        while (e < text.length() && k < seg) { e++; while (e < text.length() && ((unsigned char)text[e] & 0xc0) == 0x80) e++; k++; }
        pos = e;
        return AnnotationItem("T", StringFrag(text, p, e - p));
    }
    AnnotationItem doCutOff(const std::string& t, size_t& p) { return cut(t, p); }
    AnnotationItem doCutOff(const StringFrag& t, size_t& p) { return cut(t, p); }
    void doReset() {}
    size_t doSegmentLengthHardLimit() { return 0; }
    size_t doSegmentLengthSoftLimit() { return 0; }
    std::list<std::string> doLayerTags() { return std::list<std::string>(1, "token"); }
};
extern "C" int psi_main() {
    AnnotationItemManager aim;
    std::string t = makeText(1, CH);
    unsigned n = ch.size();
    Lattice l(aim, t);
    unsigned order = psi_pick(3, "order");
    if (order == 2) for (unsigned i = 0; i < n; i++) l.addEdge(at[i], at[i + 1], AnnotationItem("'" + ch[i]), createUnion(l.getSymbolTag(), tag(l, "frag")));  // as read from a file: explicit symbols without an annotation text
    if (order == 0) l.addSymbols(0, at[n]);
    // the parts of the text that are cut, given by super edges
    unsigned cutAt = psi_pick(n + 1, "cut at"); bool second = cutAt > 0 && cutAt < n && psi_flag("second part");
    unsigned f0 = 0, t0 = cutAt == 0 ? n : cutAt;
    if (order == 1) l.addSymbols(0, at[n]);
    l.addEdge(at[f0], at[t0], AnnotationItem("S"), tag(l, "seg"));
    if (second) l.addEdge(at[t0], at[n], AnnotationItem("S"), tag(l, "seg"));
    // some symbols get more tags, so that they are not hidden any more
    unsigned ex = psi_pick(n + 1, "explicit");
    if (ex < n) l.addEdge(at[ex], at[ex + 1], AnnotationItem("'" + ch[ex], StringFrag(ch[ex])), tag(l, "extra"));
    C c; c.seg = 1 + psi_pick(2, "per token");
    l.runCutter(c, l.getSymbolMask(), l.getLayerTagManager().getMask("seg"));
    // what the cutter must have produced: note that the path of symbols runs to the end of the text
    std::vector<std::string> want, got;
    Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(l.getLayerTagManager().getMask("token"));
    std::string tok; VD last = -1;
    while (it.hasNext()) {
        ED e = it.next();
        VD s = l.getEdgeSource(e), d = l.getEdgeTarget(e);
        psi_observe("token", (uint64_t)d);
        psi_check(s >= 0 && d > s, "a token without length");
        psi_check(l.getAnnotationText(e) == t.substr(s, d - s), "the text of a token is not the text it covers");
        psi_check(l.getEdgeText(e) == t.substr(s, d - s) && l.getEdgeLength(e) == d - s && l.getEdgeTextAsStringFrag(e).str() == t.substr(s, d - s), "edge text");
        const std::list<Lattice::Partition>& ps = l.getEdgePartitions(e);
        for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end(); ++p) {
            const Lattice::EdgeSequence& q = p->getSequence();
            psi_check(l.getPartitionText(*p) == t.substr(s, d - s) && l.getSequenceTextAsStringFrag(q).str() == t.substr(s, d - s), "a token does not consist of the symbols it covers");
            unsigned k = 0; VD v = s;
            Lattice::EdgeSequence::Iterator si(l, q);
            while (si.hasNext()) {
                ED x = si.next();
                psi_check(l.getEdgeSource(x) == v, "the symbols of a token are not adjacent");
                psi_check(q.nthEdge(l, k) == x, "nthEdge");
                if (k == 0) psi_check(q.firstEdge(l) == x, "firstEdge");
                v = l.getEdgeTarget(x); k++;
                if (!si.hasNext()) psi_check(q.lastEdge(l) == x, "lastEdge");
            }
            psi_check(v == d && q.size(l) == k && !q.empty(), "size of a sequence");
        }
        got.push_back(show(l, e));
    }
    for (int part = 0; part < (second ? 2 : 1); part++) {
        unsigned p = part ? t0 : 0;
        while (p < n) { unsigned e = std::min(n, p + c.seg); char b[48]; snprintf(b, sizeof b, "%d %d T", at[p], at[e]); if (std::find(want.begin(), want.end(), b) == want.end()) want.push_back(b); p = e; }
    }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    psi_check(got == want, "the tokens are not the segments that the cutter found");
    // a path of symbols from any character runs to the end of the text
    unsigned from = psi_pick(n + 1, "path from"); VD v = at[from];
    Lattice::EdgeSequence path = l.getPath(v, l.getSymbolMask());
    psi_check(v == at[n] && l.getSequenceText(path) == t.substr(at[from]) && path.size(l) == n - from && path.empty() == (from == n), "the path of symbols");
    psi_reach(second ? "two parts" : "one part");
    return 0;
}
#elif MODE == 3
extern "C" int psi_main() {
    AnnotationItemManager aim;
    std::string t = makeText(3, 3);
    Lattice l(aim, t);
    l.addSymbols(0, at[3]);
    static const char* P[] = {"x", "!p", "!q"};
    std::vector<ED> pool; std::vector<unsigned> planes;
    for (int i = 0; i < 3; i++) { pool.push_back(l.firstOutEdge(at[i], l.getSymbolMask())); planes.push_back(0); }
    // edges in different planes
    for (int i = 0; i < 3; i++) {
        std::list<std::string> n(1, "t"); if (i) n.push_back(P[i]);
        pool.push_back(l.addEdge(0, at[1 + i % 2], AnnotationItem(P[i]), l.getLayerTagManager().createTagCollection(n))); planes.push_back(i);
    }
    // a sequence of any edges
    unsigned k = psi_pick(SEQ + 1, "length"); std::vector<unsigned> seq;
    bool hide = psi_flag("hidden");
    if (hide) l.addEdge(0, at[3], AnnotationItem("cover"), tag(l, "cover"));
    Lattice::EdgeSequence::Builder b(l);
    unsigned wantPlanes = 0;
    for (unsigned i = 0; i < k; i++) { unsigned e = psi_pick(6, "edge"); seq.push_back(e); b.addEdge(pool[e]); if (planes[e]) wantPlanes |= 1u << planes[e]; }
    Lattice::EdgeSequence s = b.build();
    unsigned i = 0;
    Lattice::EdgeSequence::Iterator it(l, s);
    while (it.hasNext()) { ED e = it.next(); psi_check(i < k && e == pool[seq[i]], "a sequence does not hold the edges it was built from"); i++; }
    psi_check(i == k && s.size(l) == k && s.empty() == (k == 0), "a sequence does not hold all edges it was built from");
    for (i = 0; i < k; i++) psi_check(s.nthEdge(l, i) == pool[seq[i]], "nthEdge");
    if (k) { psi_check(s.firstEdge(l) == pool[seq[0]], "firstEdge"); psi_check(s.lastEdge(l) == pool[seq[k - 1]], "lastEdge"); }
    // a new edge made of them inherits their planes, unless it has planes of its own
    unsigned own = psi_pick(3, "own plane");
    std::list<std::string> n(1, "n"); if (own) n.push_back(P[own]);
    ED e = l.addEdge(0, at[3], AnnotationItem("new"), l.getLayerTagManager().createTagCollection(n), s, 1.5, 7, 3);
    unsigned got = 0;
    for (int p = 1; p < 3; p++) if (l.getLayerTagManager().isThere(P[p], l.getEdgeLayerTags(e))) got |= 1u << p;
    psi_observe("planes", got);
    psi_check(got == (own ? 1u << own : wantPlanes), "the planes of an edge are not those of its parts");
    const std::list<Lattice::Partition>& ps = l.getEdgePartitions(e);
    psi_check(ps.size() == 1 && ps.front().getRuleId() == 7 && ps.front().getTreeChoice() == 3 && ps.front().getScore() == 1.5 && l.getSequenceText(ps.front().getSequence()) == l.getSequenceText(s), "the alternative of an edge was not kept");
    // relations between an edge and its parts
    boost::optional<ED> parent = l.getParent(e);
    psi_check(k ? parent && *parent == pool[seq[0]] : !parent, "the first part of an edge");
    boost::optional<ED> pt = l.getParent(e, l.getLayerTagManager().getMask("t"));
    int first = -1; for (i = 0; i < k && first < 0; i++) if (seq[i] >= 3) first = i;
    psi_check(first >= 0 ? pt && *pt == pool[seq[first]] : !pt, "the first part with a tag");
    // an edge cannot be a part of itself
    { Lattice::EdgeSequence::Builder sb(l); sb.addEdge(pool[0]); sb.addEdge(e); bool thrown = false;
      try { l.addPartitionToEdge(e, tag(l, "n"), sb.build()); } catch (EdgeSelfReferenceException&) { thrown = true; }
      psi_check(thrown, "an edge became a part of itself"); psi_check(l.getEdgePartitions(e).size() == 1, "the refused alternative was kept"); }
    { bool thrown = false; try { l.addEdge(at[1], at[1], AnnotationItem("z"), tag(l, "z")); } catch (LoopEdgeException&) { thrown = true; } psi_check(thrown, "an edge without length was accepted"); }
    { bool thrown = false; try { l.addEdge(at[2], at[1], AnnotationItem("z"), tag(l, "z")); } catch (ReversedEdgeException&) { thrown = true; } psi_check(thrown, "a reversed edge was accepted"); }
    psi_check(!l.allOutEdges(at[2]).hasNext() || l.getAnnotationCategory(l.firstOutEdge(at[2], l.getLayerTagManager().anyTag())) != "z", "a refused edge is there");
    psi_reach(k == 0 ? "empty" : "sequence");
    return 0;
}
#elif MODE == 4
extern "C" int psi_main() {
    AnnotationItemManager aim;
    std::string t = makeText(3, 3);
    Lattice l(aim, t);
    LayerTagMask mask = l.getLayerTagManager().getMask("t");
    if (psi_flag("symbols")) l.addSymbols(0, at[3]);
    unsigned edges = psi_pick(EDGES + 1, "edges");
    for (unsigned i = 0; i < edges; i++) {
        unsigned f = psi_pick(3, "from"), to = f + 1 + psi_pick(3 - f, "to");
        // an edge with the tag, a blank (which may have it as well), or something else
        unsigned kind = psi_pick(4, "kind");
        char c[8]; snprintf(c, sizeof c, kind == 1 || kind == 2 ? "B" : "x%u", i);
        std::list<std::string> n; if (kind != 3) n.push_back(kind == 1 ? "token" : "t"); if (kind == 2) n.push_back("token"); if (kind == 3) n.push_back("v");
        l.addEdge(at[f], at[to], AnnotationItem(c), l.getLayerTagManager().createTagCollection(n));
    }
    VD start = at[psi_pick(4, "start")], v = start;
    Lattice::EdgeSequence p = l.getPathSkippingBlanks(v, mask);
    Lattice::EdgeSequence::Iterator it(l, p); VD w = start; unsigned n = 0;
    while (it.hasNext()) {
        ED e = it.next();
        psi_check(++n <= 3 && l.getEdgeSource(e) == w, "the edges of a path do not follow each other");
        bool tagged = l.outEdges(w, mask).hasNext(), blank = false;
        Lattice::InOutEdgesIterator o = l.allOutEdges(w); while (o.hasNext()) blank |= l.isBlank(o.next());
        bool has = l.getLayerTagManager().isThere("t", l.getEdgeLayerTags(e));
        psi_check(has == tagged, "the path leaves the edges with the tag");
        if (!tagged) psi_check(l.isBlank(e) == blank, "the path does not go along the blank edge");
        w = l.getEdgeTarget(e);
    }
    psi_observe("n", n);
    psi_check(w == v, "the end of the path"); psi_check(!l.allOutEdges(w).hasNext(), "the path ends too early");
    // without skipping: only edges with the tag
    v = w = start;
    Lattice::EdgeSequence q = l.getPath(v, mask); Lattice::EdgeSequence::Iterator qi(l, q);
    while (qi.hasNext()) { ED e = qi.next(); psi_check(l.getEdgeSource(e) == w && l.getLayerTagManager().isThere("t", l.getEdgeLayerTags(e)), "a path of tagged edges"); w = l.getEdgeTarget(e); }
    psi_check(w == v && !l.outEdges(w, mask).hasNext(), "the end of a path of tagged edges");
    psi_reach(n ? "path" : "no path");
    return 0;
}
#endif
