// Bracketing writer: what the patterns print, which edges get brackets, and how the brackets nest.
#include "psisym.h"
#include "lattice.hpp"
#include "bracketing_lattice_writer.hpp"
#include "bracketing_quoter.hpp"
#include <vector>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
typedef std::vector<std::string> V;
static V list(const char* a, const char* b = 0) { V v; v.push_back(a); if (b) v.push_back(b); return v; }
#if MODE <= 1
// the elements an edge shows, and the ones it shows outside join operators
static std::string num(double d) { std::ostringstream o; o << d; return o.str(); }
static std::string all(const EdgeData& e) { std::string r; for (std::map<std::string, std::string>::const_iterator i = e.avMap.begin(); i != e.avMap.end(); ++i) r += (r.empty() ? "" : ";") + i->first + "=" + i->second; return r; }
static std::string tags(const EdgeData& e) { std::string r; for (std::set<std::string>::const_iterator i = e.tags.begin(); i != e.tags.end(); ++i) r += (r.empty() ? "" : "+") + *i; return r; }
static std::string at(const EdgeData& e, const std::string& k) { std::map<std::string, std::string>::const_iterator i = e.avMap.find(k); return i == e.avMap.end() ? "" : i->second; }
static char closing(char c) { return c == '(' ? ')' : c == ')' ? '(' : c == '[' ? ']' : c == ']' ? '[' : c == '{' ? '}' : c == '}' ? '{' : c == '<' ? '>' : c == '>' ? '<' : c; }
static std::string want(const std::string& p, const EdgeData& e, const std::vector<EdgeData>& es, bool collapse);
static std::string joined(const std::string& whole, const std::string& sep, const std::string& sub, const EdgeData& e, const std::vector<EdgeData>& es, bool collapse);
// walk over a pattern: what it prints for e, and what of e that rests on
static std::string walk(const std::string& p, const EdgeData& e, V& active, std::string& sep, std::string& sub, bool& join) {
    std::string r; size_t i = 0, n = p.size();
    join = false;
    while (i < n) {
        if (p[i] != '%' || i + 1 >= n) { r += p[i++]; continue; }
        char c = p[i + 1]; std::string v;
        if (c == 'T') v = tags(e); else if (c == 'c') v = e.category; else if (c == 't') v = e.text; else if (c == 'A') v = all(e); else if (c == 's') v = num(e.score); else if (c == 'r') v = e.role;
        else if (c == 'a' || c == '*') {
            if (i + 2 >= n) { r += std::string("%") + c; i += 2; continue; }
            char o = p[i + 2], k = closing(o); size_t to = i + 3 < n ? p.find(k, i + 3) : std::string::npos;
            if (c == 'a') {
                if (to == std::string::npos) { r += "%a"; i += 2; continue; }
                v = at(e, p.substr(i + 3, to - i - 3)); r += v; active.push_back(v); i = to + 1; continue;
            }
            size_t to2 = to == std::string::npos || to + 1 >= n || p[to + 1] != o ? std::string::npos : p.find(k, to + 2);
            if (to2 == std::string::npos) { r += "%*"; i += 2; continue; }
            sep = p.substr(i + 3, to - i - 3); sub = p.substr(to + 2, to2 - to - 2); join = true; r += '\1'; i = to2 + 1; continue;
        }
        else { r += '%'; i++; continue; }
        r += v; active.push_back(v); i += 2;
    }
    return r;
}
static std::vector<V> wanted(const V& ps, const std::vector<EdgeData>& es, bool collapse) {
    std::vector<V> r;
    for (size_t i = 0; i < es.size(); i++) {
        V active, out, seps, subs; std::string sep, sub; std::vector<bool> joins;
        for (size_t k = 0; k < ps.size(); k++) { std::string s, u; bool j; out.push_back(walk(ps[k], es[i], active, s, u, j)); if (j) { sep = s; sub = u; } }
        if (!sub.empty()) {
            std::vector<EdgeData> same;
            for (size_t m = 0; m < es.size(); m++) { V a; std::string s, u; bool j; for (size_t k = 0; k < ps.size(); k++) walk(ps[k], es[m], a, s, u, j); if (a == active) same.push_back(es[m]); }
            V one; one.push_back(sub);
            std::vector<V> parts = wanted(one, same, collapse); std::string text;
            for (size_t m = 0; m < parts.size(); m++) text += (text.empty() ? "" : sep) + parts[m][0];
            if (parts.size() > 1) psi_reach("join of several");
            for (size_t k = 0; k < out.size(); k++) { size_t f = out[k].find('\1'); if (f != std::string::npos) out[k].replace(f, 1, text); }
        } else for (size_t k = 0; k < out.size(); k++) for (size_t f; (f = out[k].find('\1')) != std::string::npos; ) out[k].replace(f, 1, "%*****");
        r.push_back(out);
    }
    if (collapse) { std::sort(r.begin(), r.end()); size_t n = r.size(); r.erase(std::unique(r.begin(), r.end()), r.end()); if (r.size() < n) psi_reach("collapsed"); }
    return r;
}
static EdgeData data(unsigned i) {
    EdgeData e; unsigned what = psi_pick(FIELDS, "shape");
    e.category = what & 1 ? "X" : "Y"; e.text = what & 2 ? "a" : "b";
    if (what & 4) e.tags.insert("u"); 
    if (what & 8) e.avMap["T"] = "p";
    if (what & 16) { e.avMap["a"] = "q"; e.score = 1.5; }
    if (what & 32) e.role = "h";
    return e;
}
#endif
extern "C" int psi_main() {
#if MODE <= 1
#if MODE == 0
    // any pattern over some letters
    std::string p = psi_str_of("%*[]aTx", LEN, LEN, "pattern");
    V ps = list(p.c_str());
    bool collapse = psi_flag("collapse");
#else
    static const char* PATTERN[] = {"%c(%*[,][%t])", "%T:%*[,][%c]", "%s:%*[,][%c]", "%r:%*[,][%c]", "%A:%*[,][%c]", "%a[T]:%*[,][%c%t]", "%t%*[][%T%*(;)(%c)]", "%*[,][%c%s]", "%c%t%T%A%s%r", "%%c%q%", "%a[a]%*{,}{%t}"};
    V ps = list(PATTERN[psi_pick(11, "pattern")]);
    if (psi_flag("closing")) ps.push_back("/%c");
    bool collapse = psi_flag("collapse");
#endif
    std::vector<EdgeData> es; unsigned n = 1 + psi_pick(EDGES, "edges"); for (unsigned i = 0; i < n; i++) es.push_back(data(i));
    std::vector<V> w = wanted(ps, es, collapse), got;
    BracketPrinter bp(ps, "+", ";", "=");
    psi_note(ps[0].c_str());
    if (collapse) { std::set<EdgeData> d; for (unsigned i = 0; i < n; i++) d.insert(es[i]); std::set<EdgePrintData> r = bp.print(d); for (std::set<EdgePrintData>::iterator i = r.begin(); i != r.end(); ++i) got.push_back(i->printedElements); }
    else { std::vector<EdgePrintData> r = bp.print(es); for (size_t i = 0; i < r.size(); i++) got.push_back(r[i].printedElements); }
    for (size_t i = 0; i < w.size(); i++) psi_note(w[i][0].c_str());
    for (size_t i = 0; i < got.size(); i++) psi_note(got[i][0].c_str());
    psi_check(got.size() == w.size(), "another number of brackets");
    for (size_t i = 0; i < w.size(); i++) psi_check(got[i] == w[i], "another bracket");
    psi_reach(collapse ? "collapsing" : "not collapsing");
#elif MODE == 2
    BracketingQuoter q; std::string s = psi_str_of("\\nt\n\t\ra", 0, LEN, "text");
    psi_check(q.unescape(q.escape(s)) == s, "escaping and unescaping changes the text");
    std::string r; bool bad = false;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\') { r += s[i]; continue; } if (++i >= s.size()) { bad = true; break; } char c = s[i]; if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r'; else if (c == '\\') r += '\\'; }
    try { std::string u = q.unescape(s); psi_check(!bad, "a lone backslash is accepted"); psi_check(u == r, "unescaped to something else"); psi_reach("unescaped"); }
    catch (QuoterException&) { psi_check(bad, "a good escape is refused"); psi_reach("refused"); }
#else
    AnnotationItemManager aim; Lattice l(aim); LayerTagManager& tm = l.getLayerTagManager();
    static const char* TEXT = "a\xc5\xbc" "c"; static const int POS[] = {0, 1, 3, 4};
    l.appendString(TEXT); bool syms = psi_flag("symbols"), hide = syms && psi_flag("hide symbols"); if (syms) l.addSymbols(0, 4);
    bool tree = psi_flag("disambig"), collapse = psi_flag("collapse"), filter = psi_flag("tags");
    bool blank = psi_flag("with-blank");
    static const char* NAME[] = {"A", "B", "C", "D", "E", "F", "G"};
    unsigned n = psi_pick(EDGES + 1, "edges");
    std::vector<ED> sym; if (syms) for (int i = 0; i < 3; i++) sym.push_back(l.firstOutEdge(POS[i], tm.anyTag()));
    static const int F[] = {0, 0, 1, 0, 1, 2}, T[] = {3, 1, 3, 2, 2, 3};
    std::vector<ED> made; std::vector<unsigned> range; ED gone; bool discarded = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned s = psi_pick(RANGES, "range");
        bool tagged = !filter || psi_flag("tagged"), white = i == 0 && psi_flag("blank");
        bool again = i && !white && collapse && !tree && psi_flag("same name");
        std::string name = white ? "B" : again ? (std::string)l.getAnnotationCategory(made[0]) : i == 1 ? "Q" : NAME[i];
        Lattice::EdgeSequence::Builder b(l); std::vector<unsigned> same; for (unsigned k = 0; k < i; k++) if (range[k] == s && !again) same.push_back(k);
        unsigned from = psi_pick(same.size() + (syms ? 2 : 1), "built from");
        if (from < same.size()) b.addEdge(made[same[from]]);
        else if (from > same.size()) for (int k = F[s]; k < T[s]; k++) b.addEdge(sym[k]);
        LayerTagCollection tc = tm.createSingletonTagCollection(tagged ? "u" : "v");
        if (white) tc = createUnion(tc, tm.createSingletonTagCollection("token"));
        AnnotationItem item(name); if (again) aim.setValue(item, "k", "v");
        made.push_back(l.addEdge(POS[F[s]], POS[T[s]], item, tc, b.build())); range.push_back(s);
        if (i + 1 == n && psi_flag("discarded")) { l.discard(made.back()); discarded = true; psi_reach("discarded"); }
    }
    if (LOOSE && psi_flag("loose")) {   // an annotation that lies nowhere in the text
        VD a = l.addLooseVertex(), b = psi_flag("half") ? (VD)POS[3] : l.addLooseVertex();
        l.addEdge(a, b, AnnotationItem("L"), tm.createSingletonTagCollection("u"), Lattice::EdgeSequence()); psi_reach("loose");
    }
    // the edges that are to be shown
    struct E { ED e; int from, to; bool shown; std::string name; std::vector<ED> parts; };
    std::vector<E> es; bool hidden = false;
    for (int i = 0; i < 3; i++) for (Lattice::InOutEdgesIterator k = l.allOutEdges(POS[i]); k.hasNext(); ) {
        E x; x.e = k.next(); x.from = POS[i]; x.to = l.getEdgeTarget(x.e); x.name = l.getAnnotationCategory(x.e);
        LayerTagCollection tc = l.getEdgeLayerTags(x.e);
        x.shown = !l.isDiscarded(x.e) && (blank || !(tm.isThere("token", tc) && x.name == "B")) && !(hide && tm.isThere("symbol", tc)) && (!filter || tm.isThere("u", tc));
        if (!x.shown) hidden = true;
        std::list<Lattice::Partition> ps = l.getEdgePartitions(x.e);
        if (!ps.empty()) for (Lattice::Partition::Iterator p(l, ps.front()); p.hasNext(); ) x.parts.push_back(p.next());
        es.push_back(x);
    }
    std::ostringstream o;
    { BracketingLatticeWriter w("<%c>", "</%c>", ",", V(), filter ? list("u") : V(), ",", "=", V(), !hide, !blank, collapse, tree); w.writeLattice(l, o); }
    std::string out = o.str(), plain; psi_note(out.c_str());
    std::vector<V> opens(5), closes(5); std::vector<std::pair<int, std::string> > stack; bool nested = true; int turn = 0;
    struct B { int from, to; std::string name; size_t at; bool operator<(const B& b) const { return from != b.from ? from < b.from : to != b.to ? to > b.to : at < b.at; } };
    std::vector<B> bs;
    for (size_t i = 0; i < out.size(); i++) {
        size_t p = plain.size();
        if (out[i] != '<') { plain += out[i]; continue; }
        psi_check(p < 5 && p != 2, "a bracket inside a character");
        size_t e = out.find('>', i); psi_check(e != std::string::npos, "a bracket is cut"); 
        std::string name = out.substr(i + 1, e - i - 1); bool close = !name.empty() && name[0] == '/'; if (close) name.erase(0, 1);
        if (!close) { opens[p].push_back(name); stack.push_back(std::make_pair((int)p, name)); }
        else {
            psi_check(opens[p].empty(), "a bracket is closed after another one opens at its end"); closes[p].push_back(name);
            if (stack.empty() || stack.back().second != name) nested = false;
            else { B b = {stack.back().first, (int)p, name, stack.size()}; bs.push_back(b); stack.pop_back(); }
        }
        i = e;
    }
    if (!stack.empty()) nested = false;
    psi_check(plain == TEXT, "the text between the brackets is not the text");
    if (!tree) {
        for (int at = 0; at < 2; at++) for (int q = 0; q < 4; q++) {
            size_t c = 0, p = POS[q];
            for (int k = 3; k >= 0; k--) {
                int from = at ? POS[k] : p, to = at ? p : POS[k]; if (from >= to) continue;
                V w; for (size_t x = 0; x < es.size(); x++) if (es[x].shown && es[x].from == from && es[x].to == to) w.push_back(es[x].name);
                std::sort(w.begin(), w.end()); if (collapse) { size_t m = w.size(); w.erase(std::unique(w.begin(), w.end()), w.end()); if (w.size() < m) psi_reach("collapsed"); }
                const V& all = at ? closes[p] : opens[p];
                psi_check(c + w.size() <= all.size(), "a bracket is missing");
                V g(all.begin() + c, all.begin() + c + w.size()); c += w.size(); V s = g; std::sort(s.begin(), s.end());
                psi_check(s == w, "the brackets of a range are others");
                if (at) continue;
                // the matching closing brackets, in reverse
                size_t f = 0; for (int m = 3; POS[m] > from; m--) {
                    // those that start later come first
                    std::set<std::string> seen; if (POS[m] >= to) continue;
                    for (size_t x = 0; x < es.size(); x++) if (es[x].shown && es[x].from == POS[m] && es[x].to == to && (!collapse || seen.insert(es[x].name).second)) f++;
                }
                psi_check(f + g.size() <= closes[to].size(), "a closing bracket is missing");
                V h(closes[to].begin() + f, closes[to].begin() + f + g.size()); std::reverse(h.begin(), h.end());
                psi_check(h == g, "brackets over the same range are closed in another order");
                // an edge lies outside the one it was built from
                if (!collapse) for (size_t x = 0; x < es.size(); x++) for (size_t y = 0; y < es.size(); y++)
                    if (es[x].shown && es[y].shown && es[x].from == from && es[x].to == to && es[y].from == from && es[y].to == to && !es[y].parts.empty() && es[y].parts[0] == es[x].e) {
                        psi_check(std::find(g.begin(), g.end(), es[y].name) < std::find(g.begin(), g.end(), es[x].name), "an edge lies inside the one it was built from"); psi_reach("built from");
                    }
            }
            psi_check(c == (at ? closes[p] : opens[p]).size(), "there are brackets too many");
        }
        psi_reach(collapse ? "collapsing" : "not collapsing");
    } else {
        psi_check(nested, "the brackets do not nest");
        std::set<std::string> seen; std::sort(bs.begin(), bs.end());
        for (size_t i = 0; i < bs.size(); i++) {
            bool ok = false; for (size_t x = 0; x < es.size(); x++) if (es[x].shown && es[x].from == bs[i].from && es[x].to == bs[i].to && es[x].name == bs[i].name) {
                ok = true;
                // what it was built from comes with it, inside
                for (size_t k = 0; k < es[x].parts.size(); k++) for (size_t y = 0; y < es.size(); y++) if (es[y].e == es[x].parts[k] && es[y].shown) {
                    bool in = false; for (size_t m = 0; m < bs.size(); m++) if (bs[m].name == es[y].name && bs[m].from == es[y].from && bs[m].to == es[y].to) in = collapse || m > i;
                    psi_check(in, "a part of a shown edge is not shown inside it"); psi_reach("parts");
                }
            }
            psi_check(ok, "a bracket for an edge that is not to be shown");
            psi_check(seen.insert(bs[i].name + "/" + std::string(1, '0' + bs[i].from)).second, "an edge is shown twice");
        }
        if (!hidden) {
            for (int v = 0; v < 4; ) {
                int far = v; for (size_t x = 0; x < es.size(); x++) if (es[x].from == v && es[x].to > far) far = es[x].to;
                if (far == v) break;
                bool in = false; for (size_t i = 0; i < bs.size(); i++) if (bs[i].from == v && bs[i].to == far) in = true;
                psi_check(in, "the longest edge is not chosen"); v = far; psi_reach("longest");
            }
        }
        psi_reach("disambiguated");
    }
#endif
    return 0;
}
