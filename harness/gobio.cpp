// Chart parser: for any context-free grammar with rules of one or two parts, the edges are what the grammar derives.
#include "psisym.h"
#include "logging.hpp"
#include "agenda.hpp"
#include "agenda_parser.tpl"
#include "av_ai_converter.hpp"
#include "chart.tpl"
#include "limit_checker.hpp"
#include "registrar.tpl"
#include "simple_cfg_combinator.tpl"
#include <vector>
#include <string>
#include <algorithm>
static const char SYM[] = "abST";
#define SYMBOLS std::string(SYM, NSYM).c_str()
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
typedef std::string C;
typedef simple_cfg_rule<C> Rule;
typedef simple_cfg_combinator<C, Rule> Combinator;
typedef chart<C, Lattice::Score, C, Rule, simple_marked_edges_index> Chart;
struct R { bool binary; C lhs, a, b; double score; };
struct Item { VD u, v; C cat; };
static std::vector<Item> derived;
static bool there(VD u, VD v, const C& c) { for (size_t i = 0; i < derived.size(); i++) if (derived[i].u == u && derived[i].v == v && derived[i].cat == c) return true; return false; }
static void derive(VD u, VD v, const C& c) { if (!there(u, v, c)) { Item i = {u, v, c}; derived.push_back(i); } }
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim); LayerTagManager& tm = l.getLayerTagManager();
    unsigned n = 1 + psi_pick(TOKENS, "tokens");
    std::vector<VD> from, to; std::string text; std::vector<unsigned> gap;
    for (unsigned i = 0; i < n; i++) {
        gap.push_back(i ? psi_pick(3, "blanks") : 0);
        text += std::string(gap[i], ' ');
        from.push_back(text.size()); text += "x"; to.push_back(text.size());
    }
    l.appendStringWithSymbols(text);
    LayerTagCollection token = tm.createSingletonTagCollection("token"), aux = tm.createSingletonTagCollection("parse-aux");
    for (unsigned i = 0; i < n; i++) {
        for (unsigned k = 0; k < gap[i]; k++) { Lattice::EdgeSequence::Builder b(l); VD v = from[i] - gap[i] + k; b.addEdge(l.firstOutEdge(v, l.getSymbolMask())); l.addEdge(v, v + 1, AnnotationItem("B", StringFrag(" ")), token, b.build()); }
        unsigned cats = 1 + (!i && psi_flag("ambiguous"));
        for (unsigned k = 0; k < cats; k++) {
            C c = psi_str_of(SYMBOLS, 1, 1, "category");
            Lattice::EdgeSequence::Builder b(l); b.addEdge(l.firstOutEdge(from[i], l.getSymbolMask()));
            l.addEdge(from[i], to[i], AnnotationItem(c), aux, b.build());
            derive(from[i], to[i], c);
            psi_note((std::string(1 + gap[i], ' ') + c).c_str());
        }
    }
    Combinator combinator; std::vector<R> g;
    unsigned rules = 1 + psi_pick(RULES, "rules");
    for (unsigned i = 0; i < rules; i++) {
        R r; r.binary = psi_flag("binary"); r.lhs = psi_str_of(SYMBOLS, 1, 1, "left"); r.a = psi_str_of(SYMBOLS, 1, 1, "part"); if (r.binary) r.b = psi_str_of(SYMBOLS, 1, 1, "part");
        r.score = AGENDA ? (int)psi_pick(2, "score") : 0;
        if (i) psi_assume(g[i - 1].binary >= r.binary);
        g.push_back(r);
        psi_note((r.lhs + " -> " + r.a + " " + r.b).c_str());
        if (r.binary) combinator.add_binary_rule(r.a, r.b, Rule(r.lhs, r.score)); else combinator.add_unary_rule(r.a, Rule(r.lhs, r.score));
    }
    registrar<std::string> reg; AV_AI_Converter conv(aim, reg, reg); LimitChecker limits;
    Chart ch(l, conv, "form", limits);
    typedef
#if AGENDA == 0
        fifo_agenda<ED>
#else
        priority_agenda<Chart>
#endif
        Agenda;
#if AGENDA == 0
    Agenda agenda;
#else
    Agenda agenda(ch);
#endif
    agenda_parser<C, Lattice::Score, C, Rule, Combinator, Agenda, simple_marked_edges_index> parser(ch, combinator, agenda);
    parser.run();
    // what the grammar derives
    for (size_t before = 0; before != derived.size(); ) {
        before = derived.size();
        for (size_t k = 0; k < g.size(); k++) for (size_t i = 0; i < derived.size(); i++) {
            if (derived[i].cat != g[k].a) continue;
            if (!g[k].binary) { derive(derived[i].u, derived[i].v, g[k].lhs); continue; }
            for (size_t j = 0; j < derived.size(); j++) {
                bool adjacent = false; for (unsigned t = 1; t < n; t++) if (derived[i].v == to[t - 1] && derived[j].u == from[t]) adjacent = true;
                if (adjacent && derived[j].cat == g[k].b) derive(derived[i].u, derived[j].v, g[k].lhs);
            }
        }
    }
    std::vector<ED> edges;
    { Lattice::EdgesSortedByTargetIterator i = l.edgesSortedByTarget(tm.getSingletonMask("parse-aux")); while (i.hasNext()) edges.push_back(i.next()); }
    for (size_t i = 0; i < edges.size(); i++) psi_note((std::string(1, '0' + l.getEdgeSource(edges[i])) + std::string(1, '0' + l.getEdgeTarget(edges[i])) + l.getAnnotationCategory(edges[i])).c_str());
    for (size_t i = 0; i < edges.size(); i++) {
        C c = l.getAnnotationCategory(edges[i]); VD u = l.getEdgeSource(edges[i]), v = l.getEdgeTarget(edges[i]);
        psi_check(there(u, v, c), "the parser finds what the grammar does not derive");
        bool gobio = ch.could_be_final(edges[i]);
        std::list<Lattice::Partition> ps = l.getEdgePartitions(edges[i]);
        for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) {
            std::vector<ED> parts; Lattice::Partition::Iterator it(l, *p); while (it.hasNext()) parts.push_back(it.next());
            psi_check(!parts.empty() && parts.size() <= 2, "a phrase without parts");
            if (l.getLayerTagManager().isThere("symbol", l.getEdgeLayerTags(parts[0]))) continue;   // given
            bool ok = false;
            for (size_t k = 0; k < g.size() && !ok; k++) if (g[k].lhs == c && g[k].binary == (parts.size() == 2) && l.getAnnotationCategory(parts[0]) == g[k].a && (!g[k].binary || l.getAnnotationCategory(parts[1]) == g[k].b)) ok = true;
            psi_check(ok, "parts of a phrase that no rule joins");
            psi_check(l.getEdgeSource(parts[0]) == u && l.getEdgeTarget(parts.back()) == v, "parts that do not make up the phrase");
            if (parts.size() == 2) { bool adjacent = false; for (unsigned t = 1; t < n; t++) if (l.getEdgeTarget(parts[0]) == to[t - 1] && l.getEdgeSource(parts[1]) == from[t]) adjacent = true; psi_check(adjacent, "parts that are not next to each other"); psi_reach("two parts"); } else psi_reach("one part");
        }
    }
    for (size_t i = 0; i < derived.size(); i++) {
        bool found = false;
        for (size_t k = 0; k < edges.size() && !found; k++) if (l.getEdgeSource(edges[k]) == derived[i].u && l.getEdgeTarget(edges[k]) == derived[i].v && l.getAnnotationCategory(edges[k]) == derived[i].cat) found = true;
        psi_check(found, "the parser does not find what the grammar derives");
    }
    // every way to derive something is an alternative of it
    for (size_t k = 0; k < g.size(); k++) for (size_t i = 0; i < derived.size(); i++) {
        if (derived[i].cat != g[k].a) continue;
        for (size_t j = 0; j < derived.size(); j++) {
            if (g[k].binary) {
                bool adjacent = false; for (unsigned t = 1; t < n; t++) if (derived[i].v == to[t - 1] && derived[j].u == from[t]) adjacent = true;
                if (!adjacent || derived[j].cat != g[k].b) continue;
            } else if (j || g[k].lhs == g[k].a) continue;
            VD u = derived[i].u, v = g[k].binary ? derived[j].v : derived[i].v; bool found = false;
            for (size_t e = 0; e < edges.size() && !found; e++) {
                if (l.getEdgeSource(edges[e]) != u || l.getEdgeTarget(edges[e]) != v || l.getAnnotationCategory(edges[e]) != g[k].lhs) continue;
                std::list<Lattice::Partition> ps = l.getEdgePartitions(edges[e]);
                for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end() && !found; ++p) {
                    std::vector<ED> parts; Lattice::Partition::Iterator it(l, *p); while (it.hasNext()) parts.push_back(it.next());
                    if (parts.size() != (g[k].binary ? 2u : 1u)) continue;
                    found = l.getAnnotationCategory(parts[0]) == g[k].a && l.getEdgeTarget(parts[0]) == derived[i].v && (!g[k].binary || (l.getAnnotationCategory(parts[1]) == g[k].b && l.getEdgeSource(parts[1]) == derived[j].u));
                }
            }
            psi_check(found, "a way to derive a phrase is missing");
        }
    }
    psi_observe("edges", edges.size());
    if (n > 1) psi_reach("more than one token");
    if (n > 1 && gap[1] == 2) psi_reach("two blanks");
    return 0;
}
