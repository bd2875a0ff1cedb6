// Finite-state automata: operations on languages, minimal automata for word lists, perfect hashing, character expressions.
#include "psisym.h"
#include "logging.hpp"
#include <boost/optional.hpp>
#include "fsa_types.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_bindfsa.hpp"
#include "fsa_algorithms.hpp"
#include "fsa_hash_fsa.hpp"
#if MODE == 2
#include "fsa_query_grammers.hpp"
#endif
#include <vector>
#include <set>
#include <string>
using namespace fsa;
typedef NDFSA<> A;
// what the number of states of a minimal automaton is worth: states that no word tells apart are one
template <class D> static bool distinct(D& d, bool bin) {
    size_t n = d.size();
    std::vector<std::set<std::pair<int, size_t> > > out(n);
    for (size_t p = 0; p < n; p++) { ArcRange<typename D::arc_iterator_type> r = d.getArcs(p); for (; r.first != r.second; r.first++) if (!out[p].insert(std::make_pair((int)r.first->getSymbol(), (size_t)r.first->getDest())).second) return false; }
    for (size_t p = 0; p < n; p++) { int last = -1; for (std::set<std::pair<int, size_t> >::iterator i = out[p].begin(); i != out[p].end(); ++i) { if (i->first == last) return false; last = i->first; } }
    std::vector<size_t> cls(n); size_t count = 0;
    for (size_t p = 0; p < n; p++) cls[p] = d.isEndState(p) ? 1 : 0;
    for (size_t round = 0; round <= n; round++) {
        std::vector<std::pair<size_t, std::set<std::pair<int, size_t> > > > sig(n);
        for (size_t p = 0; p < n; p++) { sig[p].first = cls[p]; for (std::set<std::pair<int, size_t> >::iterator i = out[p].begin(); i != out[p].end(); ++i) sig[p].second.insert(std::make_pair(i->first, cls[i->second])); }
        std::vector<size_t> c(n); count = 0;
        for (size_t p = 0; p < n; p++) { size_t q = 0; while (q < p && sig[q] != sig[p]) q++; c[p] = q < p ? c[q] : count++; }
        cls = c;
    }
    return count == n;
}
#if MODE != 1
enum { WORD, UNITE, CONCAT, OPTION, PLUS, STAR, INTERSECT, REVERSE, DRAWN };
struct Node { int op; std::string w; Node *a, *b; unsigned starts, finals, n; unsigned char from[8], sym[8], to[8]; };
static unsigned leaves;
#if MODE == 3
#undef MODE
#define MODE 0
#define RIGHT 0
#define DEPTH 0
#define DRAW 1
#else
#define STATES 0
#endif
static Node* draw() {   // an automaton of STATES states and ARCS arcs, with empty transitions and several start and end states
    Node* n = new Node(); n->a = n->b = 0; n->op = DRAWN; n->n = 0;
#ifdef DRAW
    n->starts = psi_flag("two start states") ? 3 : 1;
    n->finals = ONLY ? 2 + 2 * psi_pick(3, "end states") : 1 + psi_pick((1 << STATES) - 1, "end states");
    for (unsigned i = 0; i < ARCS; i++) {
        unsigned k = psi_pick(STATES * STATES, "arc");
        n->from[i] = k / STATES; n->to[i] = k % STATES;
        n->sym[i] = "ab\xff"[psi_pick(i ? 3 : 2, "symbol")];
        if (i) psi_assume(i == 1 || n->from[i - 1] * STATES + n->to[i - 1] <= n->from[i] * STATES + n->to[i]);
        n->n++;
    }
#endif
    return n;
}
static Node* gen(int depth, bool top) {
    Node* n = new Node(); n->a = n->b = 0;
    n->op = depth ? psi_pick(MODE == 2 ? 6 : 8, "operation") : WORD;
    if (top) psi_assume(n->op != WORD);
    if (n->op == WORD) {
        leaves++;
        n->w = psi_str_of("ab", MODE == 2 ? 1 : 0, WLEN, "word");
    } else {
        n->a = gen(depth - 1, false);
        if (n->op == UNITE || n->op == CONCAT || n->op == INTERSECT) n->b = gen(RIGHT ? depth - 1 : 0, false);
    }
    return n;
}
// ends of the words of the language that start at i (bit set), read backwards in a reversed language
static unsigned ends(const Node* n, const std::string& s, unsigned i, bool back) {
    switch (n->op) {
        case DRAWN: {
            unsigned at = back ? n->finals : n->starts, goal = back ? n->starts : n->finals, r = 0;
            for (unsigned j = i; ; j++) {
                for (bool more = true; more; ) { more = false; for (unsigned k = 0; k < n->n; k++) { unsigned x = back ? n->to[k] : n->from[k], y = back ? n->from[k] : n->to[k]; if (n->sym[k] == 0xff && (at >> x & 1) && !(at >> y & 1)) { at |= 1u << y; more = true; } } }
                if (at & goal) r |= 1u << j;
                if (j >= s.size()) return r;
                unsigned next = 0;
                for (unsigned k = 0; k < n->n; k++) { unsigned x = back ? n->to[k] : n->from[k], y = back ? n->from[k] : n->to[k]; if ((at >> x & 1) && n->sym[k] == (unsigned char)s[j]) next |= 1u << y; }
                at = next;
            }
        }
        case WORD: for (size_t k = 0; k < n->w.size(); k++) if (i + k >= s.size() || s[i + k] != (back ? n->w[n->w.size() - 1 - k] : n->w[k])) return 0; return 1u << (i + n->w.size());
        case UNITE: return ends(n->a, s, i, back) | ends(n->b, s, i, back);
        case INTERSECT: return ends(n->a, s, i, back) & ends(n->b, s, i, back);
        case OPTION: return ends(n->a, s, i, back) | 1u << i;
        case REVERSE: return ends(n->a, s, i, !back);
        case CONCAT: { const Node *x = back ? n->b : n->a, *y = back ? n->a : n->b; unsigned m = ends(x, s, i, back), r = 0; for (unsigned j = 0; j <= s.size(); j++) if (m >> j & 1) r |= ends(y, s, j, back); return r; }
    }
    unsigned r = 0, todo = 1u << i, seen = 0;
    for (unsigned j = i; j <= s.size(); j++) if (todo >> j & 1) { seen |= 1u << j; unsigned e = ends(n->a, s, j, back); r |= e; todo |= e; }
    return n->op == STAR ? r | 1u << i : r;
}
#endif
#if MODE == 0
static void build(const Node* n, A& out) {
    if (n->op == WORD) { A w(n->w); out.swap(w); return; }
    if (n->op == DRAWN) {
        for (unsigned i = 0; i < 3; i++) if (i < STATES) out.addState(n->starts >> i & 1);
        for (unsigned i = 0; i < STATES; i++) if (n->finals >> i & 1) out.setEndState(i);
        for (unsigned i = 0; i < n->n; i++) out.addArc(n->from[i], Arc<>(n->sym[i], n->to[i]));
        return;
    }
    build(n->a, out);
    A other;
    if (n->b) build(n->b, other);
    switch (n->op) {
        case UNITE: unify(out, other); break;
        case CONCAT: psi_assume(out.size()); concatenate(out, other); break;
        case INTERSECT: intersect(out, other); break;
        case OPTION: kleene_option(out); break;
        case PLUS: kleene_plus(out); break;
        case STAR: kleene_star(out); break;
        case REVERSE: reverse(out); break;
    }
}
#endif
#if MODE == 2
static std::string text(const Node* n, int level) {   // level: 0 alternatives, 1 sequence, 2 what can be repeated
    std::string s; int mine = 2;
    switch (n->op) {
        case WORD: s = n->w; mine = s.size() == 1 ? 2 : 1; break;
        case UNITE: s = text(n->a, 0) + "|" + text(n->b, 1); mine = 0; break;
        case CONCAT: s = text(n->a, 1) + text(n->b, 1); mine = 1; break;
        case OPTION: s = text(n->a, 2) + "?"; mine = 1; break;
        case PLUS: s = text(n->a, 2) + "+"; mine = 1; break;
        case STAR: s = text(n->a, 2) + "*"; mine = 1; break;
    }
    return mine < level ? "(" + s + ")" : s;
}
#endif
extern "C" int psi_main() {
#if MODE == 1
    // word lists
    unsigned n = psi_pick(WORDS + 1, "words");
    std::vector<std::string> w;
    for (unsigned i = 0; i < n; i++) w.push_back(psi_str_of("ab", 0, WLEN, "word"));
    bool wide = n < WORDS && psi_flag("many letters");
    if (wide) for (unsigned i = 0; i < 13; i++) w.push_back(std::string(1 + i % 2, (char)('c' + i)));
    std::sort(w.begin(), w.end());
    DFSA<ArcWeighted<> > d; minimize_incremental(d, w.begin(), w.end());
    BinDFSA<ArcWeighted<>, uint32_t> b; minimize_incremental(b, w.begin(), w.end());
    w.erase(std::unique(w.begin(), w.end()), w.end());
    psi_observe("states", d.size());
    std::string q = wide && psi_flag("one of many") ? w[w.size() - 1 - psi_pick(13, "query")] : psi_str_of("ab", 0, WLEN + 1, "query");
    unsigned at = 0; bool in = false;
    for (; at < w.size(); at++) if (w[at] == q) { in = true; break; }
    psi_check(d.in(q.begin(), q.end()) == in, "an automaton built from a word list holds other words");
    psi_check(b.in(q.begin(), q.end()) == in, "a packed automaton built from a word list holds other words");
    psi_check(distinct(d, false) && distinct(b, true) && b.size() == d.size(), "an automaton built from a word list is not the smallest one");
    BinDFSA<ArcWeighted<>, uint32_t> copy; unify(copy, d);
    psi_check(copy.in(q.begin(), q.end()) == in, "a packed copy of an automaton holds other words");
    HashFSA<BinDFSA<ArcWeighted<>, uint32_t> > h(b);
    psi_check(h.size() == w.size(), "the number of words in an automaton is wrong");
    psi_check(h.hash(q) == (in ? at : w.size()), "a word has another index than its place in the list");
    if (wide) psi_reach("wide");
    if (in) { psi_check(h.unhash(at) == q, "an index gives another word"); psi_reach("there"); } else psi_reach("not there");
#else
#ifdef DRAW
    // one operation on drawn automata
    Node* e = new Node(); e->b = 0; e->a = draw();
    e->op = 1 + psi_pick(7, "operation");
    if (e->op == UNITE || e->op == CONCAT || e->op == INTERSECT) {
        bool word = psi_flag("with a word"); e->b = new Node(); e->b->a = e->b->b = 0; e->b->op = word ? WORD : STAR;
        Node* w = e->b; if (!word) { w = e->b->a = new Node(); w->a = w->b = 0; w->op = WORD; }
        w->w = psi_str_of("ab", 1, WLEN, "word");
        if (psi_flag("the other way round")) std::swap(e->a, e->b);
    }
#else
    Node* e = gen(DEPTH, true);
#endif
    std::string q = psi_str_of("ab", 0, QLEN, "query");
    bool in = ends(e, q, 0, false) >> q.size() & 1;
    A a;
#if MODE == 2
    std::string t = text(e, 0);
    CharGrammar<std::string::const_iterator, A> g;
    std::string::const_iterator i = t.begin();
    bool ok = boost::spirit::qi::parse(i, std::string::const_iterator(t.end()), g, a);
    psi_check(ok && i == t.end(), "a character expression is not understood");
#else
    build(e, a);
#endif
    A plain(a), assigned(std::string("bb"));
    assigned = a;
    epsRemove(plain);
    psi_check(plain.in(q.begin(), q.end()) == in, "an automaton holds other words than its construction says");
    minimize(assigned);
    psi_observe("states", assigned.size());
    psi_check(assigned.in(q.begin(), q.end()) == in, "a minimized automaton holds other words");
    prune(plain);
    psi_check(plain.in(q.begin(), q.end()) == in, "a pruned automaton holds other words");
    DFSA<> d; d = assigned;
    psi_check(d.in(q.begin(), q.end()) == in, "a deterministic automaton holds other words");
    psi_check(distinct(assigned, false), "a minimized automaton is not deterministic or not minimal");
    if (e->op == INTERSECT) psi_reach("intersect"); else if (e->op == CONCAT) psi_reach("concat"); else if (e->op == STAR) psi_reach("star");
    if (in) psi_reach("in"); else psi_reach("out");
#endif
    return 0;
}
