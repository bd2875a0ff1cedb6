// Simple and JSON writers: what they list, and whether it is JSON.
#include "psisym.h"
#include "lattice.hpp"
#include "simple_lattice_writer.hpp"
#include "json_lattice_writer.hpp"
#include <vector>
#include <sstream>
#include <map>
#include <set>
typedef Lattice::VertexDescriptor VD;
typedef Lattice::EdgeDescriptor ED;
// a strict reader of JSON that knows strings, arrays and objects
struct J { int kind; std::string s; std::vector<J> a; std::vector<std::string> keys; };   // 0 string, 1 array, 2 object
static const char* p; static const char* e;
static void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
static bool str(std::string& r) {
    if (p >= e || *p != '"') return false;
    for (p++; p < e; p++) {
        unsigned char c = *p;
        if (c == '"') { p++; return true; }
        if (c < 0x20) return false;
        if (c != '\\') { r += c; continue; }
        if (++p >= e) return false;
        switch (*p) {
            case '"': case '\\': case '/': r += *p; break;
            case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
            case 'u': { unsigned v = 0; for (int i = 0; i < 4; i++) { if (++p >= e) return false; char h = *p; if (h >= '0' && h <= '9') v = v * 16 + h - '0'; else if (h >= 'a' && h <= 'f') v = v * 16 + h - 'a' + 10; else if (h >= 'A' && h <= 'F') v = v * 16 + h - 'A' + 10; else return false; }
                        if (v < 0x80) r += (char)v; else if (v < 0x800) { r += (char)(0xc0 | v >> 6); r += (char)(0x80 | (v & 63)); } else { r += (char)(0xe0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); } break; }
            default: return false;
        }
    }
    return false;
}
static bool value(J& j) {
    ws();
    if (p >= e) return false;
    if (*p == '"') { j.kind = 0; return str(j.s); }
    char close; bool obj = *p == '{';
    if (obj) { j.kind = 2; close = '}'; } else if (*p == '[') { j.kind = 1; close = ']'; } else return false;
    p++; ws();
    if (p < e && *p == close) { p++; return true; }
    for (;;) {
        ws();
        if (obj) { std::string k; if (!str(k)) return false; j.keys.push_back(k); ws(); if (p >= e || *p != ':') return false; p++; }
        J x; if (!value(x)) return false; j.a.push_back(x);
        ws(); if (p >= e) return false;
        if (*p == close) { p++; return true; }
        if (*p != ',') return false;
        p++;
    }
}
static std::string show(const J& j) {
    if (j.kind == 0) return "'" + j.s + "'";
    std::string r = j.kind == 1 ? "[" : "{";
    for (size_t i = 0; i < j.a.size(); i++) r += (i ? "," : "") + (j.kind == 2 ? j.keys[i] + ":" : std::string()) + show(j.a[i]);
    return r + (j.kind == 1 ? "]" : "}");
}
static std::string json(const std::string& s) { p = s.data(); e = p + s.size(); J j; psi_note(s.c_str()); psi_check(value(j), "this is not JSON"); ws(); psi_check(p == e, "this is not JSON"); return show(j); }
struct El { std::string text; };
extern "C" int psi_main() {
    AnnotationItemManager aim; Lattice l(aim); LayerTagManager& tm = l.getLayerTagManager();
#ifdef ONLY
#define NODISC 1
#else
#define NODISC 0
#endif
#if MODE == 1
    // arbitrary characters
    l.appendString("a");
    std::string t, c, k, v;
    unsigned what = psi_pick(4, "free field");
    std::string any; unsigned len = 1 + psi_pick(LEN, "length"); for (unsigned i = 0; i < len; i++) any += psi_utf8(psi_pick(NKINDS, "kind"), "char");
    t = what == 0 ? any : "t"; c = what == 1 ? any : "c"; v = what == 2 ? "v" + any : "v";   // a value that reads as a number is stored as one
    AnnotationItem a(c, StringFrag(what == 3 ? "" : t));
    aim.setValue(a, "k", v);
    bool second = what == 2 && psi_flag("second value"); if (second) aim.setValue(a, "m", "w");
    l.addEdge(0, 1, a, tm.createSingletonTagCollection("token"), Lattice::EdgeSequence());
    bool args = psi_flag("with-args");
    std::ostringstream o; { JSONLatticeWriter w(false, false, false, "token", std::set<std::string>(), args, std::vector<std::string>()); w.writeLattice(l, o); }
    std::string shown = json(o.str());
    std::string text = what == 3 ? (args ? "" : c) : t;
    psi_check(shown == (args ? "[{category:'" + c + "',text:'" + text + "',values:{k:'" + v + "'" + (second ? ",m:'w'" : "") + "}}]" : "['" + text + "']"), "the JSON text has other contents");
    psi_reach(args ? "with arguments" : "text");
#else
    static const VD FROM[] = {0, 1, 2, 0, 2}, TO[] = {1, 2, 3, 3, 4};
    static const char* TAG[] = {"token", "form", "other"};
    static const char* NAME[] = {"A", "B", "C", "D"};
    l.appendString("a bc");
#ifdef ONLY
    if (ONLY == 1 && psi_flag("symbols"))
#else
    if (psi_flag("symbols"))
#endif
        l.addSymbols(0, 4);
#ifdef ONLY
    unsigned mode = ONLY;
#else
    unsigned mode = psi_pick(6, "mode");
#endif
    bool linear = mode == 1, noAlts = mode == 2, blank = mode == 3, fallback = mode == 4, spec = mode == 5;
    unsigned cut = spec ? psi_pick(4, "groups") : 0;                      // where one group ends and the next begins
    unsigned n = psi_pick(EDGES + 1, "edges"), last = 0; std::set<ED> seen;
    for (unsigned i = 0; i < n; i++) {
        unsigned s = psi_pick(5, "range"), t = psi_pick(fallback ? 3 : 2, "tag");
        ED x = l.addEdge(FROM[s], TO[s], AnnotationItem(NAME[i]), tm.createSingletonTagCollection(TAG[t]), Lattice::EdgeSequence());
        if (i + 1 == n && !NODISC && psi_flag("discarded")) l.discard(x);
    }
    if (spec) {
        VD c = cut ? cut : 4;
        l.addEdge(0, c, AnnotationItem("G"), tm.createSingletonTagCollection("group"), Lattice::EdgeSequence());
        if (cut) l.addEdge(c, 4, AnnotationItem("G"), tm.createSingletonTagCollection("group"), Lattice::EdgeSequence());
    }
    std::vector<std::string> fb; if (fallback) { fb.push_back("form"); fb.push_back("other"); }
    std::set<std::string> gs; std::map<std::string, std::string> gm; if (spec) { gs.insert("group"); gm["group"] = "/"; }
    // what there is to list
    std::string sj = "[", ss; bool firstGroup = true, ssome = false;
    VD v = 0; unsigned g = 0; std::string gj; unsigned gn = 0; std::string gt;
    for (bool more = true; more; ) {
        if (spec && cut && v == (VD)cut && !g) { g = 1; if (gn) { sj += "[" + gj + "]"; ss += gt; firstGroup = false; } gj = gt = ""; gn = 0; }
        for (unsigned level = 0; level < 1 + fb.size(); level++) {
            std::vector<std::string> els;
            Lattice::InOutEdgesIterator i = l.outEdges(v, tm.anyTag());
            while (i.hasNext()) {
                ED x = i.next();
                if (l.isDiscarded(x) || !l.getLayerTagManager().isThere(level ? fb[level - 1] : "token", l.getEdgeLayerTags(x))) continue;
                if (!blank && l.getEdgeText(x) == " ") continue;
                els.push_back(l.getAnnotationCategory(x));
            }
            if (els.empty()) continue;
            if (noAlts) els.resize(1);
            std::string j = els.size() > 1 ? "[" : "", t;
            for (size_t k = 0; k < els.size(); k++) { j += (k ? "," : "") + std::string("'") + els[k] + "'"; t += (k ? "|" : "") + els[k]; }
            if (els.size() > 1) { j += "]"; psi_reach("alternatives"); }
            if (spec) { gj += (gn ? "," : "") + j; gt += gn ? ";" + t : (firstGroup ? "" : "/") + t; gn++; }
            else { sj += (ssome ? "," : "") + j; ss += (ssome ? ";" : "") + t; ssome = true; }
            if (level) psi_reach("fallback");
            break;
        }
        if (!linear) { more = v < 4; v++; if (!more) break; continue; }
        try { v = l.getEdgeTarget(l.firstOutEdge(v, tm.anyTag())); } catch (NoEdgeException&) { break; }
    }
    if (spec && gn) { sj += (firstGroup ? "" : ",") + std::string("[") + gj + "]"; ss += gt; }
    sj += "]"; ss += "\n";
    std::ostringstream o1, o2;
    { SimpleLatticeWriter w(linear, noAlts, blank, "token", ";", "|", gm, fb); w.writeLattice(l, o1); }
    { JSONLatticeWriter w(linear, noAlts, blank, "token", gs, false, fb); w.writeLattice(l, o2); }
    psi_note(o1.str().c_str()); psi_note(ss.c_str()); psi_note(sj.c_str());
    psi_check(o1.str() == ss, "the simple writer lists something else");
    psi_check(json(o2.str()) == sj, "the JSON writer lists something else");
    psi_reach(linear ? "linear" : noAlts ? "no-alts" : blank ? "with-blank" : spec ? "spec" : "plain");
    if (spec && cut) psi_reach("two groups");
#endif
    return 0;
}
