// Annotation items: values, equality and hash against maps.
#include "psisym.h"
#include "annotation_item_manager.hpp"
#include <map>
#include <string>
#ifndef MODE
#define MODE 0
#endif
#ifndef SETS
#define SETS 2
#endif
static const char* ATTR[] = {"b", "a", "c"};
static const char* VAL[] = {"x", "y", "7", "any", "false", ""};
typedef std::map<std::string, std::string> M;
static std::string shown(const std::string& v) { return v == "any" || v == "nil" ? "nil" : v == "false" || v == "fail" || v == "empty" ? "fail" : v; }
static void setOne(AnnotationItemManager& m, AnnotationItem& it, M& model, unsigned nv) {
    std::string a = ATTR[psi_pick(3, "attr")], v = VAL[psi_pick(nv, "val")];
    m.setValue(it, a, v); model[a] = shown(v);
}
static void agree(AnnotationItemManager& m, AnnotationItem& it, const M& model) {
    M got = m.getAVMap(it);
    psi_check(got == model, "the attribute map is not what was set");
    psi_check(m.getValues(it).size() == model.size(), "number of attributes");
    for (int i = 0; i < 3; i++) {
        M::const_iterator f = model.find(ATTR[i]);
        psi_check(m.getValueAsString(it, ATTR[i]) == (f == model.end() ? "fail" : f->second), "attribute value");
    }
    psi_check(m.getValueAsString(it, "never") == "fail", "value of an unknown attribute");
}
static void values() {
    AnnotationItemManager m;
    if (psi_flag("order")) { AnnotationItem o("o"); m.setValue(o, "c", "q"); m.setValue(o, "a", "q"); }
    unsigned kind = psi_pick(4, "kind"), cd = kind & 1, td = kind >> 1, sets = kind ? 1 : SETS;
    AnnotationItem a("cat", StringFrag("text")), b(cd ? "tac" : "cat", StringFrag(td ? "tex" : "text"));
    M ma, mb;
    unsigned na = psi_pick(sets + 1, "na"), nb = psi_pick(sets + 1, "nb");
    for (unsigned i = 0; i < na; i++) setOne(m, a, ma, 6);
    for (unsigned i = 0; i < nb; i++) setOne(m, b, mb, 6);
    agree(m, a, ma); agree(m, b, mb);
    psi_check(a == a && !(a != a), "equality is not reflexive");
    psi_check((a == b) == (b == a), "equality is not symmetric"); psi_check((a == b) != (a != b), "== against !=");
    bool differ = cd || td;
    for (int i = 0; i < 3; i++) {
        M::iterator x = ma.find(ATTR[i]), y = mb.find(ATTR[i]);
        std::string vx = x == ma.end() ? "" : x->second, vy = y == mb.end() ? "" : y->second;
        // an attribute set to the false or the empty value may count as not set
        if (vx != vy && !((vx == "fail" || vx == "") && y == mb.end()) && !((vy == "fail" || vy == "") && x == ma.end())) differ = true;
    }
    if (!cd && !td && ma == mb) psi_check(a == b, "items with the same category, text and values differ");
    if (differ) psi_check(a != b, "items that differ compare equal");
    if (a == b) psi_check(a.getHash() == b.getHash(), "equal items have different hashes");
    // copies and merging
    AnnotationItem c(a), d("zz"); d = a;
    psi_check(c == a && d == a && c.getHash() == a.getHash(), "a copy differs");
    AnnotationItem e(a, "other"), f(a, StringFrag("new"));
    psi_check(e.getCategory() == "other" && e.getText() == "text" && m.getAVMap(e) == ma, "item with a new category");
    psi_check(f.getCategory() == "cat" && f.getText() == "new" && m.getAVMap(f) == ma, "item with a new text");
    m.addValues(c, b);
    for (M::iterator i = mb.begin(); i != mb.end(); ++i) ma[i->first] = i->second;
    psi_check(m.getAVMap(c) == ma, "merging the values of another item");
    psi_check(m.getAVMap(b) == mb && m.getAVMap(d) == m.getAVMap(a), "merging changed another item");
    psi_reach("values");
}
static void numbers() {
    AnnotationItemManager m; AnnotationItem a("cat");
    if (psi_flag("text")) {
        std::string s = psi_str_of("0129-+x", 1, 3, "digits");
        if (psi_flag("long")) s = "214748364" + s.substr(0, 1);
        m.setValue(a, "n", s);
        bool neg = s[0] == '-', canon = s.size() > (size_t)neg && (s[neg] != '0' || (s.size() == 1));
        bool num = true;
        for (size_t i = neg; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') num = false;
        bool lead = s[0] == '+';   // an explicitly signed or zero-padded number is normalised, anything else is kept
        bool numeric = true;
        for (size_t i = (neg || lead) ? 1 : 0; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') numeric = false;
        if (num ? canon : !numeric) psi_check(m.getValueAsString(a, "n") == s, "a value set as text does not read back");
        psi_reach("text");
    } else {
        int v = (int)psi_sym_int(0, 0xffffffffu, "v");
        if (psi_flag("from")) m.setValue(a, "n", m.from_int(v)); else m.setValue(a, "n", v);
        zvalue z = m.getValue(a, "n");
        psi_check(m.is_int(z) && !m.is_string(z), "an integer value is not an integer");
        psi_check(m.to_int(z) == v, "an integer value does not read back");
        psi_reach("int");
    }
}
extern "C" int psi_main() { if (MODE == 0) values(); else numbers(); return 0; }
