// Layer tag collections and masks against sets of tag names.
#include "psisym.h"
#include <type_traits>
#include <vector>
#include <list>
#include <string>
#include "layer_tag_manager.hpp"
#ifndef NT
#define NT 6
#endif
static const char* NAMES[] = {"symbol", "!pl", "token", "!en", "form", "!de", "aa", "zz", "q!"};

typedef LayerTagCollection LTC;
// any subset of the first n known tags
static LTC anyCollection(LayerTagManager& m, unsigned n, const char* what, bool split) {
    LTC c = m.createEmptyTagCollection();
    LTC all = m.createEmptyTagCollection();
    for (unsigned i = 0; i < n; i++) all = createUnion(all, m.createSingletonTagCollection(NAMES[i]));
    if (!split && std::is_trivially_copyable<LTC>::value && sizeof(LTC) == 8) {
        psi_sym(&c, sizeof c, what);          // the membership word stays symbolic
        psi_assume(isSubset(c, all));
    } else {
        for (unsigned i = 0; i < n; i++) if (psi_flag(what)) c = createUnion(c, m.createSingletonTagCollection(NAMES[i]));
    }
    return c;
}
static void modeSets() {
    LayerTagManager m;
    for (unsigned i = 0; i < NT; i++) m.createSingletonTagCollection(NAMES[i]);
    LTC a = anyCollection(m, NT, "a", false), b = anyCollection(m, NT, "b", false);
    LTC u = createUnion(a, b), x = createIntersection(a, b), pa = m.onlyPlaneTags(a), pl = m.planeTags();
    bool empty = true, eq = true, sub = true, samePlane = true;
    for (unsigned i = 0; i < NT; i++) {
        bool ia = m.isThere(NAMES[i], a), ib = m.isThere(NAMES[i], b), plane = NAMES[i][0] == '!';
        psi_check(m.isThere(NAMES[i], u) == (ia | ib), "union does not hold exactly the tags of both collections");
        psi_check(m.isThere(NAMES[i], x) == (ia & ib), "intersection does not hold exactly the common tags");
        psi_check(m.isThere(NAMES[i], pl) == plane, "plane tags are not exactly the tags starting with '!'");
        psi_check(m.isThere(NAMES[i], pa) == (ia & plane), "restriction to plane tags is wrong");
        empty &= !ia; eq &= ia == ib; sub &= !ia | ib; samePlane &= !plane | (ia == ib);
    }
    psi_check(a.isEmpty() == empty, "isEmpty"); psi_check(a.isNonempty() == !empty, "isNonempty");
    psi_check((a == b) == eq, "equality of collections is not equality of tag sets"); psi_check((a != b) == !eq, "inequality of collections");
    psi_check(isSubset(a, b) == sub, "isSubset is not inclusion of tag sets");
    psi_check(m.areInTheSamePlane(a, b) == samePlane, "same plane is not equality of plane tags");
    psi_check(!eq | (a.getHash() == b.getHash()), "equal collections have different hashes");
    psi_check(!m.isThere("never-registered", a), "an unregistered tag is reported as present");
    psi_reach("sets");
}
static void modeNames() {
    // creation order of the tags is arbitrary
    unsigned perm = psi_pick(3, "order");
    LayerTagManager m;
    if (perm == 1) for (int i = NT - 1; i >= 0; i--) m.createSingletonTagCollection(NAMES[i]);
    if (perm == 2) m.createTagCollection(std::string("zz,aa,form"));
    LTC c = m.createEmptyTagCollection();
    bool in[NT]; std::list<std::string> l; std::vector<std::string> v; std::string spec;
    for (unsigned i = 0; i < NT; i++) {
        in[i] = psi_flag("in");
        if (in[i]) { c = createUnion(c, m.createSingletonTagCollection(NAMES[i])); l.push_front(NAMES[i]); v.push_back(NAMES[i]); spec += (spec.empty() ? "" : ",") + std::string(NAMES[i]); }
    }
    std::list<std::string> got = m.getTagNames(c);
    psi_check(got.size() == v.size(), "number of tag names");
    std::string prev; bool first = true;
    for (std::list<std::string>::iterator it = got.begin(); it != got.end(); ++it) {
        psi_check(first || prev < *it, "tag names are not sorted"); prev = *it; first = false;
        bool known = false;
        for (unsigned i = 0; i < NT; i++) if (in[i] && *it == NAMES[i]) known = true;
        psi_check(known, "a tag name that was not put in");
    }
    psi_check(m.createTagCollection(l) == c, "collection from a list"); psi_check(m.createTagCollection(v) == c, "collection from a vector");
    psi_check(m.createTagCollectionFromList(l) == c && m.createTagCollectionFromVector(v) == c, "collection from names");
    if (!spec.empty()) psi_check(m.createTagCollection(spec) == c, "collection from a comma-separated specification");
    LTC withLang = m.createTagCollectionFromListWithLangCode(l, "xx");
    psi_check(withLang == createUnion(c, m.createSingletonTagCollection("!xx")), "language tag added to a collection");
    psi_check(m.isThere("!xx", m.planeTags()), "a language tag is not a plane tag");
    LTC copy = m.createEmptyTagCollection();
    std::list<std::string> names = m.getTagNames(c);
    for (std::list<std::string>::iterator it = names.begin(); it != names.end(); ++it) copy = createUnion(copy, m.createSingletonTagCollection(*it));
    psi_check(copy == c, "names do not identify the collection");
    psi_reach("names");
}
static void modeMasks() {
    LayerTagManager m;
    const unsigned K = NT > 5 ? 5 : NT;
    for (unsigned i = 0; i < K; i++) m.createSingletonTagCollection(NAMES[i]);
    LTC tags = anyCollection(m, K, "tags", false);
    LTC alt[3] = {anyCollection(m, K, "alt0", false), anyCollection(m, K, "alt1", false), anyCollection(m, K, "alt2", false)};
    bool sub[3], empty[3];
    for (int j = 0; j < 3; j++) {
        sub[j] = true; empty[j] = true;
        for (unsigned i = 0; i < K; i++) { bool t = m.isThere(NAMES[i], alt[j]); sub[j] &= !t | m.isThere(NAMES[i], tags); empty[j] &= !t; }
    }
    psi_check(matches(tags, m.anyTag()), "the any-mask must match everything"); psi_check(m.anyTag().isAny(), "any-mask is not any");
    LayerTagMask m1 = m.getMask(alt[0]), m2 = m.getAlternativeMask(alt[0], alt[1]), m3 = m.getAlternativeMask(alt[0], alt[1], alt[2]);
    psi_check(matches(tags, m1) == sub[0], "a conjunction mask matches exactly the collections holding all its tags");
    psi_check(matches(tags, m2) == (sub[0] | sub[1]), "an alternative of two matches when either does");
    psi_check(matches(tags, m3) == (sub[0] | sub[1] | sub[2]), "an alternative of three matches when any does");
    std::vector<LTC> va(alt, alt + 3);
    LayerTagMask m3v = m.getAlternativeMask(va);
    psi_check(m3v == m3 && m3v.getHash() == m3.getHash(), "the same alternatives given as a vector make a different mask");
    psi_check(!m1.isAny() && !m2.isAny(), "a specific mask claims to be any");
    psi_check(m2.isSome() == !(empty[0] & empty[1]), "isSome");
    LayerTagMask n1 = m.getMask(alt[1]);
    if (m1 == n1) { psi_check(m1.getHash() == n1.getHash(), "equal masks have different hashes"); psi_check(matches(tags, m1) == matches(tags, n1), "equal masks match differently"); psi_reach("equal"); }
    else psi_check(!(alt[0] == alt[1]), "masks of equal collections differ");
    LTC other = anyCollection(m, K, "alt3", false);
    LayerTagMask n2 = m.getAlternativeMask(alt[2], other);
    if (m2 == n2) { psi_check(m2.getHash() == n2.getHash(), "equal masks of two alternatives have different hashes"); psi_check(matches(tags, m2) == matches(tags, n2), "equal masks of two alternatives match differently"); psi_reach("equal2"); }
    else psi_check(!(alt[0] == alt[2] && alt[1] == other), "masks of equal alternatives differ");
    psi_check(!(m1 == m.anyTag()), "a specific mask equals the any-mask");
    bool symOnly0 = alt[0] == m.createSingletonTagCollection("symbol"), symOnly1 = alt[1] == m.createSingletonTagCollection("symbol");
    psi_check(m.canBeAppliedToImplicitSymbol(m2) == (symOnly0 | symOnly1), "applicability to implicit symbols");
    psi_reach("masks");
}
#ifndef SPECLEN
#define SPECLEN 5
#endif
static void modeSpec() {
    std::string spec = psi_str_of("ab,;", 1, SPECLEN, "spec");
    // reference split; only well-formed specifications (no empty item)
    std::vector<std::vector<std::string> > ref(1, std::vector<std::string>(1));
    for (size_t i = 0; i < spec.size(); i++) {
        if (spec[i] == ',') ref.back().push_back("");
        else if (spec[i] == ';') ref.push_back(std::vector<std::string>(1));
        else ref.back().back() += spec[i];
    }
    for (size_t i = 0; i < ref.size(); i++) for (size_t j = 0; j < ref[i].size(); j++) psi_assume(!ref[i][j].empty());
    std::list<std::list<std::string> > got = LayerTagManager::splitMaskSpecification(spec);
    psi_check(got.size() == ref.size(), "number of alternatives in a mask specification");
    size_t i = 0;
    LayerTagManager m;
    std::vector<LTC> alts;
    for (std::list<std::list<std::string> >::iterator it = got.begin(); it != got.end(); ++it, ++i) {
        std::vector<std::string> c(it->begin(), it->end());
        psi_check(c == ref[i], "tags of an alternative in a mask specification");
        alts.push_back(m.createTagCollection(ref[i]));
    }
    psi_check(m.getMask(spec) == m.getAlternativeMask(alts), "mask built from a specification");
    std::list<std::list<std::string> > mul = LayerTagManager::multiplyMaskListByLangCode(got, "pl");
    i = 0;
    for (std::list<std::list<std::string> >::iterator it = mul.begin(); it != mul.end(); ++it, ++i) {
        std::vector<std::string> c(it->begin(), it->end()); std::vector<std::string> want = ref[i]; want.push_back("!pl");
        psi_check(c == want, "language tag added to every alternative");
    }
    if (ref.size() == 1) {
        std::list<std::string> cs = LayerTagManager::splitCollectionSpecification(spec);
        psi_check(std::vector<std::string>(cs.begin(), cs.end()) == ref[0], "splitting a collection specification");
        psi_reach("conj");
    }
    psi_reach("spec");
}
extern "C" int psi_main() {
#if MODE == 0
    modeSets();
#elif MODE == 1
    modeNames();
#elif MODE == 2
    modeMasks();
#else
    modeSpec();
#endif
    return 0;
}
