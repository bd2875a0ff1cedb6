// UTF-8 decoding and encoding; letter case.
#include "psisym.h"
#include <vector>
#include <iterator>
#include <cstring>
#include "utf8/utf8.h"
#if MODE >= 2
#include "string_case_converter_manager.hpp"
#include "simple_convert.hpp"
#endif
typedef unsigned char U;
// length of the well-formed sequence at i (Unicode standard, table 3-7), 0 if there is none
static unsigned wf(const std::string& s, size_t i, uint32_t& cp) {
    U a = s[i]; size_t n = s.size() - i;
    U b = n > 1 ? s[i + 1] : 0, c = n > 2 ? s[i + 2] : 0, d = n > 3 ? s[i + 3] : 0;
    bool tb = b >= 0x80 && b <= 0xbf, tc = c >= 0x80 && c <= 0xbf, td = d >= 0x80 && d <= 0xbf;
    if (a < 0x80) { cp = a; return 1; }
    if (a >= 0xc2 && a <= 0xdf && tb) { cp = (a & 0x1f) * 64 + (b & 0x3f); return 2; }
    if (a >= 0xe0 && a <= 0xef && tb && tc && (a != 0xe0 || b >= 0xa0) && (a != 0xed || b <= 0x9f)) { cp = ((a & 0xf) * 64 + (b & 0x3f)) * 64 + (c & 0x3f); return 3; }
    if (a >= 0xf0 && a <= 0xf4 && tb && tc && td && (a != 0xf0 || b >= 0x90) && (a != 0xf4 || b <= 0x8f)) { cp = (((a & 7) * 64 + (b & 0x3f)) * 64 + (c & 0x3f)) * 64 + (d & 0x3f); return 4; }
    return 0;
}
static std::string enc(uint32_t cp) { std::string s; utf8::append(cp, std::back_inserter(s)); return s; }
#if MODE == 0
extern "C" int psi_main() {
    std::string s = psi_str(1, N, "s");
    size_t i = 0, chars = 0; uint32_t cp = 0; std::vector<uint32_t> cps;
    while (i < s.size()) { unsigned l = wf(s, i, cp); if (!l) break; cps.push_back(cp); i += l; chars++; }
    std::string::const_iterator bad = utf8::find_invalid(s.begin(), s.end());
    size_t at = bad - s.begin();
    psi_observe("invalid", at);
    psi_check(at == i, "the first invalid place is wrong");
    psi_check(utf8::is_valid(s.begin(), s.end()) == (i == s.size()), "is_valid");
    if (i < s.size()) {
        std::string::const_iterator it = s.begin() + i, e = s.end();
        try { utf8::next(it, e); psi_fail("an ill-formed sequence was decoded"); } catch (utf8::exception&) {}
        psi_check((size_t)(it - s.begin()) == i, "the position moved although decoding failed");
        try { utf8::distance(s.begin(), s.end()); psi_fail("characters of an ill-formed text were counted"); } catch (utf8::exception&) {}
        psi_reach("ill-formed");
    }
    // decoding the well-formed prefix, forwards, backwards, unchecked
    std::string p = s.substr(0, i);
    std::string::const_iterator it = p.begin(), e = p.end(), u = p.begin();
    std::string back;
    for (size_t k = 0; k < cps.size(); k++) {
        uint32_t x = utf8::next(it, e), y = utf8::unchecked::next(u);
        psi_observe("cp", x);
        psi_check(x == cps[k] && y == x, "decoded to another code point");
        psi_check(it == u, "the unchecked decoder advances differently");
        utf8::append(x, std::back_inserter(back));
    }
    psi_check(it == e && back == p, "encoding the decoded text gives another text");
    psi_check((size_t)utf8::distance(p.begin(), p.end()) == chars && (size_t)utf8::unchecked::distance(p.begin(), p.end()) == chars, "number of characters");
    std::string::const_iterator r = p.end(), p0 = p.begin();
    for (size_t k = cps.size(); k > 0; k--) { uint32_t x = utf8::prior(r, p0); psi_check(x == cps[k - 1], "going back decodes another code point"); }
    psi_check(r == p0, "going back does not end at the beginning");
    if (i == s.size()) psi_reach("well-formed");
    return 0;
}
#elif MODE == 1
extern "C" int psi_main() {
    uint32_t cp = (uint32_t)psi_sym_int(0, 0xffffffffu, "cp");
    std::string s, t; bool ok = true;
    try { utf8::append(cp, std::back_inserter(s)); } catch (utf8::invalid_code_point&) { ok = false; }
    psi_check(ok == (cp < 0xd800 || (cp > 0xdfff && cp < 0x110000)), "exactly the scalar values can be encoded");
    if (!ok) { psi_check(s.empty(), "something was written"); psi_reach("refused"); return 0; }
    utf8::unchecked::append(cp, std::back_inserter(t));
    psi_check(s == t, "the unchecked encoder differs");
    uint32_t d = 0;
    unsigned l = wf(s, 0, d);
    psi_check(l == s.size() && d == cp, "not the UTF-8 form of the code point");
    std::string::const_iterator it = s.begin(), e = s.end();
    psi_check(utf8::next(it, e) == cp && it == e, "the encoded code point decodes to another one");
    unsigned short w[2]; unsigned short* we = utf8::utf8to16(s.begin(), s.end(), w);
    psi_check(we - w == (cp > 0xffff ? 2 : 1), "number of UTF-16 units");
    std::string z; utf8::utf16to8(w, we, std::back_inserter(z));
    psi_check(z == s, "UTF-16 round trip");
    psi_observe("len", s.size());
    psi_reach("encoded");
    return 0;
}
#elif MODE == 2
struct Rec { uint32_t cp; const char* t[3]; };
#define R_(a, b, c, d) {a, {b, c, d}}
static const struct { uint32_t cp; const char *lo, *up, *ti; } O[] = {
#include "case_oracle.inc"
};
static const struct { uint32_t lo, hi; } NEWER[] = {
#include "case_newer.inc"
};
extern "C" int psi_main() {
    uint32_t b0 = FROM, n = TO - FROM;
    uint32_t blk = b0 + psi_pick(n, "block");
    psi_assume(blk < 0xd8 || blk > 0xdf);
    uint32_t cp = blk * 256 + (uint32_t)psi_sym_int(0, 255, "low");
    psi_assume(cp != 0);
    for (size_t i = 0; i < sizeof NEWER / sizeof *NEWER; i++) if (NEWER[i].hi >= blk * 256 && NEWER[i].lo <= blk * 256 + 255) psi_assume(cp < NEWER[i].lo || cp > NEWER[i].hi);
    StringCaseConverterManager& m = StringCaseConverterManager::getInstance();
    unsigned k = psi_pick(3, "case");
    boost::shared_ptr<StringGeneralCaseConverter> c = k == 0 ? m.getLowerCaseConverter("pl") : k == 1 ? m.getUpperCaseConverter("pl") : m.getTitleCaseConverter("pl");
    std::string s = enc(cp);
    std::string r = simpleConvert(*c, s);
    psi_obs_str("r", r);
    bool found = false;
    for (size_t i = 0; i < sizeof O / sizeof *O; i++) {
        if (O[i].cp / 256 != blk) continue;
        if (cp == O[i].cp) {
            psi_check(r == (k == 0 ? O[i].lo : k == 1 ? O[i].up : O[i].ti), "not the case mapping of the Unicode standard");
            found = true; psi_reach("mapped"); break;
        }
    }
    if (!found) { psi_check(r == s, "a character without case was changed"); psi_reach("caseless"); }
    if (r != s) psi_check(simpleWillBeTouchedWhenConverted(*c, s), "a text that changes is said to stay untouched");
    return 0;
}
#elif MODE == 3
static const char* POOL[] = {"a", "A", "i", "I", "\xc4\xb0", "\xc4\xb1", "\xcc\x87", "\xc3\x9f", "\xc5\x82", "\xe2\x82\xac", "\xf0\x90\x90\x80", "\xef\xac\x81"};
extern "C" int psi_main() {
    StringCaseConverterManager& m = StringCaseConverterManager::getInstance();
    unsigned k = psi_pick(3, "case"); bool tr = psi_flag("turkish");
    std::string lang = tr ? (psi_flag("az") ? "az" : "tr") : "en";
    boost::shared_ptr<StringGeneralCaseConverter> c = k == 0 ? m.getLowerCaseConverter(lang) : k == 1 ? m.getUpperCaseConverter(lang) : m.getTitleCaseConverter(lang);
    unsigned n = psi_pick(LEN + 1, "n");
    std::vector<std::string> ch; std::string s;
    for (unsigned i = 0; i < n; i++) { ch.push_back(POOL[psi_pick(12, "ch")]); s += ch.back(); }
    std::vector<std::string> want;
    for (unsigned i = 0; i < n; i++) {
        std::string w;
        if (tr && k == 0 && ch[i] == "I") w = i + 1 < n && ch[i + 1] == "\xcc\x87" ? "i" : "\xc4\xb1";
        else if (tr && k == 0 && ch[i] == "\xc4\xb0") w = "i";
        else if (tr && k == 0 && ch[i] == "\xcc\x87") w = i > 0 && ch[i - 1] == "I" ? "" : ch[i];
        else if (tr && k > 0 && ch[i] == "i") w = "\xc4\xb0";
        else { std::string one = simpleConvert(*m.getUpperCaseConverter("en"), ch[i]); w = k == 0 ? simpleConvert(*m.getLowerCaseConverter("en"), ch[i]) : k == 1 ? one : simpleConvert(*m.getTitleCaseConverter("en"), ch[i]); }
        want.push_back(w);
    }
    std::string all, head, tail;
    for (unsigned i = 0; i < n; i++) all += want[i];
    std::string r = simpleConvert(*c, s);
    psi_obs_str("all", r);
    psi_check(r == all, "converting a text is not converting its characters");
    psi_check(utf8::is_valid(r.begin(), r.end()), "the result is not UTF-8");
    if (n) {
        head = simpleConvert(*c, ch[0]);
        for (unsigned i = 1; i < n; i++) head += ch[i];
        tail = ch[0] + simpleConvert(*c, s.substr(ch[0].size()));
    }
    psi_check(simpleHeadConvert(*c, s) == head, "head conversion must change the first character only");
    psi_check(simpleTailConvert(*c, s) == tail, "tail conversion must leave the first character alone");
    if (r != s) psi_check(simpleWillBeTouchedWhenConverted(*c, s), "touched");
    if (head != s) psi_check(simpleWillBeTouchedWhenHeadConverted(*c, s), "head touched");
    if (tail != s) psi_check(simpleWillBeTouchedWhenTailConverted(*c, s), "tail touched");
    if (n == 0) psi_check(!simpleWillBeTouchedWhenHeadConverted(*c, s) && !simpleWillBeTouchedWhenTailConverted(*c, s), "an empty text is not touched");
    psi_reach(tr ? "turkish" : "other");
    return 0;
}
#endif
