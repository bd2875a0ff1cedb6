// Conversion between encodings: the characters that come out.
#include "psisym.h"
#include <vector>
#include <string>
#include <cstring>
#include "encoding_converter.hpp"
#include "charsets.h"
#include "uchardet.h"
#include <string>
#include <vector>
// the detector is a stand-in that may say anything
static const char* detected = "";
extern "C" {
uchardet_t uchardet_new() { return (void*)&detected; }
void uchardet_delete(uchardet_t) {}
int uchardet_handle_data(uchardet_t, const char*, size_t) { return 0; }
void uchardet_data_end(uchardet_t) {}
void uchardet_reset(uchardet_t) {}
const char* uchardet_get_charset(uchardet_t) { return detected; }
}
static std::string utf8(unsigned c) {
    std::string r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
// letters that some mark can join
static bool waits(unsigned u, bool viet) {
    static const unsigned short H[] = {1522,1488,1489,1490,1491,1492,1493,1494,1496,1497,1498,1499,1500,1502,1504,1505,1507,1508,1510,1511,1512,1513,1514}, V[] = {0xa5,0xa8,0xc2,0x102,0xc5,0xc6,0xc7,0xca,0xcf,0xd3,0xd4,0x1a0,0xd6,0xd8,0xda,0xdc,0x1af,0xe2,0x103,0xe5,0xe6,0xe7,0xea,0xef,0xf3,0xf4,0x1a1,0xf6,0xf8,0xfa,0xfc,0x1b0};
    if (!viet) { for (unsigned i = 0; i < sizeof H / 2; i++) if (H[i] == u) return true; return false; }
    for (unsigned i = 0; i < sizeof V / 2; i++) if (V[i] == u) return true;
    return (u >= 'A' && u <= 'Z' && u != 'F' && u != 'J' && u != 'Q' && u != 'X') || (u >= 'a' && u <= 'z' && u != 'f' && u != 'j' && u != 'q' && u != 'x');
}
extern "C" int psi_main() {
    EncodingConverter conv("UTF-8");
#if MODE == 0
    const unsigned N = sizeof CHARSET / sizeof *CHARSET;
    unsigned k = psi_pick(N, "charset"); const Charset& cs = CHARSET[k];
    std::string s, w; bool ok = true; unsigned n = 1 + psi_pick(LEN, "length");
    for (unsigned i = 0; i < n; i++) {
        unsigned c = (unsigned char)psi_sym_int(1, 255, "byte");
        
        s += (char)c;
        unsigned u = c < 0x80 ? c : cs.high[c - 0x80];
        if (!u) ok = false; else if (ok) w += utf8(u);
    }
    psi_note(cs.name); psi_note(s.c_str());
    std::string r = conv.convert(cs.name, "UTF-8", s);
    psi_check(r == (ok ? w : s), ok ? "other characters come out" : "text that is not in the encoding is changed");
    if (ok) { EncodingConverter back(cs.name); psi_check(back.convert("UTF-8", cs.name, w) == s, "the way back leads elsewhere"); }
    psi_reach(ok ? "converted" : "refused");
#elif MODE == 1
    static const char* NAME[] = {"ISO-8859-2", "windows-1251", "KOI8-R", "", "UTF-8", "X-unknown"};
    unsigned k = psi_pick(6, "detected"), form = psi_pick(2, "call"); detected = NAME[k];
    std::string s = psi_str(0, LEN, "text"), w; bool ok = k < 3;
    unsigned at = 0; while (ok && std::string(CHARSET[at].name) != detected) at++;
    const unsigned short* high = CHARSET[at].high;
    for (size_t i = 0; ok && i < s.size(); i++) { unsigned c = (unsigned char)s[i], u = c < 0x80 ? c : high[c - 0x80]; if (c >= 0x80 && !u) ok = false; else w += utf8(u); }
    if (!ok) w = s;
    std::string r = form ? conv.convert(s) : conv.convert(detected, s);
    psi_check(r == w, k < 3 ? "other characters come out" : "text that needs no conversion is changed");
    psi_reach(k < 3 ? "converted" : "kept");
#elif MODE == 2
    bool viet = psi_flag("1258"); const unsigned short* high = viet ? CP1258 : CP1255;
    std::string s, w, tail; unsigned n = 1 + psi_pick(LEN, "length"), last = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned c = psi_sym_int(1, 255, "byte"), u = c < 0x80 ? c : high[c - 0x80]; psi_assume(u != 0);
        // a mark may be joined with the letter before it into one character
        psi_assume(!(u >= 0x300 && u < 0x330) && !(u >= 0x5b0 && u < 0x5c4));
        s += (char)c; w += tail = utf8(u); last = u;
    }
    psi_note(s.c_str());
    std::string r = conv.convert(viet ? "windows-1258" : "windows-1255", s);
    if (r != w) psi_check(!(r.size() + tail.size() == w.size() && r + tail == w && waits(last, viet)), "[KF-C36-LAST] the last letter is lost");
    psi_check(r == w, "other characters come out");
    psi_reach(viet ? "Vietnamese" : "Hebrew");
#elif MODE == 3
    // more text than one buffer holds
    bool two = psi_flag("two bytes each"); unsigned n = (two ? 49990 : 99990) + psi_pick(20, "length");
    std::string s(n, two ? '\xb1' : 'a'), w; if (two) for (unsigned i = 0; i < n; i++) w += "\xc4\x85"; else w = s;
    for (int i = 0; i < 3; i++) { unsigned c = psi_pick(3, "char"); s += c == 0 ? "b" : c == 1 ? "\xe6" : "\xea"; w += c == 0 ? "b" : c == 1 ? "\xc4\x87" : "\xc4\x99"; }
    std::string r = conv.convert("ISO-8859-2", s);
    psi_check(r.size() == w.size() && r == w, "a part of a long text is lost");
    psi_reach("long");
#elif MODE == 4
    bool seven = SEVEN; std::string s, w; unsigned n = 1 + psi_pick(LEN, "length"); unsigned bits = 0, have = 0; bool in = false, little = false;
    static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (unsigned i = 0; i < n; i++) {
        if (!seven && psi_flag("byte order mark")) { if (psi_flag("other order")) { s += (char)(little ? 0xfe : 0xff); s += (char)(little ? 0xff : 0xfe); little = !little; } else { s += (char)(little ? 0xff : 0xfe); s += (char)(little ? 0xfe : 0xff); } psi_reach("byte order"); continue; }
        bool plain = psi_flag("ASCII"); unsigned c = plain ? psi_sym_int('a', 'z', "char") : psi_sym_int(0x80, 0xd7ff, "char"); w += utf8(c);
        if (!seven) { s += (char)(little ? c : c >> 8); s += (char)(little ? c >> 8 : c); continue; }
        if (0) { s += (char)(c >> 8); s += (char)c; continue; }
        if (plain) { if (in) { if (have) s += B[bits << (6 - have) & 63]; s += '-'; in = false; } s += (char)c; continue; }
        if (!in) { s += '+'; in = true; bits = have = 0; }
        bits = (bits & 63) << 16 | c; have += 16; while (have >= 6) { have -= 6; s += B[bits >> have & 63]; }
    }
    if (in) { if (have) s += B[bits << (6 - have) & 63]; if (psi_flag("minus")) s += '-'; }
    psi_note(s.c_str());
    psi_check(conv.convert(seven ? "UTF-7" : "UCS-2", s) == w, "other characters come out");
    psi_reach(seven ? "UTF-7" : "UCS-2");
#elif MODE == 5
    // any UTF-7 text, well formed or not
    std::string s = psi_str_of("+-Aa!", 0, LEN, "text"), w; bool in = false, ok = true; unsigned bits = 0, have = 0, fresh = 0;
    for (size_t i = 0; i < s.size() && ok; i++) {
        char c = s[i];
        if (in) {
            if (c == 'A' || c == 'a' || c == '+') {
                bits = bits << 6 | (c == 'A' ? 0 : c == 'a' ? 26 : 62); have += 6; fresh++;
                if (have >= 16) { have -= 16; unsigned u = bits >> have & 0xffff; bits &= (1u << have) - 1; fresh = 0; psi_assume(u < 0xd800 || u >= 0xe000); w += utf8(u); psi_reach("encoded"); }
                continue;
            }
            if (fresh || bits) { ok = false; break; }
            in = false; if (c == '-') continue;
        }
        if (c == '+') { if (i + 1 < s.size() && s[i + 1] == '-') { w += '+'; i++; psi_reach("plus"); } else { in = true; bits = have = fresh = 0; } }
        else w += c;
    }
    psi_assume(!ok || !in || !fresh);                                       // cut off within a character
    psi_note(s.c_str()); psi_note(w.c_str()); std::string r = conv.convert("UTF-7", s); psi_note(r.c_str());
    psi_check(r == (ok ? w : s), ok ? "other characters come out" : "text that is not in the encoding is changed");
    psi_reach(ok ? "converted" : "refused");
#endif
    return 0;
}
