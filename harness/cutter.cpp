// Segment length limits of cutters (tokenizers, segmenters).
#include "psisym.h"
#include "string_helpers.hpp"
#include "cutter.hpp"
#include <vector>
#ifndef CH
#define CH 4
#endif
static unsigned softL, hardL, segChars;
static std::vector<size_t> bounds;   // byte positions of character boundaries of the current text
struct C : Cutter {
    template <class T> AnnotationItem cut(const T& text, size_t& pos) {
        size_t i = 0; while (bounds[i] < pos) i++;
        i = i + segChars < bounds.size() - 1 ? i + segChars : bounds.size() - 1;
        size_t p = pos, e = bounds[i]; pos = e == text.length() && segChars % 2 ? std::string::npos : e;
        return AnnotationItem("T", StringFrag(text, p, e - p));
    }
    AnnotationItem doCutOff(const std::string& t, size_t& p) { return cut(t, p); }
    AnnotationItem doCutOff(const StringFrag& t, size_t& p) { return cut(t, p); }
    void doReset() {}
    size_t doSegmentLengthHardLimit() { return hardL; }
    size_t doSegmentLengthSoftLimit() { return softL; }
    std::list<std::string> doLayerTags() { return std::list<std::string>(1, "token"); }
};
static std::string utf8Text(unsigned n, unsigned maxLen) {
    std::string s; bounds.clear(); bounds.push_back(0);
    for (unsigned i = 0; i < n; i++) {
        unsigned l = 1 + psi_pick(maxLen, "charlen");
        unsigned char b[4];
        if (l == 1) b[0] = (unsigned char)psi_ite(psi_sym_int(0, 1, "space"), ' ', 'a');
        else { b[0] = l == 2 ? 0xc5 : l == 3 ? 0xe2 : 0xf0; for (unsigned k = 1; k < l; k++) b[k] = (unsigned char)psi_sym_int(0x90, 0xbf, "cont"); }
        s.append((char*)b, l); bounds.push_back(s.size());
    }
    return s;
}
template <class T> static void run(C& c, const T& text, const std::string& s) {
    size_t pos = 0; std::string all; size_t maxChar = 0;
    for (size_t i = 1; i < bounds.size(); i++) maxChar = std::max(maxChar, bounds[i] - bounds[i - 1]);
    unsigned steps = 0;
    try {
        do {
            size_t prev = pos;
            AnnotationItem it = c.cutOff(text, pos);
            size_t end = pos == std::string::npos ? s.size() : pos;
            psi_check(end > prev && end <= s.size(), "the cutter did not advance inside of the text");
            std::string seg = it.getText();
            psi_observe("cut", end);
            psi_check(seg == s.substr(prev, end - prev), "an item does not hold the text it was cut from");
            psi_check(it.getCategory() == "T", "category of a fragment");
            psi_check(!hardL || seg.size() <= hardL, "a segment exceeds the hard limit");
            bool atChar = false;
            for (size_t i = 0; i < bounds.size(); i++) atChar |= bounds[i] == end;
            psi_check(atChar, "a character was split");
            if (softL) for (size_t i = softL; i < seg.size(); i++) psi_check(seg[i] != ' ', "a segment goes on past a space after the soft limit");
            size_t ci = 0; while (ci + 1 < bounds.size() && bounds[ci] < end) ci++;
            // only the cutter itself, the soft limit or the hard limit ends a segment
            psi_check(end == s.size() || ci % segChars == 0 || (softL && seg.size() >= softL && s[end] == ' ') || (hardL && seg.size() + maxChar > hardL), "a segment was cut without reason");
            all += seg;
            psi_check(++steps <= s.size(), "more segments than bytes");
        } while (pos < s.size() && pos != std::string::npos);
        psi_check(all == s, "the segments do not add up to the text");
        psi_reach("done");
    } catch (Cutter::Exception&) {
        psi_check(hardL != 0 && hardL < maxChar, "the hard limit is refused although every character fits");
        psi_reach("refused");
    }
}
extern "C" int psi_main() {
    softL = psi_concretize(psi_sym_int(0, 5, "soft")); hardL = psi_concretize(psi_sym_int(0, 6, "hard")); segChars = 1 + psi_pick(CH, "segment");
    unsigned form = psi_pick(3, "form");
    C c;
    std::string s = utf8Text(CH, 4);
    if (form == 0) run(c, s, s);
    else if (form == 1) { std::string big = "ab" + s + "cd"; StringFrag f(big, 2, s.size()); run(c, f, s); }
    else {
        // a cutter abandoned in the middle of a text works on another one after a reset
        size_t pos = 0;
        try { c.cutOff(s, pos); } catch (Cutter::Exception&) {}
        c.reset();
        std::string t = utf8Text(1, 1); t += t; bounds.push_back(t.size());
        run(c, StringFrag(t), t);
    }
    return 0;
}
