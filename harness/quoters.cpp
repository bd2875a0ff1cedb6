// Escaping used by the PSI, UTT and bracketing formats.
#include "psisym.h"
#include "psi_quoter.hpp"
#include "utt_quoter.hpp"
#include "bracketing_quoter.hpp"
#include "exceptions.hpp"
#ifndef N
#define N 4
#endif
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
extern "C" int psi_main() {
    unsigned which = psi_pick(3, "quoter");
    PsiQuoter pq; UTTQuoter uq; BracketingQuoter bq;
    Quoter* q = which == 0 ? (Quoter*)&pq : which == 1 ? (Quoter*)&uq : (Quoter*)&bq;
    if (psi_flag("direction")) {
        // quoters for several formats are used side by side
        bool others = psi_flag("others");
        std::string s = psi_str(0, others ? N / 2 : N, "text");
        if (others) {
            if (which != 0) pq.escape(s);
            if (which != 1) uq.escape(s);
            if (which != 2) bq.escape(s);
        }
        std::string e = q->escape(s);
        psi_obs_str("escaped", e);
        for (size_t i = 0; i < e.size(); i++) {
            psi_check(e[i] != '\n' && e[i] != '\t' && e[i] != '\r', "escaped text contains a field or line separator");
            if (which != 2) psi_check(e[i] != ' ', "escaped text contains a space");
        }
        if (which != 2) {
            // '*' alone stands for "no text", '#' starts a comment in PSI: neither may come out of escaping by itself
            psi_check(!(e.size() == 1 && e[0] == '*'), "escaped text is a bare asterisk");
            if (which == 0) psi_check(e.empty() || e[0] != '#', "escaped text starts a comment");
        }
        try {
            std::string back = q->unescape(e);
            psi_check(back == s, "unescape(escape(s)) != s");
            psi_reach("roundtrip");
        } catch (QuoterException&) { psi_fail("escaped text is rejected by unescape"); }
    } else {
        std::string s = psi_str(0, N, "raw");
        try {
            std::string u = q->unescape(s);
            psi_check(u.size() <= s.size(), "unescaped text is longer than the escaped one");
            if (which != 2) {
                // unescaping is the inverse of escaping on everything it accepts
                bool plain = true;
                for (size_t i = 0; i < s.size(); i++) if (blank(s[i]) || s[i] == '*' || s[i] == '#') plain = false;
                if (plain) {
                    // without redundant escapes the text comes back
                    std::string e = q->escape(u);
                    psi_check(q->unescape(e) == u, "escape/unescape not stable on accepted text");
                }
            }
            psi_reach("accepted");
        } catch (QuoterException&) { psi_reach("rejected"); }
    }
    return 0;
}
