// psi-server: request parser, URL decoding and document paths, forms, multipart uploads, sessions
#include "psisym.h"
#include <cstring>
#include <map>
#include <vector>
#if MODE <= 1
#include "server/server/request_parser.hpp"
#include "server/server/request.hpp"
using namespace http::server3;
#endif
#if MODE == 2
#include "server/server/request_handler.hpp"
#include "server/server/request.hpp"
#include "server/server/reply.hpp"
using namespace http::server3;
#endif
#if MODE == 3
#include "server/psi_server.hpp"
#include "server/session_manager.hpp"
#endif
#if MODE == 4
#include "server/mpfd-parser/Parser.h"
#endif
#if MODE == 5 || MODE == 6
#include "server/session_manager.hpp"
#endif
using std::string;

#if MODE <= 1
static int tri(boost::tribool b) { return b ? 1 : !b ? 0 : 2; }
static char token(const char* n) {
    // a letter, digit or '-' would do; any non-separator character is a token character
    uint64_t c = psi_sym_int(0x21, 0x7e, n);
    const char* sep = "()<>@,;:\\\"/[]?={}";
    bool bad = false;
    for (const char* s = sep; *s; s++) bad |= c == (unsigned char)*s;
    psi_assume(!bad);
    return (char)c;
}
#endif

#if MODE == 0
// a well-formed request, sent in two pieces, is understood exactly, and exactly at its last byte
static void run() {
    string method;
    unsigned m = psi_pick(4, "method");
    if (m == 0) method = "GET"; else if (m == 1 || m == 2) method = "POST"; else { method += token("m1"); method += token("m2"); }
    string uri = "/";
    unsigned un = psi_pick(3, "urilen");
    for (unsigned i = 0; i < un; i++) { uint64_t c = psi_sym_int(0x21, 0xff, "uri"); psi_assume(c != 0x7f); uri += (char)c; }
    char v1 = (char)psi_sym_int('0', '9', "major"), v2 = (char)psi_sym_int('0', '9', "minor");
    string rq = method + " " + uri + " HTTP/" + v1 + "." + v2 + "\r\n";
    std::vector<std::pair<string, string> > hs;
    unsigned nh = psi_pick(HDRS + 1, "headers");
    string body;
    if (m == 1 || m == 2) {
        unsigned bl = psi_pick(BODY + 1, "bodylen");
        body = string(bl, 0);
        if (bl) psi_sym(&body[0], bl, "body");
        hs.push_back(std::make_pair("Content-Length", string(1, '0' + bl)));
        if (m == 2) hs.push_back(std::make_pair("Content-Type", "multipart/form-data; boundary=x"));
    }
    for (unsigned i = 0; i < nh; i++) {
        string n, v;
        n += token("name");
        unsigned vl = psi_pick(3, "valuelen");
        for (unsigned k = 0; k < vl; k++) { uint64_t c = psi_sym_int(0x20, 0xff, "value"); psi_assume(c != 0x7f); v += (char)c; }
        hs.push_back(std::make_pair(n, v));
    }
    for (size_t i = 0; i < hs.size(); i++) rq += hs[i].first + ": " + hs[i].second + "\r\n";
    rq += "\r\n";
    rq += body;
    // where the data is cut: somewhere near the ends of the parts, or anywhere in the body
    size_t total = rq.size();
    size_t cut = total - psi_concretize(psi_sym_int(0, BODY + 3, "cut"));
    request req; request_parser p;
    const char* d = rq.data();
    string rest = rq + "X"; // more data after the end of the request is left alone
    int r = 2; const char* at;
    if (cut > 0 && cut < total) {
        string first = rq.substr(0, cut);
        boost::tribool t;
        const char* b = first.data();
        boost::tie(t, at) = p.parse(req, b, b + first.size());
        psi_check(tri(t) == 2, "the beginning of a request asks for more data");
        psi_check(at == b + first.size(), "all data of an incomplete request is used");
        string second = rest.substr(cut);
        b = second.data();
        boost::tie(t, at) = p.parse(req, b, b + second.size());
        psi_check(tri(t) == 1, "a well-formed request is accepted");
        psi_check(at == b + (total - cut), "a request ends at its last byte");
        psi_reach("two pieces");
    } else {
        boost::tribool t;
        const char* b = rest.data();
        boost::tie(t, at) = p.parse(req, b, b + rest.size());
        psi_check(tri(t) == 1, "a well-formed request is accepted");
        psi_check(at == b + total, "a request ends at its last byte");
        psi_reach("one piece");
    }
    psi_check(req.method == method, "the method is the one sent");
    psi_check(req.uri == uri, "the address is the one sent");
    psi_check(req.http_version_major == v1 - '0' && req.http_version_minor == v2 - '0', "the version is the one sent");
    psi_check(req.headers.size() == hs.size(), "as many headers as were sent");
    for (size_t i = 0; i < hs.size(); i++) {
        psi_check(req.headers[i].name == hs[i].first, "header names are the ones sent");
        psi_check(req.headers[i].value == hs[i].second, "header values are the ones sent");
    }
    psi_check(req.post_data == body, "the body is the one sent");
    if (m == 1 || m == 2) psi_reach(body.empty() ? "empty body" : "body");
}
#endif

#if MODE == 1
// any bytes: how they are cut into pieces makes no difference
static void run() {
    static const char* starts[] = {"", "G ", "GET / HTTP/1.", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\na: b", "POST / HTTP/1.1\r\nContent-Length: "};
    string s = starts[psi_pick(6, "start")];
    s += psi_str(1, NBYTES, "bytes");
    size_t from = s.size() > NBYTES + 1 ? s.size() - NBYTES - 1 : 0;
    size_t cut = from + psi_concretize(psi_sym_int(0, s.size() - from, "cut"));
    request a, b; request_parser p, q;
    boost::tribool ra, rb; const char *ea, *eb;
    const char* d = s.data();
    boost::tie(ra, ea) = p.parse(a, d, d + s.size());
    boost::tie(rb, eb) = q.parse(b, d, d + cut);
    if (tri(rb) == 2) {
        psi_check(eb == d + cut, "all data of an incomplete request is used");
        boost::tie(rb, eb) = q.parse(b, eb, d + s.size());
    }
    psi_check(tri(ra) == tri(rb), "same verdict however the data arrives");
    psi_check(ea == eb, "same end however the data arrives");
    psi_check(a.method == b.method && a.uri == b.uri && a.post_data == b.post_data && a.headers.size() == b.headers.size(), "same request however the data arrives");
    for (size_t i = 0; i < a.headers.size(); i++) psi_check(a.headers[i].name == b.headers[i].name && a.headers[i].value == b.headers[i].value, "same headers however the data arrives");
    psi_observe("verdict", tri(ra));
    if (tri(ra) == 0) psi_reach("refused");
    if (tri(ra) == 1) psi_reach("complete");
    if (tri(ra) == 2) psi_reach("incomplete");
}
#endif

#if MODE == 2
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void run() {
    static const char* starts[] = {"", "/", "/a", "/%2e"};
    string uri = starts[psi_pick(4, "start")];
    uri += psi_str(0, NBYTES, "uri");
    // reference decoding
    bool good = true; string path;
    for (size_t i = 0; good && i < uri.size(); i++) {
        if (uri[i] == '%') {
            if (i + 2 >= uri.size() || hexval(uri[i + 1]) < 0 || hexval(uri[i + 2]) < 0) good = false;
            else { path += (char)(hexval(uri[i + 1]) * 16 + hexval(uri[i + 2])); i += 2; }
        } else path += uri[i] == '+' ? ' ' : uri[i];
    }
    std::psi_ifstream::count() = 0;
    std::psi_ifstream::content() = string("text\0x", 6);
    request_handler h("/doc/root");
    request rq; reply rp; rq.method = "GET"; rq.uri = uri;
    h.handle_request(rq, rp);
    bool dots = path.find("..") != string::npos;
    if (!good || path.empty() || path[0] != '/' || dots) {
        psi_check(std::psi_ifstream::count() == 0, "nothing is opened for a wrong or escaping address");
        psi_check(rp.status == reply::bad_request, "a wrong address is answered by bad request");
        psi_reach("refused");
    } else {
        psi_check(std::psi_ifstream::count() <= 1, "one file is opened");
        if (std::psi_ifstream::count()) {
            const string& o = std::psi_ifstream::opened();
            psi_check(o.compare(0, 10, "/doc/root/") == 0, "the file is below the document root");
            psi_check((o + "/").find("/../") == string::npos, "the path has no parent directory in it");
            if (path.find('\0') == string::npos) {
                string want = "/doc/root" + path + (path[path.size() - 1] == '/' ? "index.html" : "");
                psi_check(o == want, "the file is the one named by the address");
                psi_check(rp.status == reply::ok && rp.content == string("text\0x", 6), "the reply holds the bytes of the file");
                psi_check(rp.headers.size() == 2 && rp.headers[0].value == "6", "the reply tells its length");
                psi_reach("served");
            }
        } else psi_check(path.find('\0') != string::npos, "a file is looked for");
    }
}
#endif

#if MODE == 3
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// a submitted form: every field arrives with the value that was entered, and any body is dealt with
static void run() {
    PsiServer* srv = (PsiServer*)new long[(sizeof(PsiServer) + 7) / 8 + 1]; // only its decoding functions are used
    SessionManager* sm = SessionManager::Instance();
    Session* s = sm->newSession();
    sm->setCurrentSession(s->getId());
    if (psi_flag("form")) {
        unsigned nf = 1 + psi_pick(FIELDS, "fields");
        string body; std::vector<string> val;
        static const char* names[] = {"a", "bc", "d"};
        for (unsigned i = 0; i < nf; i++) {
            string v, enc;
            unsigned l = psi_pick(VL + 1, "len");
            for (unsigned k = 0; k < l; k++) {
                unsigned how = psi_pick(3, "encoding");
                if (how == 0) { // as it is
                    uint64_t c = psi_sym_int(0x21, 0x7e, "c");
                    psi_assume(c != '%' && c != '+' && c != '&' && c != '=');
                    v += (char)c; enc += (char)c;
                } else if (how == 1) { v += ' '; enc += '+'; }
                else {
                    char h1 = psi_str_of("0123456789abcdefABCDEF", 1, 1, "h1")[0], h2 = psi_str_of("0123456789abcdefABCDEF", 1, 1, "h2")[0];
                    v += (char)(hexval(h1) * 16 + hexval(h2)); enc += '%'; enc += h1; enc += h2;
                }
            }
            if (i) body += '&';
            body += names[i]; body += '='; body += enc;
            val.push_back(v);
        }
        srv->parseNamesAndValues(body, 0);
        for (unsigned i = 0; i < nf; i++) psi_check(srv->session()->getData(names[i]) == val[i], "a field has the value that was entered");
        psi_reach("form");
    } else {
        string body = psi_str_of("a=&%+1", 0, NBYTES, "body");
        srv->parseNamesAndValues(body, 0);
        psi_reach("any body");
    }
}
#endif

#if MODE == 4
// an upload: fields and files arrive exactly, however the data is cut into pieces
static void run() {
    unsigned nf = 1 + psi_pick(PARTS, "parts");
    string body; std::vector<string> val; std::vector<int> kind;
    static const char* names[] = {"a", "bc", "d"};
    static const char* types[] = {"text/plain", "x/y"};
    for (unsigned i = 0; i < nf; i++) {
        unsigned k = psi_pick(4, "kind"); // text, file without type, file with type last, file with type first
        string v = psi_str(0, VL, "content");
        body += string("--XY\r\n");
        if (k == 3) body += string("Content-Type: ") + types[i & 1] + "\r\n";
        body += string("Content-Disposition: form-data; name=\"") + names[i] + "\"";
        if (k) body += string("; filename=\"f") + names[i] + "\"";
        if (k == 2) body += string("\r\nContent-Type: ") + types[i & 1];
        body += "\r\n\r\n" + v + "\r\n";
        psi_assume((v + "\r\n").find("--XY") == string::npos);
        val.push_back(v); kind.push_back(k);
    }
    body += "--XY--\r\n";
    MPFD::Parser p;
    p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory);
    p.SetContentType("multipart/form-data; boundary=XY");
    size_t n = psi_pick(2, "cuts"), at = 0;
    if (n) {
        // the cut lies in the last part: its content, the boundary after it or the headers before it
        size_t back = psi_concretize(psi_sym_int(1, VL + 24, "cut"));
        psi_assume(back < body.size());
        at = body.size() - back;
        string one = body.substr(0, at);
        p.AcceptSomeData(one.data(), one.size());
        psi_reach("two pieces");
    }
    string two = body.substr(at);
    p.AcceptSomeData(two.data(), two.size());
    std::map<string, MPFD::Field*> f = p.GetFieldsMap();
    psi_check(f.size() == nf, "as many fields as were sent");
    for (unsigned i = 0; i < nf; i++) {
        psi_check(f.count(names[i]) == 1, "the field that was sent is there");
        MPFD::Field* x = f[names[i]];
        if (kind[i] == 0) {
            psi_check(x->GetType() == MPFD::Field::TextType, "a text field is one");
            if (val[i].find('\0') == string::npos) psi_check(x->GetTextTypeContent() == val[i], "a text field has the text that was sent");
            psi_reach("text");
        } else {
            psi_check(x->GetType() == MPFD::Field::FileType, "a file is one");
            psi_check(x->GetFileName() == string("f") + names[i], "a file has the name that was sent");
            psi_check(x->GetFileContentSize() == val[i].size() && (val[i].empty() || !memcmp(x->GetFileContent(), val[i].data(), val[i].size())), "a file has the contents that were sent");
            if (kind[i] >= 2) { psi_check(x->GetFileMimeType() == types[i & 1], "a file has the type that was sent"); psi_reach("type"); }
            psi_reach("file");
        }
    }
}
#endif

#if MODE == 5
// cookies
static void run() {
    if (psi_flag("well-formed")) {
        SessionManager* sm = SessionManager::Instance();
        Session* a = sm->newSession(); Session* b = sm->newSession();
        string ia = a->getId(), ib = b->getId();
        psi_check(ia != ib, "session identifiers differ");
        psi_check(ia.size() == 25, "session identifiers have their length");
        psi_check(sm->isSession(ia) && sm->isSession(ib), "a new session is known");
        string pre = psi_str_of("a=b; ", 0, 4, "before"), post = psi_str_of(" ab=;", 0, 4, "after");
        if (!pre.empty()) pre += "; ";
        if (!post.empty()) post = ";" + post;
        string c = pre + SessionManager::CookieHeaderValue(ib) + post;
        psi_check(SessionManager::SessionId(c) == ib, "the identifier in a cookie is the one that was given");
        psi_reach("cookie");
    } else {
        static const char* starts[] = {"", "PSISESSIONID", "a=b; PSISESSIONID", "PSISESSIONI", "PSISESSIONID="};
        string c = starts[psi_pick(5, "start")];
        c += psi_str(0, NBYTES, "text");
        string id = SessionManager::SessionId(c);
        psi_check(id.size() <= 25, "an identifier is not longer than identifiers are");
        psi_check(id.empty() || c.find(id) != string::npos, "an identifier is part of the cookie");
        psi_reach("any cookie");
    }
}
#endif

#if MODE == 6
// session data: what one session stores is what it reads, and no other session sees it
static void run() {
    SessionManager* sm = SessionManager::Instance();
    string id[2]; id[0] = sm->newSession()->getId(); id[1] = sm->newSession()->getId();
    std::map<string, string> model[2];
    static const char* keys[] = {"k", "input-text", ""};
    unsigned n = 1 + psi_pick(OPS, "ops");
    for (unsigned i = 0; i < n; i++) {
        unsigned w = psi_pick(2, "session");
        sm->setCurrentSession(id[w]);
        Session* s = sm->currentSession();
        psi_check(s->getId() == id[w], "the current session is the one that was set");
        string k = keys[psi_pick(3, "key")];
        unsigned op = psi_pick(3, "op");
        string v = op < 2 ? psi_str(0, 1, "value") : string();
        if (op == 0) { s->setData(k, v); model[w][k] = v; }
        else if (op == 1) {
            string want = model[w][k].empty() ? v : model[w][k];
            psi_check(s->getDataOrSetIfNotExists(k, v) == want, "a default is used only when nothing is stored");
            model[w][k] = want;
        } else { s->clearData(k); model[w][k] = ""; }
    }
    for (unsigned w = 0; w < 2; w++) {
        sm->setCurrentSession(id[w]);
        Session* s = sm->currentSession();
        for (unsigned j = 0; j < 3; j++) {
            string want = model[w].count(keys[j]) ? model[w][keys[j]] : string();
            psi_check(s->getData(keys[j]) == want, "what was stored is read");
            psi_check(s->isData(keys[j]) == !want.empty(), "data is there if and only if it was stored");
        }
    }
    psi_reach("sessions");
}
#endif

extern "C" int psi_main() { run(); return 0; }
