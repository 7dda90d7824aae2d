// Independent HTTP/1.1 writer and client-side parser used as oracle.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <strings.h>

typedef std::vector<std::pair<std::string, std::string>> HList;

static const char* kTchar = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~";
static const char* kPchar = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~%!$&'()*+,;=:@";
static const char* kVchar = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\t";

inline bool ieq(const std::string& a, const std::string& b) { return strcasecmp(a.c_str(), b.c_str()) == 0 && a.size() == b.size(); }
inline std::string trim(std::string s) {
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back();
    size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
    return s.substr(i);
}
inline std::string recase(Src& s, std::string n) {
    switch (s.weighted({5, 1, 1, 1})) {
        case 1: for (auto& c : n) c = (char) tolower(c); break;
        case 2: for (auto& c : n) c = (char) toupper(c); break;
        case 3: { pbt::Rng r(s.draw(0xffff)); for (auto& c : n) c = (r.next() & 1) ? (char) toupper(c) : (char) tolower(c); break; }
        default: break;
    }
    return n;
}
inline std::string gen_hname(Src& s) {
    static const std::vector<std::string> known = {"User-Agent", "Accept", "X-A", "Connection", "Cookie", "Date", "Range", "Via", "Content-Type", "X-Forwarded-For"};
    if (s.boolean()) return recase(s, s.pick(known));
    std::string n = s.text((size_t) s.skew(1, 30), kTchar);
    for (const char* r : {"Host", "Content-Length", "Transfer-Encoding", "Upgrade", "Server", "Proxy-Connection", "Connection"}) if (ieq(n, r)) n = "X-" + n;
    return n;
}
inline std::string gen_hvalue(Src& s, size_t maxlen = 60) { return trim(s.text((size_t) s.skew(0, (int64_t) maxlen), kVchar)); }
inline HList gen_headers(Src& s, int mean, size_t maxv = 60) {
    HList h;
    while (s.more(mean) && h.size() < 40) {
        std::string n = gen_hname(s), v = gen_hvalue(s, maxv);
        if (ieq(n, "Connection")) v = s.pick<std::string>({"close", "keep-alive"});
        h.push_back({n, v});
    }
    return h;
}
inline std::string gen_hostname(Src& s) {
    std::string h;
    if (s.chance(1, 5)) { for (int i = 0; i < 4; ++i) h += (i ? "." : "") + std::to_string(s.range(0, 255)); return h; }
    do {
        if (!h.empty()) h += ".";
        std::string l = s.text((size_t) s.skew(1, 12), "abcdefghijklmnopqrstuvwxyzABCDEFGH0123456789-");
        if (l[0] == '-' || isdigit((unsigned char) l[0])) l[0] = 'a';
        if (l.back() == '-') l.back() = 'z';
        h += l;
    } while (s.more(2) && h.size() < 60);
    return h;
}
inline std::string gen_path(Src& s, size_t maxseg = 12) {
    std::string p;
    do { p += "/" + s.text((size_t) s.skew(0, (int64_t) maxseg), kPchar); } while (s.more(2) && p.size() < 400);
    if (s.chance(1, 3)) p += s.pick<std::string>({".flv", ".ts", ".mp4", ".", ".tar.gz", ".m3u8"});
    return p;
}
struct QueryPiece { std::string k, v; bool flag; };
inline std::string gen_query(Src& s, std::vector<QueryPiece>& ps) {
    std::string q;
    static const char* kc = "abcdefghijklmnopqrstuvwxyzABC0123456789-_.~%!$'()*+,;:@/?";
    static const char* vc = "abcdefghijklmnopqrstuvwxyzABC0123456789-_.~%!$'()*+,;:@/?=";
    while (s.more(3) && ps.size() < 12) {
        QueryPiece p;
        p.flag = s.chance(1, 8);
        p.k = s.text((size_t) s.skew(1, 10), kc);
        if (!p.flag) p.v = s.text((size_t) s.skew(0, 15), vc);
        if (!ps.empty()) q += "&";
        q += p.flag ? p.k : p.k + "=" + p.v;
        ps.push_back(p);
    }
    return q;
}
// the extension of the last path segment ("" if it has none)
inline std::string path_ext(const std::string& path) {
    size_t sl = path.rfind('/');
    std::string last = sl == std::string::npos ? path : path.substr(sl + 1);
    size_t d = last.rfind('.');
    return d == std::string::npos ? "" : last.substr(d + 1);
}
inline std::string hexnum(uint64_t v, bool upper = false, int zeros = 0) {
    char b[40]; snprintf(b, sizeof b, upper ? "%lX" : "%lx", (unsigned long) v);
    return std::string((size_t) zeros, '0') + b;
}
// splits a body into chunks of the given sizes
inline std::string chunk_body(Src& s, const Bytes& body, bool exotic = true) {
    std::string o;
    size_t at = 0;
    while (at < body.size()) {
        size_t k = (size_t) s.skew(1, (int64_t) (body.size() - at));
        o += hexnum(k, s.boolean(), exotic && s.chance(1, 6) ? (int) s.range(1, 5) : 0);
        if (exotic && s.chance(1, 8)) o += s.pick<std::string>({";a", ";a=b", ";x=\"y z\""});
        o += "\r\n" + body.substr(at, k) + "\r\n";
        at += k;
    }
    return o + "0\r\n\r\n";
}

// strict response parser. mode: how the body is delimited
struct Rsp {
    int status = 0;
    std::string version, reason;
    HList headers;
    Bytes body;
    bool complete = false;     // body end reached by framing
    enum { LENGTH, CHUNKED, CLOSE, NONE } mode = CLOSE;
    size_t used = 0;           // bytes of the message
    std::string err;
    int count(const std::string& n) const { int k = 0; for (auto& h : headers) if (ieq(h.first, n)) ++k; return k; }
    std::string get(const std::string& n) const { for (auto& h : headers) if (ieq(h.first, n)) return h.second; return ""; }
};
inline Rsp parse_response(const Bytes& d, size_t at, bool head_request = false) {
    Rsp r;
    auto bad = [&](const std::string& m) { r.err = m; return r; };
    size_t start = at;
    auto line = [&](std::string& l) {
        size_t e = d.find("\r\n", at);
        if (e == Bytes::npos) return false;
        l = d.substr(at, e - at); at = e + 2;
        return l.find('\n') == std::string::npos && l.find('\r') == std::string::npos;
    };
    std::string l;
    if (!line(l)) return bad("no status line");
    if (l.compare(0, 7, "HTTP/1.") != 0 || l.size() < 13 || l[8] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11]) || l[12] != ' ') return bad("bad status line " + l);
    r.status = atoi(l.c_str() + 9); r.version = l.substr(0, 8); r.reason = l.substr(13);
    while (true) {
        if (!line(l)) return bad("unterminated header");
        if (l.empty()) break;
        size_t c = l.find(':');
        if (c == 0 || c == std::string::npos) return bad("bad header line " + l);
        std::string n = l.substr(0, c);
        if (n.find_first_not_of(kTchar) != std::string::npos) return bad("bad header name " + n);
        r.headers.push_back({n, trim(l.substr(c + 1))});
    }
    bool te = r.count("Transfer-Encoding") > 0;
    if (r.count("Content-Length") > 1) return bad("several Content-Length");
    if (te && r.count("Content-Length")) return bad("Content-Length with Transfer-Encoding");
    if (te && r.count("Transfer-Encoding") > 1) return bad("several Transfer-Encoding");
    if (te && !ieq(r.get("Transfer-Encoding"), "chunked")) return bad("unknown Transfer-Encoding");
    if (head_request || r.status / 100 == 1 || r.status == 204 || r.status == 304) { r.mode = Rsp::NONE; r.complete = true; r.used = at - start; return r; }
    if (te) {
        r.mode = Rsp::CHUNKED;
        while (true) {
            if (!line(l)) { r.used = at - start; return r; }   // incomplete
            size_t e = l.find(';'); std::string h = trim(l.substr(0, e));
            if (h.empty() || h.size() > 16 || h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return bad("bad chunk size " + l);
            uint64_t n = strtoull(h.c_str(), nullptr, 16);
            if (n == 0) {
                if (d.compare(at, 2, "\r\n") != 0) return bad("chunk trailer");
                at += 2; r.complete = true; break;
            }
            if (n > d.size() || d.size() - at < n + 2) { r.body += d.substr(at, n); at = d.size(); r.used = at - start; return r; }
            r.body += d.substr(at, n); at += n;
            if (d.compare(at, 2, "\r\n") != 0) return bad("chunk not terminated by CRLF");
            at += 2;
        }
    } else if (r.count("Content-Length")) {
        r.mode = Rsp::LENGTH;
        std::string v = r.get("Content-Length");
        if (v.empty() || v.find_first_not_of("0123456789") != std::string::npos) return bad("bad Content-Length " + v);
        uint64_t n = strtoull(v.c_str(), nullptr, 10);
        size_t k = std::min<uint64_t>(n, d.size() - at);
        r.body = d.substr(at, k); at += k; r.complete = k == n;
    } else { r.mode = Rsp::CLOSE; r.body = d.substr(at); at = d.size(); }
    r.used = at - start;
    return r;
}
inline std::string hstr(const HList& h) { std::string o; for (auto& x : h) o += x.first + ": " + x.second + " | "; return o; }
template <class L> HList to_hlist(const L& l) { HList o; for (auto& h : l) o.push_back({h.key, h.value}); return o; }
