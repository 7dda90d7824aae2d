// PROPERTIES: P11 P12
// TECHNIQUE P11: property-based testing: generated URLs, request headers, responses, framings, fragmentations and cuts over loopback connections; the generated request and response as oracle
// TECHNIQUE P12: property-based testing: generated request histories on concurrent persistent connections, hosts, upstream answers and upstream faults; an independent strict client and server parse both sides and compare them with what was generated
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/socket.h>

#include "stnet.hpp"
#include "http_model.hpp"

#include <sps_host_module.hpp>
#include <sps_host_router_handler.hpp>
#include <sps_http_adapter_phase_handler.hpp>
#include <sps_http_phase_handler.hpp>
#include <sps_http_proxy_phase_handler.hpp>
#include <sps_http_server.hpp>
#include <sps_io_memory.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>

using namespace sps;
using namespace stn;

// ---------------------------------------------------------------- stub servers
struct Listener { st_netfd_t fd = nullptr; int port = 0; std::string addr; };
static Listener listen_any(bool listening = true) {     // bound without listening: connections are refused
    Listener l;
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (s < 0 || bind(s, (sockaddr*) &a, sizeof a) || (listening && listen(s, 64)) || getsockname(s, (sockaddr*) &a, &n)) { perror("listen"); _exit(3); }
    l.port = ntohs(a.sin_port);
    l.addr = "127.0.0.1:" + std::to_string(l.port);
    l.fd = st_netfd_open_socket(s);
    return l;
}
// on port 80 of a loopback address of this process, so that its address needs no port; elsewhere if that is not possible
static Listener listen_default_port() {
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), on = 1;
    sockaddr_in a{};
    uint32_t pid = (uint32_t) getpid();
    a.sin_family = AF_INET; a.sin_port = htons(80);
    a.sin_addr.s_addr = htonl(127u << 24 | (1 + (pid >> 14) % 200) << 16 | (1 + (pid >> 7 & 127)) << 8 | (1 + (pid & 127)));
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    if (s < 0 || bind(s, (sockaddr*) &a, sizeof a) || listen(s, 64)) { if (s >= 0) close(s); return listen_any(); }
    Listener l;
    char t[32];
    l.port = 80;
    l.addr = inet_ntop(AF_INET, &a.sin_addr, t, sizeof t);
    l.fd = st_netfd_open_socket(s);
    return l;
}
static const int kUpstreams = 4;
static Listener ups[kUpstreams];
static int dead_port;

struct Sock {                       // one accepted connection
    st_netfd_t fd;
    Bytes buf;
    bool more() {
        char t[4096];
        ssize_t n = st_read(fd, t, sizeof t, 20 * 1000000);
        if (n <= 0) return false;
        buf.append(t, (size_t) n);
        return true;
    }
    void send(const Bytes& d, const Frag& f) {
        size_t at = 0, i = 0, pieces = 0;
        while (at < d.size()) {
            size_t k = std::min(f.sizes[std::min(i++, f.sizes.size() - 1)], d.size() - at);
            if (++pieces > 60) k = d.size() - at;      // a long tail in one piece
            if (st_write(fd, d.data() + at, k, 20 * 1000000) != (ssize_t) k) return;
            at += k;
            if (at < d.size()) st_usleep(0);
        }
    }
    void reset() { linger l{1, 0}; setsockopt(st_netfd_fileno(fd), SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    explicit Sock(st_netfd_t f) : fd(f) { int one = 1; setsockopt(st_netfd_fileno(f), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    ~Sock() { st_netfd_close(fd); }
};

// a request as a strict server reads it
struct Req { std::string method, target, version, err; HList headers; Bytes body; bool chunked = false, length = false, cut = false;
    int count(const std::string& n) const { int k = 0; for (auto& h : headers) if (ieq(h.first, n)) ++k; return k; }
    std::string get(const std::string& n) const { for (auto& h : headers) if (ieq(h.first, n)) return h.second; return ""; } };
static Req read_request(Sock& k) {
    Req r;
    auto bad = [&](const std::string& m) { r.err = m; return r; };
    size_t e;
    while ((e = k.buf.find("\r\n\r\n")) == Bytes::npos) if (!k.more()) { r.cut = true; return bad("connection ended in the header: " + pbt::quote(k.buf)); }
    Bytes head = k.buf.substr(0, e + 2);
    k.buf.erase(0, e + 4);
    if (head.find('\0') != Bytes::npos) return bad("NUL in the header");
    size_t at = 0, n = 0;
    while (at < head.size()) {
        size_t eol = head.find("\r\n", at);
        std::string l = head.substr(at, eol - at);
        at = eol + 2;
        if (l.find_first_of("\r\n") != std::string::npos) return bad("stray CR or LF");
        if (n++ == 0) {
            size_t a = l.find(' '), b = l.rfind(' ');
            if (a == std::string::npos || a == b) return bad("request line " + l);
            r.method = l.substr(0, a); r.target = l.substr(a + 1, b - a - 1); r.version = l.substr(b + 1);
            if (r.version != "HTTP/1.1" || r.target.empty() || r.target.find(' ') != std::string::npos) return bad("request line " + l);
            continue;
        }
        size_t c = l.find(':');
        if (c == 0 || c == std::string::npos || l.substr(0, c).find_first_not_of(kTchar) != std::string::npos) return bad("header line " + l);
        r.headers.push_back({l.substr(0, c), trim(l.substr(c + 1))});
    }
    if (r.count("Host") != 1) return bad(std::to_string(r.count("Host")) + " Host headers");
    if (r.count("Content-Length") > 1 || r.count("Transfer-Encoding") > 1 || (r.count("Content-Length") && r.count("Transfer-Encoding"))) return bad("ambiguous framing " + hstr(r.headers));
    if (r.count("Transfer-Encoding")) {
        if (!ieq(r.get("Transfer-Encoding"), "chunked")) return bad("Transfer-Encoding " + r.get("Transfer-Encoding"));
        r.chunked = true;
        while (true) {
            size_t x;
            while ((x = k.buf.find("\r\n")) == Bytes::npos) if (!k.more()) { r.cut = true; return bad("connection ended in a chunk size"); }
            std::string h = k.buf.substr(0, x);
            h = trim(h.substr(0, h.find(';')));
            if (h.empty() || h.size() > 16 || h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return bad("chunk size " + h);
            size_t len = strtoull(h.c_str(), nullptr, 16);
            k.buf.erase(0, x + 2);
            while (k.buf.size() < len + 2) if (!k.more()) { r.cut = true; return bad("connection ended in a chunk"); }
            r.body += k.buf.substr(0, len);
            if (k.buf.compare(len, 2, "\r\n")) return bad("chunk not ended by CRLF");
            k.buf.erase(0, len + 2);
            if (!len) break;
        }
    } else if (r.count("Content-Length")) {
        std::string v = r.get("Content-Length");
        if (v.empty() || v.find_first_not_of("0123456789") != std::string::npos) return bad("Content-Length " + v);
        size_t len = strtoull(v.c_str(), nullptr, 10);
        r.length = true;
        while (k.buf.size() < len) if (!k.more()) { r.cut = true; return bad("connection ended in the body, " + std::to_string(k.buf.size()) + " of " + v + " bytes"); }
        r.body = k.buf.substr(0, len);
        k.buf.erase(0, len);
    }
    return r;
}
// removes the first header of that name whose value is v; false if there is none
static bool take(HList& h, const std::string& n, const std::string& v) {
    for (size_t i = 0; i < h.size(); ++i) if (ieq(h[i].first, n) && h[i].second == v) { h.erase(h.begin() + (long) i); return true; }
    return false;
}

// ---------------------------------------------------------------- generated responses
struct Plan {
    int status = 200;
    HList headers;                 // without framing
    int mode = 0;                  // 0 length, 1 chunked, 2 close, 3 without a body
    int64_t declared = -1;         // Content-Length header (mode 0 and sometimes 3)
    bool te = false;
    Bytes body, wire;
    size_t head = 0;               // bytes of the header
    int fault = 0;                 // 0 none, 1 cut, 2 bad chunk, 3 garbage instead of a response, 4 closed without one, 5 cut by a reset
    size_t cut = 0;
    Frag frag;
    bool linger = true;            // the connection stays open after the response
    HList all;                     // all headers in order
    std::string str() const { return std::to_string(status) + " mode " + std::to_string(mode) + " body " + std::to_string(body.size()) + " fault " + std::to_string(fault) + (fault ? "@" + std::to_string(cut) + "/" + std::to_string(wire.size()) : "") + (linger ? " open " : " closed ") + frag.str() + " " + hstr(all); }
};
static Bytes gen_body(Src& s) { return s.blob(s.chance(1, 12) ? (size_t) s.range(1000, 1100) : s.chance(1, 25) ? (size_t) s.skew(0, 200000) : (size_t) s.skew(0, 3000)); }
static Plan gen_plan(Src& s, bool head, bool last, bool faults) {
    Plan p;
    p.status = s.boolean() ? 200 : s.chance(1, 6) ? s.pick<int>({204, 304}) : (int) s.range(200, 599);
    bool none = head || p.status == 204 || p.status == 304;
    p.headers = gen_headers(s, 3);
    if (!last) for (auto& h : p.headers) if (ieq(h.first, "Connection")) h.second = "keep-alive";
    if (s.chance(1, 6)) p.headers.insert(p.headers.begin() + (long) s.draw(p.headers.size()), {recase(s, "Server"), gen_hvalue(s)});
    p.all = p.headers;
    if (none) {
        p.mode = 3;
        switch (s.draw(2)) {
            case 1: if (p.status != 204) p.declared = s.skew(0, 5000); break;
            case 2: if (p.status != 204) p.te = true; break;
            default: break;
        }
    } else {
        p.mode = last ? (int) s.draw(2) : (int) s.draw(1);
        p.body = gen_body(s);
        if (p.mode == 0) p.declared = (int64_t) p.body.size();
        if (p.mode == 1) p.te = true;
    }
    if (p.declared >= 0) p.all.insert(p.all.begin() + (long) s.draw(p.all.size()), {recase(s, "Content-Length"), std::to_string(p.declared)});
    if (p.te) p.all.insert(p.all.begin() + (long) s.draw(p.all.size()), {recase(s, "Transfer-Encoding"), recase(s, "chunked")});
    p.wire = "HTTP/1." + std::string(p.te ? "1" : s.pick<std::string>({"1", "1", "0"})) + " " + std::to_string(p.status) + s.pick<std::string>({" OK", " Not Found", " ", " Some Long Reason!"}) + "\r\n";
    for (auto& h : p.all) p.wire += h.first + ":" + s.pick<std::string>({" ", " ", "", "  "}) + h.second + "\r\n";
    p.wire += "\r\n";
    p.head = p.wire.size();
    if (p.head > 2000) throw pbt::Discard();
    p.wire += p.mode == 1 ? chunk_body(s, p.body) : p.body;
    p.frag = gen_frag(s, 300);
    p.linger = s.boolean();
    if (faults && s.chance(1, 4)) {
        p.fault = (int) s.range(1, 5);
        if (p.fault == 2 && (p.mode != 1 || p.body.empty())) p.fault = 1;
        if (p.fault == 1 || p.fault == 5) {
            p.cut = (size_t) (s.chance(1, 3) ? s.range(0, (int64_t) p.head) : s.range((int64_t) p.head, (int64_t) p.wire.size()));
            if (p.cut >= p.wire.size() || (p.cut >= p.head && p.mode >= 2)) p.fault = 0;
        }
        if (p.fault == 2) p.wire.replace(p.head, p.wire.find("\r\n", p.head) - p.head, s.pick<std::string>({"zz", "", "-5", "g1", ";a=5", " ", "111111111111111111111111111111111111", "fffffffffffffffff"}));
        if (p.fault == 3) p.wire = s.pick<std::string>({"SPAM/1.1 200 OK\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "\r\n\r\n\r\n\r\n", "HTTP/1.1 200 OK\r\nbad\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nab"});
        if (p.fault == 4) { p.cut = 0; p.fault = 1; }
        if (p.fault == 3 || p.fault == 1 || p.fault == 5) p.linger = false;
    }
    if (p.mode == 2) p.linger = false;
    return p;
}
static bool head_ok(const Plan& p) { return p.fault == 0 || p.fault == 2 || ((p.fault == 1 || p.fault == 5) && p.cut >= p.head); }
static void answer(Sock& k, const Plan& p) {
    if (p.fault == 1 || p.fault == 5) {
        k.send(p.wire.substr(0, p.cut), p.frag);
        // a reset makes the peer's kernel drop what it has not read, so it is only used after a pause
        if (p.fault == 5) { st_usleep(2000); k.reset(); }
    } else k.send(p.wire, p.frag);
}
// for a while after the answer, the connection stays open
static void hold(Sock& k) { while (k.more()) {} }

static void setup() {
    quiet_log();
    stn::init();
    for (auto& u : ups) u = &u == ups + kUpstreams - 1 ? listen_default_port() : listen_any();
    dead_port = listen_any(false).port;
    SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<HttpURLProtocolFactory>());
}

// ---------------------------------------------------------------- P11
// a request body as the proxy passes it on: pieces, some empty, then the end or an error
class BodySource : public IReader {
 public:
    BodySource(const std::vector<Bytes>& p, int end) : p(p), end(end) {}
    error_t read(void* buf, size_t size, size_t& nread) override {
        if (i >= p.size()) return end;
        nread = std::min(size, p[i].size() - at);
        memcpy(buf, p[i].data() + at, nread);
        at += nread;
        if (at >= p[i].size()) { ++i; at = 0; }
        return SUCCESS;
    }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_SOCKET_CLOSED; }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 10 * 1000000; }
    std::vector<Bytes> p;
    int end;
    size_t i = 0, at = 0;
};
static void p11(Src& s, Ctx& c) {
    std::string method = s.pick<std::string>({"GET", "GET", "HEAD", "DELETE", "OPTIONS", "POST"});
    std::string host = s.chance(1, 3) ? "127.0.0.1" : gen_hostname(s);
    std::string path = s.chance(1, 10) ? "" : gen_path(s);
    std::vector<QueryPiece> qp;
    std::string q = gen_query(s, qp);
    HList hs = gen_headers(s, 3);
    for (auto& h : hs) if (ieq(h.first, "Host")) h.first = "X-Host";
    int with_body = s.chance(1, 3) ? (int) s.range(1, 2) : 0;      // 1 declared length, 2 chunked
    bool own_host = s.chance(1, 5), own_len = !with_body && s.chance(1, 6), body_fails = false;
    HList given = hs;
    std::vector<Bytes> pieces;
    Bytes up;
    if (with_body) {
        method = s.pick<std::string>({"POST", "PUT", "PATCH"});
        while (s.more(3) && pieces.size() < 8) { pieces.push_back(s.chance(1, 6) ? Bytes() : s.blob(s.chance(1, 12) ? (size_t) s.skew(1, 20000) : (size_t) s.skew(1, 400))); up += pieces.back(); }
        body_fails = s.chance(1, 8);
        given.insert(given.begin() + (long) s.draw(given.size()), with_body == 1 ? std::make_pair(recase(s, "Content-Length"), std::to_string(up.size() + (body_fails ? 1 : 0))) : std::make_pair(recase(s, "Transfer-Encoding"), recase(s, "chunked")));
        c.label(with_body == 1 ? "body-length" : "body-chunked");
        c.mix(up);
    }
    if (own_len) { given.insert(given.begin() + (long) s.draw(given.size()), {recase(s, "Content-Length"), "0"}); }
    if (own_host) given.insert(given.begin() + (long) s.draw(given.size()), {recase(s, "Host"), host});
    Plan p = gen_plan(s, method == "HEAD", true, true);
    if (p.fault == 0 && p.mode < 2 && s.chance(1, 8)) { p.wire += s.blob(30); c.label("extra-bytes"); }
    std::vector<ReadOp> reads;
    do { reads.push_back({s.chance(1, 5), s.chance(1, 6) ? (size_t) s.range(2000, 40000) : (size_t) s.skew(1, 1500)}); } while (s.more(3));
    int port = ups[0].port;
    std::string url = "http://" + host + ":" + std::to_string(port) + path + (q.empty() ? "" : "?" + q);
    std::string target = (path.empty() ? "/" : path) + (q.empty() ? "" : "?" + q);
    c.mix(method + url + hstr(given)); c.mix(p.wire); c.mix(&p.fault, sizeof p.fault);
    for (auto& r : reads) c.mix(&r, sizeof r);
    if (c.want_desc) { c.desc << method << " " << pbt::quote(target) << " host " << host << " " << hstr(given) << "-> " << p.str() << " reads"; for (auto& r : reads) c.desc << (r.full ? " full:" : " ") << r.size; }
    c.label(p.fault ? "fault-" + std::to_string(p.fault) : "mode-" + std::to_string(p.mode));
    c.nontrivial = p.fault || !p.body.empty();
    auto g = group();
    auto done = std::make_shared<bool>(false);
    g->go([=] {
        st_netfd_t fd = st_accept(ups[0].fd, nullptr, nullptr, 20 * 1000000);
        CHECK_MSG(fd, "the client did not connect");
        Sock k(fd);
        Req r = read_request(k);
        if (body_fails) { CHECK_MSG(!r.err.empty(), "a request whose body failed arrives as complete"); return; }
        CHECK_MSG(r.err.empty(), "the server cannot read the request: " << r.err);
        CHECK_EQ(r.method, method);
        CHECK_EQ(r.target, target);
        std::string hv = r.get("Host");
        CHECK_MSG(hv == host || hv == host + ":" + std::to_string(port), "Host is " << hv << " instead of " << host);
        CHECK_MSG(r.body == up && r.chunked == (with_body == 2), "a body of " << r.body.size() << (r.chunked ? " bytes in chunks" : " bytes") << " instead of " << up.size());
        HList got = r.headers;
        size_t at = 0;
        for (auto& h : got) if (at < hs.size() && h.first == hs[at].first && h.second == hs[at].second) ++at;
        CHECK_MSG(at == hs.size(), "headers sent " << hstr(got) << " asked for " << hstr(hs));
        for (auto& h : hs) CHECK_MSG(take(got, h.first, h.second), "header " << h.first << " missing");
        for (auto& h : got) {     // what the client adds must not contradict what was asked for
            for (auto& o : hs) CHECK_MSG(!ieq(h.first, o.first), "header " << h.first << ": " << h.second << " added to the one asked for");
            if (ieq(h.first, "Accept")) CHECK_MSG(h.second.find("/*") != std::string::npos || h.second.find('*') == std::string::npos, "Accept: " << h.second);
        }
        answer(k, p);
        if (p.linger) hold(k);
    });
    g->go([=] {
        PRequestUrl req;
        CHECK(RequestUrl::from(url, req) == SUCCESS);
        req->method = method;
        req->ip = "127.0.0.1";
        for (auto& h : given) req->headers.push_back(RequestHeader(h.first, h.second));
        if (with_body) req->body = std::make_shared<BodySource>(pieces, body_fails ? ERROR_SOCKET_CLOSED : ERROR_HTTP_RES_EOF);
        auto u = SingleInstance<UrlProtocol>::get_instance().create(req);
        CHECK_MSG(u, "no protocol for http");
        error_t e = u->open(req, DEFAULT);
        if (body_fails) { CHECK_MSG(e != SUCCESS, "open succeeds although the request body failed"); return; }
        if (!head_ok(p)) { CHECK_MSG(e != SUCCESS, "open succeeds without a response header"); return; }
        CHECK_MSG(e == SUCCESS, "open fails with " << e);
        auto rsp = std::dynamic_pointer_cast<HttpResponse>(u->response());
        CHECK_MSG(rsp, "no response");
        CHECK_EQ(rsp->status_code, p.status);
        CHECK_EQ(rsp->success(), p.status == 200);
        HList got = to_hlist(rsp->headers);
        CHECK_MSG(got == p.all, "headers " << hstr(got) << " expected " << hstr(p.all));
        u->set_recv_timeout(10 * 1000000);
        Bytes body;
        size_t i = 0;
        error_t r;
        while (true) {
            ReadOp op = reads[std::min(i++, reads.size() - 1)];
            size_t n = 0;
            if (op.full && body.size() < p.body.size() && !p.fault) {
                op.size = std::min(op.size, p.body.size() - body.size());
                Heap h(Bytes(op.size, (char) 0xA5));
                ssize_t nn = -1;
                r = u->read_fully(h.p, op.size, &nn);
                CHECK_MSG(r == SUCCESS && nn == (ssize_t) op.size, "exact read of " << op.size << " at " << body.size() << " of " << p.body.size() << ": " << r);
                body.append((char*) h.p, op.size);
                continue;
            }
            Heap h(Bytes(op.size, (char) 0xA5));
            r = u->read(h.p, op.size, n);
            if (r != SUCCESS) break;
            CHECK_MSG(n <= op.size, "read of " << op.size << " returns " << n);
            CHECK_MSG(n > 0 || (p.mode == 1 && body.size() == p.body.size()), "read of nothing at " << body.size());
            body.append((char*) h.p, n);
            CHECK_MSG(body.size() <= p.wire.size() && i < 2 * p.wire.size() + 100, "endless body");
        }
        if (p.fault) {
            CHECK_MSG(r != ERROR_HTTP_RES_EOF && r != ERROR_SOCKET_TIMEOUT, "damaged body ended with " << r << " after " << body.size());
            if (p.fault != 2) CHECK_MSG(body.size() <= p.body.size() && p.body.compare(0, body.size(), body) == 0, "not a prefix of the body");
        } else {
            CHECK_MSG(body == p.body, "body of " << body.size() << " bytes " << pbt::hex(body) << " expected " << p.body.size() << " " << pbt::hex(p.body) << " ended with " << r);
            if (p.mode != 2) CHECK_MSG(r == ERROR_HTTP_RES_EOF, "body ended with " << r);
            else CHECK_MSG(r != ERROR_SOCKET_TIMEOUT, "close-delimited body ended with " << r);
            size_t n = 0; char x[8];
            error_t again = u->read(x, sizeof x, n);
            CHECK_MSG(again != SUCCESS, "end of body not stable");
        }
        *done = true;
    });
    g->join(60, "HTTP client");
}

// ---------------------------------------------------------------- P12
struct Exchange {
    std::string method, host, hostv, path, target, id;
    HList headers;               // without Host, framing and the id
    int framing = 0;             // request: 0 none, 1 length, 2 chunked, 3 Content-Length: 0
    Bytes body, wire;
    int upstream = -1;           // -1: unknown host, -2: unreachable
    Plan plan;
    bool last = false;
    int seen = 0;
    bool gone = false;           // the client disappears before the request is complete
};
typedef std::shared_ptr<Exchange> PExchange;

static PHostModule mkhost(const std::string& name, const std::string& addr, bool typed) {
    std::string t = "pass_proxy " + addr + ";\n" + (typed ? "type proxy;\n" : "") + "}\n";
    HostModuleFactory f;
    auto m = f.create("host", name, nullptr);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) t.data(), (int) t.size());
    CHECK(m->init_conf(rd) == SUCCESS);
    return std::dynamic_pointer_cast<HostModule>(m);
}
static Bytes framing_free(const HList& h) { HList o; for (auto& x : h) if (!ieq(x.first, "Content-Length") && !ieq(x.first, "Transfer-Encoding")) o.push_back(x); return hstr(o); }

static void p12(Src& s, Ctx& c) {
    // hosts: name pattern and a name that it serves
    struct H { std::string pattern, name; int upstream; };
    std::vector<H> hosts;
    size_t nh = 1 + s.draw(2);
    for (size_t i = 0; i < nh; ++i) {
        H h;
        h.name = "h" + std::to_string(i) + "." + gen_hostname(s);
        h.upstream = s.chance(1, 10) ? -2 : (int) s.draw(kUpstreams - 1);
        h.pattern = s.chance(1, 4) && h.name.find('.') != std::string::npos ? "*" + h.name.substr(h.name.find('.')) : h.name;
        bool dup = false;
        for (auto& o : hosts) dup |= o.pattern == h.pattern;
        if (!dup) hosts.push_back(h);
    }
    if (s.chance(1, 6)) hosts.push_back({"*", "default." + gen_hostname(s), (int) s.draw(kUpstreams - 1)});
    auto router = std::make_shared<HostModulesRouter>();
    for (auto& h : hosts)
        CHECK(router->register_host(mkhost(h.pattern, h.upstream < 0 ? "127.0.0.1:" + std::to_string(dead_port) : ups[h.upstream].addr, s.boolean())) == SUCCESS);
    bool deflt = hosts.back().pattern == "*";
    auto server = std::make_shared<HttpServer>();
    server->reg(std::make_shared<HttpParsePhaseHandler>());
    server->reg(std::make_shared<HostRouterPhaseHandler>(router, std::make_shared<HttpAdapterPhaseHandler>(), std::make_shared<Http404PhaseHandler>()));

    struct Client { std::vector<PExchange> xs; bool pipelined; Frag rf, wf, cf; bool half; };
    std::vector<Client> clients(1 + (s.chance(1, 3) ? s.draw(2) : 0));
    auto by_id = std::make_shared<std::map<std::string, PExchange>>();
    int ids = 0;
    for (auto& cl : clients) {
        size_t n = 1 + s.draw(4);
        for (size_t i = 0; i < n; ++i) {
            auto x = std::make_shared<Exchange>();
            x->last = i + 1 == n;
            x->method = s.pick<std::string>({"GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD"});
            x->id = std::to_string(++ids);
            if (s.chance(1, 8) && !deflt) { x->host = "nowhere." + gen_hostname(s); x->upstream = -1; 
                // a wildcard host may cover it
                for (auto& h : hosts) if (h.pattern[0] == '*' && h.pattern.substr(1) == x->host.substr(x->host.find('.'))) x->upstream = h.upstream; }
            else {
                auto& h = hosts[s.draw(hosts.size() - 1)]; x->host = h.name; x->upstream = h.upstream;
                // an exact name wins over a wildcard
                for (auto& o : hosts) if (o.pattern == x->host) x->upstream = o.upstream;
            }
            x->hostv = x->host + (s.chance(1, 4) ? ":" + std::to_string(s.range(1, 65535)) : "");
            x->path = gen_path(s);
            std::vector<QueryPiece> qp;
            std::string q = gen_query(s, qp);
            x->target = x->path + (q.empty() ? "" : "?" + q);
            x->headers = gen_headers(s, 3);
            for (auto& h : x->headers) { if (ieq(h.first, "X-Id")) h.first = "X-Other"; if (ieq(h.first, "Connection") && !x->last) h.second = "keep-alive"; }
            if (s.chance(1, 2)) { x->framing = 1 + (int) s.draw(2); if (x->framing < 3) x->body = gen_body(s); if (x->framing == 1 && x->body.empty()) x->framing = 3; }
            HList all = x->headers;
            all.insert(all.begin() + (long) s.draw(all.size()), {"X-Id", x->id});
            all.insert(all.begin() + (long) s.draw(all.size()), {recase(s, "Host"), x->hostv});
            if (x->framing == 1 || x->framing == 3) all.insert(all.begin() + (long) s.draw(all.size()), {recase(s, "Content-Length"), std::to_string(x->body.size())});
            if (x->framing == 2) all.insert(all.begin() + (long) s.draw(all.size()), {recase(s, "Transfer-Encoding"), recase(s, "chunked")});
            x->wire = x->method + " " + x->target + " HTTP/1.1\r\n";
            for (auto& h : all) x->wire += h.first + ": " + h.second + "\r\n";
            x->wire += "\r\n";
            if (x->wire.size() > 1900) throw pbt::Discard();
            x->wire += x->framing == 2 ? chunk_body(s, x->body) : x->body;
            x->plan = gen_plan(s, x->method == "HEAD", x->last, x->last);
            if (x->last && s.chance(1, 12)) { x->gone = true; x->wire.resize((size_t) s.range(0, (int64_t) x->wire.size() - 1)); c.label("client-gone"); }
            (*by_id)[x->id] = x;
            c.mix(x->wire); c.mix(x->plan.wire); c.mix(&x->plan.fault, sizeof x->plan.fault);
            if (c.want_desc) c.desc << "[" << x->method << " " << x->host << pbt::quote(x->target, 60) << " body " << x->framing << ":" << x->body.size() << " -> " << x->upstream << ": " << x->plan.str() << "] ";
            c.label_if(x->upstream == -1, "unknown-host"); c.label_if(x->upstream == -2, "unreachable"); c.label_if(!x->body.empty(), "request-body"); c.label_if(x->plan.fault, "upstream-fault");
            cl.xs.push_back(x);
        }
        cl.pipelined = s.chance(1, 3);
        cl.rf = gen_frag(s, 300); cl.wf = gen_frag(s, 2000); cl.cf = gen_frag(s, 1000);
        if (c.want_desc) c.desc << (cl.pipelined ? "pipelined " : "") << cl.rf.str() << " / ";
    }
    c.label_if(clients.size() > 1, "concurrent");
    c.nontrivial = true;

    auto over = std::make_shared<bool>(false);
    auto g = group(), bg = group();
    std::vector<st_thread_t> acceptors;
    // upstreams: any number of connections, each with the requests the proxy sends on it
    for (int u = 0; u < kUpstreams; ++u)
        bg->go([=] {
            while (!*over) {
                st_netfd_t fd = st_accept(ups[u].fd, nullptr, nullptr, 5000);
                if (!fd) continue;
                bg->go([=] {
                    Sock k(fd);
                    bool first = true;
                    while (true) {
                        Req r = read_request(k);
                        if (r.cut && r.method.empty()) { CHECK_MSG(!first || *over, "upstream connection without a request"); return; }
                        if (r.cut && by_id->count(r.get("X-Id")) && (*by_id)[r.get("X-Id")]->gone) return;
                        CHECK_MSG(r.err.empty(), "upstream cannot read the request: " << r.err);
                        first = false;
                        auto it = by_id->find(r.get("X-Id"));
                        CHECK_MSG(it != by_id->end(), "a request nobody sent arrives upstream: " << r.method << " " << r.target << " " << hstr(r.headers));
                        PExchange x = it->second;
                        CHECK_MSG(!x->gone, "a request that was cut short arrives upstream as a complete one");
                        CHECK_MSG(++x->seen == 1, "request " << x->id << " arrives " << x->seen << " times");
                        CHECK_MSG(x->upstream == u, "request for " << x->host << " arrives at upstream " << u << " instead of " << x->upstream);
                        CHECK_EQ(r.method, x->method);
                        CHECK_EQ(r.target, x->target);
                        std::string hv = r.get("Host");
                        CHECK_MSG(hv == x->hostv || hv == x->host, "Host " << hv << " instead of " << x->hostv);
                        HList got = r.headers;
                        size_t at = 0;
                        for (auto& h : got) if (at < x->headers.size() && h == x->headers[at]) ++at;
                        CHECK_MSG(at == x->headers.size(), "headers at upstream " << hstr(got) << " sent " << hstr(x->headers));
                        for (auto& h : x->headers) take(got, h.first, h.second);
                        for (auto& h : got) for (auto& o : x->headers) CHECK_MSG(!ieq(h.first, o.first), "header " << h.first << ": " << h.second << " added to the one sent");
                        CHECK_MSG(r.body == x->body, "request body of " << r.body.size() << " bytes at upstream, " << x->body.size() << " sent");
                        answer(k, x->plan);
                        if (!x->plan.linger) return;
                    }
                });
            }
        });
    for (auto& cl : clients) {
        auto to = std::make_shared<Pipe>(), from = std::make_shared<Pipe>();
        auto sio = std::make_shared<PipeIO>(to, from, cl.rf, cl.wf);
        auto ended = std::make_shared<bool>(false);
        bg->go([=]() mutable {
            auto conn = server->create(std::make_shared<Socket>(sio, "10.0.0.1", 999));
            sio = nullptr;
            conn->handler();
            conn = nullptr;
            *ended = true;
        });
        sio = nullptr;
        auto xs = cl.xs;
        bool pipelined = cl.pipelined;
        Frag cf = cl.cf;
        if (pipelined) g->go([=] {
            PipeIO out(std::make_shared<Pipe>(), to, Frag(), cf);
            for (auto& x : xs) { Heap h(x->wire); if (h.n && out.write(h.p, h.n) != SUCCESS) return; if (x->gone) { to->closed = true; st_cond_broadcast(to->cv); } }
            while (!from->closed) st_usleep(1000);
        });
        g->go([=] {
            // the client's side of the connection; leaving this scope closes it
            auto io = std::make_shared<PipeIO>(from, pipelined ? std::make_shared<Pipe>() : to, Frag(), cf);
            io->set_recv_timeout(20 * 1000000);
            size_t at = 0;
            Bytes in;
            auto more = [&]() {
                char t[5000]; size_t n = 0;
                error_t e = io->read(t, sizeof t, n);
                CHECK_MSG(e != ERROR_SOCKET_TIMEOUT, "no answer, " << in.size() - at << " bytes so far: " << pbt::quote(in.substr(at)));
                if (e != SUCCESS) return false;
                in.append(t, n);
                return true;
            };
            for (auto& x : xs) {
                if (!pipelined && !x->wire.empty()) { Heap h(x->wire); io->write(h.p, h.n); }
                if (x->gone) {
                    to->closed = true;
                    st_cond_broadcast(to->cv);
                    while (more()) {}
                    at = in.size();
                    break;
                }
                const Plan& p = x->plan;
                bool err = x->upstream < 0 || !head_ok(p);
                // the response
                Rsp r;
                bool open = true;
                while (true) {
                    r = parse_response(in, at, x->method == "HEAD");
                    if (r.err.empty() && r.complete) break;
                    if (!more()) { open = false; break; }
                }
                if (!open) r = parse_response(in, at, x->method == "HEAD");
                std::string who = "response " + x->id + " (" + x->method + " to " + std::to_string(x->upstream) + "): ";
                if (err) {
                    CHECK_MSG(r.err.empty(), who << "no error response: " << r.err);
                    CHECK_MSG(x->upstream == -1 ? r.status == 404 : r.status >= 500 && r.status < 600, who << "status " << r.status);
                    CHECK_MSG(r.complete, who << "error response incomplete");
                    CHECK_MSG(x->seen == 0 || x->upstream >= 0, who << "went to an upstream");
                } else {
                    CHECK_MSG(r.err.empty(), who << r.err << " in " << pbt::quote(in.substr(at), 300));
                    CHECK_MSG(r.status == p.status, who << "status " << r.status << " instead of " << p.status);
                    CHECK_MSG(x->seen == 1, who << "answered without the upstream");
                    HList want = p.headers, got = r.headers;
                    bool srv = false;
                    for (auto& h : want) srv |= ieq(h.first, "Server");
                    if (!srv) for (size_t i = 0; i < got.size(); ++i) if (ieq(got[i].first, "Server")) { got.erase(got.begin() + (long) i); break; }
                    CHECK_MSG(framing_free(got) == hstr(want), who << "headers " << framing_free(got) << " expected " << hstr(want));
                    if (p.mode == 3 && p.declared >= 0 && !p.te) CHECK_MSG(r.count("Content-Length") == 0 || r.get("Content-Length") == std::to_string(p.declared), who << "Content-Length " << r.get("Content-Length"));
                    if (p.fault) {
                        CHECK_MSG(!open && !r.complete, who << "a damaged body is passed on as complete");
                        if (p.fault != 2) CHECK_MSG(p.body.compare(0, r.body.size(), r.body) == 0, who << "not a prefix of the body");
                    } else {
                        CHECK_MSG(r.body == p.body, who << "body of " << r.body.size() << " bytes, " << p.body.size() << " sent");
                        if (p.mode == 2) CHECK_MSG(!open, who << "connection open after a close-delimited body");
                        else CHECK_MSG(r.complete, who << "incomplete");
                    }
                }
                at += r.used;
                if (!open) break;
                if (err) {      // the connection may be closed after such an answer
                    if (x->upstream != -1) st_usleep(3000);
                    if (from->closed && from->size() == 0 && in.size() == at) break;
                }
            }
            CHECK_MSG(in.size() == at, "bytes after the last response: " << pbt::quote(in.substr(at), 200));
            from->closed = true;
            to->closed = true;
            st_cond_broadcast(to->cv);
            st_cond_broadcast(from->cv);
        });
    }
    double end = mono() + 60;
    while (g->live > 0 && !g->failed && !bg->failed && mono() < end) st_cond_timedwait(g->cv, 20000);
    *over = true;
    if (bg->failed) pbt::fail(bg->msg);
    g->join(0, "proxy clients");
    bg->join(30, "proxy");
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P11";
    a.rule = "one request with a generated method, URL and headers to a stub server that parses it strictly and answers with a generated status, headers and body (declared length, chunked, close-delimited, or none for HEAD, 204 and 304), sent in random pieces, the connection closed or left open, extra bytes after it, the response cut or reset anywhere, bad chunk sizes, garbage; random read sizes and exact reads; non-trivial: a non-empty body or a fault; distinct by request, response and reads";
    a.body = p11; a.setup = setup; a.quick_cases = 150000; a.thorough_cases = 2000000; a.cpu_clock = false; a.case_timeout = 90;
    pbt::Property b;
    b.id = "P12";
    b.rule = "one to three concurrent client connections with one to five requests each (sequential or pipelined; no body, declared length or chunked) to exact, wildcard, default, unknown and unreachable hosts behind the real request pipeline, four stub upstreams (one on port 80 and configured without a port) with generated answers and faults (cut, reset, bad chunk, garbage); every case is non-trivial; distinct by requests and answers";
    b.body = p12; b.setup = setup; b.quick_cases = 30000; b.thorough_cases = 400000; b.cpu_clock = false; b.case_timeout = 150;
    b.assumptions = {"request targets in origin form, HTTP/1.1 clients, no Expect: 100-continue, no chunk trailers", "headers below the parser's 2048-byte limit"};
    a.assumptions = {"no interim (1xx) responses, no chunk trailers", "response headers below the parser's 2048-byte limit"};
    return pbt::run_main(argc, argv, {a, b});
}
