// PROPERTIES: P08 P09 P10 P13
// TECHNIQUE P08: property-based testing: generated valid and malformed headers and fragmentations, the generated parts as oracle
// TECHNIQUE P09: property-based testing: generated request pipelines, chunkings, fragmentations, read sizes and truncations, the generated bodies as oracle
// TECHNIQUE P10: property-based testing: generated responses and write histories decoded by an independent strict HTTP client parser
// TECHNIQUE P13: property-based testing: URLs built from generated parts, the parts as oracle
#include "http_model.hpp"
#include <sps_http_parser.hpp>
#include <sps_http_socket.hpp>
#include <sps_io_url.hpp>

using namespace sps;

static const size_t kMaxHeader = 2048;

struct GReq { std::string method, host, target, path, query, text; HList headers; std::vector<QueryPiece> pieces; };

static GReq gen_request(Src& s, const HList& extra, int mean = 4) {
    GReq r;
    r.method = s.pick<std::string>({"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD"});
    r.host = gen_hostname(s);
    r.path = gen_path(s);
    r.query = gen_query(s, r.pieces);
    r.target = r.path + (r.query.empty() ? "" : "?" + r.query);
    std::string hv = r.host + (s.chance(1, 3) ? ":" + std::to_string(s.range(1, 65535)) : "");
    r.headers = gen_headers(s, mean);
    HList own = extra;
    own.push_back({recase(s, "Host"), hv});
    for (auto& h : own) r.headers.insert(r.headers.begin() + (long) s.draw(r.headers.size()), h);
    r.text = r.method + " " + r.target + " HTTP/1." + s.pick<std::string>({"1", "1", "0"}) + "\r\n";
    for (auto& h : r.headers) r.text += h.first + ":" + s.pick<std::string>({" ", " ", "", "  ", "\t"}) + h.second + "\r\n";
    r.text += "\r\n";
    return r;
}
static void check_request(const GReq& r, PRequestUrl q) {
    CHECK(q);
    CHECK_EQ(q->method, r.method);
    CHECK_EQ(std::string(q->get_host()), r.host);
    CHECK_EQ(std::string(q->get_path()), r.path);
    CHECK_EQ(std::string(q->get_params()), r.query);
    CHECK_EQ(std::string(q->get_url()), r.target);
    HList got = to_hlist(q->headers);
    CHECK_MSG(got == r.headers, "headers " << hstr(got) << " expected " << hstr(r.headers));
}

static void p08(Src& s, Ctx& c) {
    int kind = (int) s.weighted({5, 4, 3, 3, 2});
    Frag f = gen_frag(s, 64);
    if (kind == 0) {            // request
        GReq r = gen_request(s, {}, s.chance(1, 6) ? 30 : 4);
        if (s.chance(1, 6) && r.text.size() < kMaxHeader - 12) {       // bring it to around the limit
            size_t want = kMaxHeader + (size_t) s.range(-3, 3);
            size_t pad = want - r.text.size() - 6;     // "P: " + CRLF + value
            std::string v(pad + 1, 'p');
            r.headers.push_back({"P", v});
            r.text.insert(r.text.size() - 2, "P: " + v + "\r\n");
            c.label("around-limit");
        }
        Bytes tail = s.blob((size_t) s.skew(0, 50));
        c.mix(r.text); c.mix(tail);
        if (c.want_desc) c.desc << "request " << pbt::quote(r.text, 400) << " +" << tail.size() << " " << f.str();
        auto io = script_io(r.text + tail, f);
        HttpParser p;
        int ret = p.parse_header(io, REQUEST);
        if (r.text.size() > kMaxHeader) { CHECK_MSG(ret <= 0, "header of " << r.text.size() << " bytes accepted"); c.label("over-limit"); return; }
        CHECK_MSG(ret > 0, "valid request refused: " << ret);
        CHECK_MSG(io->taken == r.text.size(), "took " << io->taken << " bytes of a " << r.text.size() << " byte header");
        check_request(r, p.get_request());
        c.nontrivial = r.headers.size() >= 2;
        return;
    }
    if (kind == 1) {            // response
        HList h = gen_headers(s, 4);
        int64_t cl = -1; bool ch = false;
        switch (s.weighted({2, 3, 2})) {
            case 1: cl = s.boolean() ? s.skew(0, 100000) : s.pick<int64_t>({0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000064ll, 1ll << 40});
                    h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Content-Length"), std::to_string(cl)}); break;
            case 2: ch = true; h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Transfer-Encoding"), recase(s, "chunked")}); break;
            default: break;
        }
        int st = (int) s.range(200, 599);
        std::string t = "HTTP/1." + s.pick<std::string>({"1", "0"}) + " " + std::to_string(st) + s.pick<std::string>({" OK", " Not Found", " ", " Some Long Reason!"}) + "\r\n";
        for (auto& x : h) t += x.first + ": " + x.second + "\r\n";
        t += "\r\n";
        Bytes tail = s.blob((size_t) s.skew(0, 50));
        c.mix(t); c.mix(tail);
        if (c.want_desc) c.desc << "response " << pbt::quote(t, 400) << " " << f.str();
        auto io = script_io(t + tail, f);
        HttpParser p;
        int ret = p.parse_header(io, RESPONSE);
        if (t.size() > kMaxHeader) { CHECK(ret <= 0); return; }
        CHECK_MSG(ret > 0, "valid response refused: " << ret);
        CHECK_EQ(io->taken, t.size());
        auto r = p.get_response();
        CHECK(r);
        CHECK_EQ(r->status_code, st);
        CHECK_EQ((int64_t) r->content_length, cl);
        CHECK_EQ((bool) r->chunked, ch);
        HList got = to_hlist(r->headers);
        CHECK_MSG(got == h, "headers " << hstr(got) << " expected " << hstr(h));
        c.nontrivial = h.size() >= 2;
        return;
    }
    if (kind == 2) {            // cut short
        GReq r = gen_request(s, {});
        Bytes t = r.text.substr(0, (size_t) s.range(0, (int64_t) r.text.size() - 1));
        c.mix(t);
        if (c.want_desc) c.desc << "cut " << pbt::quote(t, 300) << " " << f.str();
        auto io = script_io(t, f);
        HttpParser p;
        int ret = p.parse_header(io, REQUEST);
        CHECK_MSG(ret <= 0, "incomplete header accepted: " << ret);
        c.nontrivial = t.size() > 10;
        return;
    }
    if (kind == 3) {            // definitely malformed
        GReq r = gen_request(s, {});
        std::string t = r.text;
        size_t eol = t.find("\r\n");
        switch (s.draw(8)) {
            case 0: t.replace(0, r.method.size(), s.pick<std::string>({"BREW", "get", "G@T", "", "GETX", "\x01"})); break;
            case 1: t.replace(eol - 8, 8, s.pick<std::string>({"XTTP/1.1", "HTTP/x.1", "http/1.1", "HTTP/1,1", "/1.1 HTTP"})); break;
            case 2: t.insert(eol + 2, "novalue\r\n"); break;
            case 3: t.insert(eol + 2, "bad(name: v\r\n"); break;
            case 4: t.insert(eol + 2, Bytes("X-N: a\0b\r\n", 10)); break;
            case 5: t.insert(eol + 2, ": empty name\r\n"); break;
            case 6: t.insert(eol + 2, "Content-Length: 12x\r\n"); break;
            case 7: t.insert(eol + 2, "Content-Length: 1\r\nContent-Length: 2\r\n"); break;
            default: t.insert(eol + 2, "X\x01Y: z\r\n"); break;
        }
        c.mix(t);
        if (c.want_desc) c.desc << "malformed " << pbt::quote(t, 300) << " " << f.str();
        auto io = script_io(t, f);
        HttpParser p;
        int ret = p.parse_header(io, REQUEST);
        CHECK_MSG(ret <= 0, "malformed header accepted: " << ret);
        c.nontrivial = true;
        c.label("malformed");
        return;
    }
    // anything: only safety
    Bytes t = gen_request(s, {}).text;
    if (s.boolean()) t = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n" + t;
    while (s.more(3)) {
        size_t i = s.draw(t.size());
        switch (s.draw(3)) {
            case 0: if (i < t.size()) t[i] = (char) s.draw(255); break;
            case 1: t.insert(i, s.pick<std::string>({"\n", "\r", "\r\n", "\n\n", "\r\r\n", "\r\n\r\n", " ", ":"})); break;
            case 2: t.erase(i, (size_t) s.range(1, 5)); break;
            default: t.insert(i, s.blob((size_t) s.skew(1, 3000)));
        }
    }
    if (s.chance(1, 10)) t = s.text((size_t) s.skew(0, 5000), "\r\n:a ");
    c.mix(t);
    if (c.want_desc) c.desc << "arbitrary " << pbt::quote(t, 300) << " " << f.str();
    auto io = script_io(t, f);
    HttpParser p;
    int ret = p.parse_header(io, s.boolean() ? REQUEST : RESPONSE);
    CHECK_MSG(io->taken <= kMaxHeader, "read " << io->taken << " bytes, past the limit");
    (void) ret;
    c.nontrivial = t.size() > 20;
}

static void p09(Src& s, Ctx& c) {
    struct One { GReq r; Bytes body; int mode; size_t wire; };   // mode 0 length, 1 chunked
    std::vector<One> msgs;
    Bytes wire;
    size_t n = 1 + (s.chance(1, 2) ? (size_t) s.draw(3) : 0);
    for (size_t i = 0; i < n; ++i) {
        One o;
        o.mode = (int) s.draw(1);
        o.body = s.blob(s.chance(1, 30) ? (size_t) s.skew(0, 70000) : (size_t) s.skew(0, 300));
        o.r = gen_request(s, {o.mode ? std::make_pair(recase(s, "Transfer-Encoding"), recase(s, "chunked"))
                                     : std::make_pair(recase(s, "Content-Length"), std::to_string(o.body.size()))}, 2);
        if (o.r.text.size() > kMaxHeader) throw pbt::Discard();
        wire += o.r.text;
        wire += o.mode ? chunk_body(s, o.body) : o.body;
        o.wire = wire.size();
        if (c.want_desc) c.desc << o.r.method << (o.mode ? " chunked " : " length ") << o.body.size() << "; ";
        msgs.push_back(o);
    }
    Frag f = gen_frag(s, 100);
    // damage to the last message's body
    int damage = (int) s.weighted({5, 2, 1, 1});
    size_t last_start = n > 1 ? msgs[n - 2].wire : 0;
    One& last = msgs.back();
    size_t body_at = last_start + last.r.text.size();
    Bytes partial; bool expect_err = false;
    if (damage == 1 && wire.size() > body_at) { wire.resize((size_t) s.range((int64_t) body_at, (int64_t) wire.size() - 1)); expect_err = true; c.label("cut-short"); }
    else if (damage == 2 && last.mode == 1) {
        wire.replace(body_at, wire.find("\r\n", body_at) - body_at, s.pick<std::string>({"zz", "", "-5", "g1", "0x", ";a=5", " ", "111111111111111111111111111111111111", "fffffffffffffffff"}));
        expect_err = true; c.label("bad-chunk-size");
    } else if (damage == 3 && last.mode == 0 && !last.body.empty()) {   // a length far beyond what is sent
        last.body = last.body.substr(0, 200);
        wire.resize(last_start);
        GReq& r = last.r;
        std::string big = s.pick<std::string>({"4294967301", "2147483653", "4294967296", "8589934592"});
        r.text = "POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: " + big + "\r\n\r\n";
        wire += r.text + last.body;
        expect_err = true; c.label("huge-length");
        if (c.want_desc) c.desc << "length " << big << " ";
        damage = 3;
    }
    c.mix(wire);
    if (c.want_desc) c.desc << " damage=" << damage << " frag " << f.str() << " wire " << pbt::quote(wire, 300);
    auto io = script_io(wire, f);
    bool nt = false;
    for (size_t i = 0; i < n; ++i) {
        One& o = msgs[i];
        bool bad = expect_err && i == n - 1;
        HttpParser p;
        int ret = p.parse_header(io, REQUEST);
        CHECK_MSG(ret > 0, "request " << i << " refused: " << ret);
        auto q = p.get_request();
        if (!(bad && damage == 3)) check_request(o.r, q);
        HttpRequestSocket sock(io, "1.1.1.1", 1, q->is_chunked(), q->get_content_length());
        Bytes got;
        error_t r = SUCCESS;
        std::vector<size_t> sizes;
        while (s.more(3)) sizes.push_back((size_t) s.skew(1, 500));
        sizes.push_back(s.boolean() ? (size_t) s.skew(1, 64) : 4096);
        if (s.chance(1, 5) && !bad) {    // exact-length reads
            size_t k = (size_t) s.range(0, (int64_t) o.body.size());
            if (k) {
                Heap h(Bytes(k, 'x'));
                r = sock.read_fully(h.p, k, nullptr);
                CHECK_MSG(r == SUCCESS, "exact read of " << k << " of " << o.body.size() << " failed " << r);
                got.assign((char*) h.p, k);
            }
            c.label("exact-reads");
        }
        size_t rounds = 0, j = 0;
        while (true) {
            size_t k = sizes[std::min(j++, sizes.size() - 1)];
            Heap h(Bytes(k, 'x'));
            size_t nr = 0;
            r = sock.read(h.p, k, nr);
            if (r != SUCCESS) break;
            CHECK_MSG(nr <= k, "read returned more than asked");
            got.append((char*) h.p, nr);
            CHECK_MSG(++rounds < wire.size() + 100, "endless body");
        }
        if (bad) {
            CHECK_MSG(r != ERROR_HTTP_RES_EOF, "damaged body reported as complete after " << got.size() << " bytes");
            if (damage == 1) CHECK_MSG(o.body.compare(0, got.size(), got) == 0, "not a prefix of the body");
            if (damage == 3) CHECK_MSG(got == o.body, got.size() << " bytes delivered of " << o.body.size());
            c.nontrivial = true;
            return;
        }
        CHECK_MSG(r == ERROR_HTTP_RES_EOF, "request " << i << ": ended with " << r << " after " << got.size() << " of " << o.body.size() << " bytes");
        CHECK_MSG(got == o.body, "request " << i << " body differs: " << pbt::hex(got) << " expected " << pbt::hex(o.body));
        CHECK_MSG(io->taken == o.wire, "request " << i << ": position " << io->taken << " instead of " << o.wire);
        size_t nr = 0; char x[4];
        CHECK_MSG(sock.read(x, 4, nr) == ERROR_HTTP_RES_EOF, "end of body not stable");
        CHECK(io->taken == o.wire);
        if (!o.body.empty()) nt = true;
    }
    c.label_if(n > 1, "pipelined");
    c.nontrivial = nt;
}

static void p10(Src& s, Ctx& c) {
    int st = (int) (s.boolean() ? 200 : s.range(200, 599));
    if (st == 204 || st == 304) st = 200;
    HList h = gen_headers(s, 3);
    int mode = (int) s.draw(2);    // 0 length, 1 chunked, 2 until close
    std::vector<Bytes> writes; Bytes body;
    while (s.more(3)) { Bytes b = s.blob((size_t) s.skew(1, s.chance(1, 20) ? 70000 : 400)); writes.push_back(b); body += b; }
    if (s.chance(1, 500)) { Bytes b = s.blob((size_t) s.range(1 << 20, 5 << 19)); writes.insert(writes.begin() + (long) s.draw(writes.size()), b); body.clear(); for (auto& w : writes) body += w; }
    // headers of a relayed message describe its own framing
    if (mode == 0 && s.chance(1, 3)) h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Content-Length"), std::to_string(body.size())});
    if (mode == 1 && s.chance(1, 3)) h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Transfer-Encoding"), "chunked"});
    bool server = s.chance(1, 4);
    if (server) h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Server"), "other/1"});
    auto io = script_io("", Frag());
    if (c.want_desc) { c.desc << st << " mode " << mode << " " << hstr(h) << " writes"; for (auto& w : writes) c.desc << " " << w.size(); }
    c.mix(&st, sizeof st); c.mix(&mode, sizeof mode); c.mix(hstr(h)); for (auto& w : writes) c.mix(w);
    std::list<RequestHeader> hl; for (auto& x : h) hl.push_back(RequestHeader(x.first, x.second));
    auto run = [&](PScriptIO w) {
        HttpResponseSocket rs(w, "1.1.1.1", 1);
        rs.init(st, h.empty() && s.boolean() ? nullptr : &hl, mode == 0 ? (int) body.size() : -1, mode == 1);
        error_t r = SUCCESS;
        if (writes.empty() || s.boolean()) r = rs.write_header();
        for (auto& b : writes) { if (r != SUCCESS) return r; Heap x(b); r = rs.write(x.p, x.n); }
        if (mode == 1 && r == SUCCESS) { char z = 0; r = rs.write(&z, 0); }
        return r;
    };
    error_t r = run(io);
    CHECK_MSG(r == SUCCESS, "writing failed " << r);
    Rsp p = parse_response(io->out, 0);
    CHECK_MSG(p.err.empty(), "client rejects the response: " << p.err << " in " << pbt::quote(io->out, 300));
    CHECK_EQ(p.version, std::string("HTTP/1.1"));
    CHECK_EQ(p.status, st);
    CHECK_EQ((int) p.mode, mode == 0 ? (int) Rsp::LENGTH : mode == 1 ? (int) Rsp::CHUNKED : (int) Rsp::CLOSE);
    CHECK_MSG(mode == 2 || p.complete, "response incomplete");
    CHECK_MSG(p.body == body, "body of " << p.body.size() << " bytes, expected " << body.size());
    CHECK_EQ(p.used, io->out.size());
    HList want, got;
    for (auto& x : h) if (!ieq(x.first, "Content-Length") && !ieq(x.first, "Transfer-Encoding")) want.push_back(x);
    for (auto& x : p.headers) {
        if (ieq(x.first, "Content-Length") || ieq(x.first, "Transfer-Encoding")) continue;
        if (!server && ieq(x.first, "Server")) continue;
        got.push_back(x);
    }
    CHECK_MSG(got == want, "headers " << hstr(got) << " expected " << hstr(want));
    CHECK_MSG(p.count("Server") <= 1, "several Server headers");
    if (s.chance(1, 4)) {   // a failing connection makes the writer fail
        auto w = script_io("", Frag());
        w->write_err = ERROR_SOCKET_WRITE;
        w->write_limit = (size_t) s.range(0, (int64_t) io->out.size() - 1);
        CHECK_MSG(run(w) != SUCCESS, "write failure not reported");
        c.label("write-fault");
    }
    c.nontrivial = !body.empty() && h.size() >= 1;
}

static void p13(Src& s, Ctx& c) {
    if (s.chance(1, 6)) {
        std::string bad = s.pick<std::string>({"", "http", "http:", "http:/", "http//h/a", "://h/a", "http://", "http:///a", "http://h:99999/a", "http://h:8x/a", "h/a", "a b", "http://h\x01/a", "1http://h/a", "http://h h/a", "http://:80/"});
        c.mix(bad);
        if (c.want_desc) c.desc << "not a URL " << pbt::quote(bad);
        PRequestUrl q;
        CHECK_MSG(RequestUrl::from(bad, q) != SUCCESS, "accepted");
        c.label("not-a-url");
        return;
    }
    if (s.chance(1, 8)) {                      // files: the rest is the path
        std::string path = s.pick<std::string>({"", "/", "/tmp/", "./"}) + s.text((size_t) s.skew(0, 30), "ab./?&=#% :@-_");
        std::string before = s.pick<std::string>({"", "POST"});
        c.mix(path);
        if (c.want_desc) c.desc << "file " << pbt::quote(path);
        auto r = std::make_shared<RequestUrl>();
        r->method = before;
        CHECK_MSG(r->parse_url("file://" + path) == SUCCESS, "refused");
        CHECK_EQ(std::string(r->get_schema()), std::string("file"));
        CHECK_EQ(std::string(r->get_path()), path);
        CHECK_EQ(std::string(r->get_url()), path);
        CHECK_EQ(std::string(r->get_ext()), path_ext(path));
        CHECK_EQ(std::string(r->get_host()), std::string(""));
        CHECK_EQ(std::string(r->get_params()), std::string(""));
        CHECK_EQ(std::string(r->get_method()), before.empty() ? "GET" : before);
        c.label("file");
        return;
    }
    if (s.chance(1, 8)) {                      // header fields of a request
        RequestUrl r;
        HList h;
        static const std::vector<std::string> names = {"Host", "Content-Length", "Transfer-Encoding", "Content-Lengt", "Content-Length2", "X", ""};
        while (s.more(4) && h.size() < 12) {
            std::string k = recase(s, s.pick(names));
            std::string v = s.pick<std::string>({"chunked", "Chunked", "gzip", "chunke", "chunkedd", "", "0", "17", "4294967296", "9223372036854775807", "a, b"});
            if (ieq(k, "Content-Length")) v = std::to_string(s.skew(0, INT64_MAX));
            h.push_back({k, v});
        }
        for (auto& x : h) r.headers.push_back(RequestHeader(x.first, x.second));
        if (c.want_desc) c.desc << "header fields " << hstr(h);
        c.mix(hstr(h));
        auto first = [&](const std::string& k, bool& there) { for (auto& x : h) if (ieq(x.first, k)) { there = true; return x.second; } there = false; return std::string(); };
        for (int i = 0; i < 6; ++i) {
            bool there;
            std::string k = recase(s, s.pick(names)), v = first(k, there);
            CHECK_MSG(r.get_header(k) == v, "field " << pbt::quote(k) << " is " << pbt::quote(r.get_header(k)) << " instead of " << pbt::quote(v));
            std::string te = first("Transfer-Encoding", there);
            CHECK_EQ(r.is_chunked(), ieq(te, "chunked"));
            std::string cl = first("Content-Length", there);
            CHECK_EQ(r.get_content_length(), there ? (int64_t) strtoll(cl.c_str(), nullptr, 10) : (int64_t) -1);
            if (s.boolean()) {
                std::string e = recase(s, s.pick(names));
                r.erase_header(e);
                for (size_t j = 0; j < h.size(); ++j) if (ieq(h[j].first, e)) { h.erase(h.begin() + (long) j); break; }
                HList got = to_hlist(r.headers);
                CHECK_MSG(got == h, "after removing " << pbt::quote(e) << ": " << hstr(got) << " expected " << hstr(h));
            }
        }
        c.nontrivial = h.size() > 1;
        c.label("fields");
        return;
    }
    std::string scheme = s.pick<std::string>({"http", "https", "rtmp", "srt", "rtsp", "custom"});
    std::string host = gen_hostname(s), path = s.chance(1, 10) ? "" : gen_path(s);
    std::vector<QueryPiece> ps;
    std::string q = gen_query(s, ps);
    int port = scheme == "http" ? 80 : scheme == "https" ? 443 : scheme == "rtmp" ? 1935 : 0;
    bool given = s.chance(1, 3);
    if (given) port = (int) s.skew(1, 65535);
    std::string url = scheme + "://" + host + (given ? ":" + std::to_string(port) : "") + path + (q.empty() ? "" : "?" + q);
    bool frag = (!path.empty() || !q.empty()) && s.chance(1, 10);
    if (frag) url += "#frag";
    c.mix(url);
    if (c.want_desc) c.desc << pbt::quote(url, 400);
    PRequestUrl r;
    CHECK_MSG(RequestUrl::from(url, r) == SUCCESS, "refused");
    CHECK_EQ(std::string(r->get_schema()), scheme);
    CHECK_EQ(std::string(r->get_host()), host);
    CHECK_EQ(r->get_port(), port);
    CHECK_EQ(std::string(r->get_params()), q);
    CHECK_EQ(std::string(r->get_ext()), path_ext(path));
    if (!path.empty()) CHECK_EQ(std::string(r->get_path()), path);
    CHECK_EQ(std::string(r->get_url()), (path.empty() ? "/" : path) + (q.empty() ? "" : "?" + q));
    CHECK_EQ(std::string(r->get_method()), std::string("GET"));
    // pairs; a piece without '=' may be left out or have an empty value
    HList with, without, got = to_hlist(r->pp);
    for (auto& p : ps) { with.push_back({p.k, p.v}); if (!p.flag) without.push_back({p.k, p.v}); }
    CHECK_MSG(got == with || got == without, "pairs " << hstr(got) << " of query " << q);
    for (auto& p : ps) {
        std::string first;
        for (auto& o : ps) if (o.k == p.k) { first = o.flag ? "" : o.v; break; }
        bool any_flag = false; for (auto& o : ps) any_flag |= o.flag && o.k == p.k;
        if (!any_flag) CHECK_EQ(r->get_param(p.k), first);
    }
    CHECK_EQ(r->get_param("no such name"), std::string(""));
    c.nontrivial = path.size() > 1 && (ps.size() > 0 || given);
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P08";
    a.rule = "valid requests and responses from generated parts (any header-name case, spacing, sizes around the 2048-byte limit), cut, malformed and arbitrary headers, all read through random fragmentations; non-trivial: two or more headers, or a damaged header; distinct by text";
    a.body = p08; a.setup = format_log; a.quick_cases = 2000000; a.thorough_cases = 20000000;
    pbt::Property b;
    b.id = "P09";
    b.rule = "one to four pipelined requests with length or chunked bodies (0..70000 bytes), random chunking, chunk extensions, fragmentation, read sizes and exact reads; cut bodies, bad chunk sizes, lengths above 2 and 4 GiB; non-trivial: a non-empty or damaged body; distinct by wire bytes";
    b.body = p09; b.setup = format_log; b.quick_cases = 500000; b.thorough_cases = 5000000;
    pbt::Property d;
    d.id = "P10";
    d.rule = "random status, header list (including framing headers of a relayed message), framing mode and write history, decoded by an independent strict client parser; write faults at random offsets; non-trivial: non-empty body and at least one header; distinct by input";
    d.body = p10; d.setup = format_log; d.quick_cases = 2000000; d.thorough_cases = 12000000;
    pbt::Property e;
    e.id = "P13";
    e.rule = "URLs built from generated scheme, host, port, path, query pieces (with and without '='), fragment; and strings that are not URLs; non-trivial: a path and a query or explicit port; distinct by URL";
    e.body = p13; e.setup = format_log; e.quick_cases = 2000000; e.thorough_cases = 40000000;
    return pbt::run_main(argc, argv, {a, b, d, e});
}
