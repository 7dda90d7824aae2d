// PROPERTIES: P30 P37
// TECHNIQUE P30: property-based testing: generated configurations of http, server, host and globalhost blocks loaded and installed in a fresh process; every port and name is probed over loopback and compared with a reference router
// TECHNIQUE P37: property-based testing: generated https server configurations installed in a fresh process; schedules of correct, stalling, broken and disconnecting TLS clients over loopback, compared with a reference of certificates and routes
#include "servers_env.hpp"

using namespace sps;

struct GHost { std::string name; int id; bool in_upstream; int opts; };
struct GServer { int port; std::vector<GHost> hosts; int opts; };
struct Block { int kind; std::vector<GHost> hosts; std::vector<GServer> servers; };   // 0 globalhost, 1 http, 2 other

static std::string render_host(const GHost& h, const std::string& ind) {
    std::string addr = "127.0.1." + std::to_string(h.id + 1) + ":" + std::to_string(up_port);
    std::string t = ind + "host " + h.name + " {\n";
    if (h.opts & 1) t += ind + "    type proxy;\n";
    if (h.opts & 2) t += ind + "    role proxy;\n";
    if (h.in_upstream) t += ind + "    pass_proxy 127.0.0.99:1;\n" + ind + "    upstream u" + std::to_string(h.id) + " {\n" + ind + "        server " + addr + ";\n" + ind + "    }\n";
    else t += ind + "    pass_proxy " + addr + ";\n";
    if (h.opts & 4) t += ind + "    enabled on;\n";
    return t + ind + "}\n";
}
static std::string render(const std::vector<Block>& bs) {
    std::string t;
    int n = 0;
    for (auto& b : bs) {
        if (b.kind == 2) { t += "upstream u" + std::to_string(n++) + " {\n    server 127.0.0.1:1;\n}\n"; continue; }
        t += b.kind == 0 ? "globalhost {\n" : "http {\n";
        for (auto& h : b.hosts) t += render_host(h, "    ");
        for (auto& s : b.servers) {
            t += "    server s" + std::to_string(n++) + " {\n";
            std::string lp = "        listen_port " + std::to_string(base_port + 1 + s.port) + ";\n";
            if (!(s.opts & 8)) t += lp;
            if (s.opts & 1) t += "        transport tcp;\n";
            if (s.opts & 2) t += "        backlog 20;\n";
            if (s.opts & 4) t += "        recv_timeout 10000000;\n        send_timeout 10000000;\n";
            for (auto& h : s.hosts) t += render_host(h, "        ");
            if (s.opts & 8) t += lp;
            t += "    }\n";
        }
        t += "}\n";
    }
    return t;
}

// reference: name -> host id
struct Ref {
    std::map<std::string, int> m;
    int find(const std::string& n) const {
        auto it = m.find(n);
        if (it != m.end()) return it->second;
        size_t d = n.find('.');
        if (d != std::string::npos && (it = m.find("*" + n.substr(d))) != m.end()) return it->second;
        if ((it = m.find("*")) != m.end()) return it->second;
        return -1;
    }
};

// the id of the host that serves the name at the port; -1 not found (404), -2 nothing listens
static int probe_on(st_netfd_t fd, Bytes& in, const std::string& name) {
    std::string q = "GET /x HTTP/1.1\r\nHost: " + name + "\r\n\r\n";
    if (st_write(fd, q.data(), q.size(), 20000000) != (ssize_t) q.size()) pbt::fail("request for " + name + " not accepted");
    char t[2000];
    while (true) {
        Rsp r = parse_response(in, 0);
        if (r.err.empty() && r.complete) {
            in.erase(0, r.used);
            if (r.status == 404) return -1;
            if (r.status != 200) pbt::fail("request for " + name + " answered with " + std::to_string(r.status));
            return atoi(r.body.c_str());
        }
        int one = 1;
        setsockopt(st_netfd_fileno(fd), IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);   // the server's header and body are separate segments
        ssize_t n = st_read(fd, t, sizeof t, 20000000);
        if (n <= 0) pbt::fail("request for " + name + " not answered: " + pbt::quote(in));
        in.append(t, (size_t) n);
    }
}
static std::string child(const std::string& text, const std::map<int, Ref>& ports, bool conflict, const std::vector<std::string>& names) {
    RootModuleFactory f;
    PIModule root = f.create("root", "", nullptr);
    Heap h(text);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) h.p, (int) h.n);
    if (root->init_conf(rd) != SUCCESS) return "refused";
    if (ICoFactory::get_instance().init() != SUCCESS) return "no scheduler";
    if (root->install() != SUCCESS) return "refused";
    if (conflict) return "accepted";
    st_thread_create(upstream_main, nullptr, 0, 0);
    for (int p = 0; p < kPorts; ++p) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        st_netfd_t fd = st_netfd_open_socket(s);
        sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_port = htons((uint16_t) (base_port + 1 + p)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        bool up = st_connect(fd, (sockaddr*) &a, sizeof a, 20000000) == 0;
        auto it = ports.find(p);
        std::string where = "port #" + std::to_string(p);
        if (up != (it != ports.end())) return where + (up ? " is served although no server has it" : " is not served");
        Bytes in;
        if (up) for (auto& n : names) {
            int got = probe_on(fd, in, n), want = it->second.find(n);
            if (got != want) return where + ": " + n + " is served by " + (got < 0 ? "nobody" : "host " + std::to_string(got)) + " instead of " + (want < 0 ? "nobody" : "host " + std::to_string(want));
        }
        st_netfd_close(fd);
    }
    return "fine";
}

static void p30(Src& s, Ctx& c) {
    static const std::vector<std::string> pool = {"a.test", "b.test", "www.a.test", "*.a.test", "*.test", "*", "x", "y.b.test", "*.b.test", "127.0.0.1"};
    std::vector<Block> bs;
    int ids = 0;
    bool avoid = s.chance(4, 5);
    std::map<int, Ref> ports;
    Ref globals;
    bool conflict = false;
    auto gen_host = [&]() { GHost h; h.name = s.chance(1, 40) ? s.pick<std::string>({"*x", "*.", "*a.test"}) : s.pick(pool); h.id = ids; h.in_upstream = s.chance(1, 4); h.opts = (int) s.draw(7); return h; };
    auto illegal = [](const std::string& n) { return n[0] == '*' && n.size() > 1 && (n[1] != '.' || n.size() == 2); };
    size_t nb = 1 + s.draw(4);
    for (size_t i = 0; i < nb; ++i) {
        Block b;
        b.kind = (int) s.weighted({2, 4, 1});
        if (b.kind == 0)
            while (s.more(2) && ids < 60) {
                GHost h = gen_host();
                bool dup = globals.m.count(h.name);
                for (auto& p : ports) dup |= p.second.m.count(h.name);
                if (avoid && (dup || illegal(h.name))) continue;
                ++ids;
                b.hosts.push_back(h);
                // global conflicts only show where there is a server
                if (globals.m.count(h.name) || illegal(h.name)) globals.m["conflict"] = 1;
                globals.m.emplace(h.name, h.id);
            }
        if (b.kind == 1)
            while (s.more(2) && b.servers.size() < 4) {
                GServer g;
                g.port = (int) s.draw(kPorts - 2);
                g.opts = (int) s.draw(15);
                Ref& r = ports[g.port];
                while (s.more(2) && ids < 60) {
                    GHost h = gen_host();
                    bool dup = globals.m.count(h.name) || r.m.count(h.name);
                    if (avoid && (dup || illegal(h.name))) continue;
                    ++ids;
                    if (r.m.count(h.name) || illegal(h.name)) conflict = true;
                    r.m.emplace(h.name, h.id);
                    g.hosts.push_back(h);
                }
                b.servers.push_back(g);
            }
        bs.push_back(b);
    }
    for (auto& p : ports) {
        if (globals.m.count("conflict")) conflict = true;
        for (auto& g : globals.m) if (!p.second.m.emplace(g.first, g.second).second) conflict = true;
    }
    std::vector<std::string> names = {"a.test", "b.test", "www.a.test", "q.a.test", "q.test", "x", "unknown", "y.b.test", "z.b.test", "w.q.test", "127.0.0.1"};
    std::string text = render(bs);
    c.mix(text);
    if (c.want_desc) { for (auto& b : bs) { c.desc << (b.kind == 0 ? "globalhost{" : b.kind == 1 ? "http{" : "upstream{"); for (auto& h : b.hosts) c.desc << h.name << "=" << h.id << " "; for (auto& g : b.servers) { c.desc << " server #" << g.port << "{"; for (auto& h : g.hosts) c.desc << h.name << "=" << h.id << " "; c.desc << "}"; } c.desc << "} "; } if (conflict) c.desc << "(conflict)"; }
    size_t nserv = 0, nhttp = 0;
    for (auto& b : bs) { nserv += b.servers.size(); nhttp += b.kind == 1; }
    c.nontrivial = nserv > 0 && ids > 0;
    c.label_if(conflict, "conflict"); c.label_if(nserv > ports.size(), "same-port"); c.label_if(nhttp > 1, "several-http"); c.label_if(!globals.m.empty() && nserv, "global");
    run_child(c, [&] { return child(text, ports, conflict, names); }, [&](const std::string& r) {
        if (conflict) CHECK_MSG(r == "refused", "conflicting hosts: " << r);
        else CHECK_MSG(r == "fine", r << " in\n" << text);
    });
}


// ---- P37: https servers
// the answer of host ID to a request for path /N is N bytes that depend on both
static Bytes big_body(int id, size_t n) {
    Bytes b = std::to_string(id) + "|";
    b.resize(n + b.size());
    uint32_t x = (uint32_t) (id * 7919 + n);
    for (size_t i = b.size() - n; i < b.size(); ++i) { x = x * 1664525 + 1013904223; b[i] = (char) (x >> 24); }
    return b;
}
static void* tls_upstream_conn(void* p) {
    st_netfd_t fd = (st_netfd_t) p;
    sockaddr_in a{};
    socklen_t n = sizeof a;
    getsockname(st_netfd_fileno(fd), (sockaddr*) &a, &n);
    int id = (int) (ntohl(a.sin_addr.s_addr) & 255) - 1;
    Bytes in;
    char t[2000];
    while (in.find("\r\n\r\n") == Bytes::npos) {
        ssize_t k = st_read(fd, t, sizeof t, 60000000);
        if (k <= 0) { st_netfd_close(fd); return nullptr; }
        in.append(t, (size_t) k);
    }
    size_t at = in.find(" /");
    Bytes body = big_body(id, (size_t) atoll(in.c_str() + at + 2));
    std::string r = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    st_write(fd, r.data(), r.size(), 60000000);
    st_netfd_close(fd);
    return nullptr;
}
static void* tls_upstream_main(void*) {
    st_netfd_t l = st_netfd_open_socket(up_fd);
    while (true) {
        st_netfd_t fd = st_accept(l, nullptr, nullptr, ST_UTIME_NO_TIMEOUT);
        if (fd) st_thread_create(tls_upstream_conn, fd, 0, 0);
    }
    return nullptr;
}
// a byte stream over a connected fd; writes come in pieces with pauses between them
class FdIO : public IReaderWriter {
 public:
    FdIO(st_netfd_t fd, const Frag& wf, utime_t pause) : fd(fd), wf(wf), pause(pause) {}
    ~FdIO() { st_netfd_close(fd); }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return -1; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return -1; }
    error_t read(void* b, size_t n, size_t& nr) override {
        int one = 1;
        setsockopt(st_netfd_fileno(fd), IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        ssize_t k = st_read(fd, b, n, 40000000);
        if (k <= 0) return k < 0 && errno == ETIME ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED;
        nr = (size_t) k;
        return SUCCESS;
    }
    error_t read_fully(void*, size_t, ssize_t* = nullptr) override { return ERROR_SOCKET_READ; }
    error_t write(void* b, size_t n) override {
        size_t at = 0;
        while (at < n) {
            if (sent >= limit) { stuck = true; if (hang) hang(); return ERROR_SOCKET_WRITE; }
            size_t k = wf.sizes.empty() ? n : wf.sizes[std::min(wi++, wf.sizes.size() - 1)];
            k = std::min(std::min(k, n - at), limit - sent);
            if (wi > 60) k = std::min(n - at, limit - sent);
            if (st_write(fd, (char*) b + at, k, 40000000) != (ssize_t) k) return ERROR_SOCKET_WRITE;
            at += k; sent += k;
            if (at < n && pause) st_usleep(pause);
        }
        return SUCCESS;
    }
    st_netfd_t fd;
    Frag wf;
    utime_t pause;
    size_t wi = 0, sent = 0, limit = (size_t) -1;
    bool stuck = false;
    std::function<void()> hang;
};
struct TlsHost { std::string name; int id; int cert; };          // cert -1: none, 2: files that do not exist
struct TlsReq { std::string host; size_t size; };
struct TlsClient {
    int kind;                       // 0 correct, 1 stops in the handshake, 2 leaves in the handshake, 3 garbage, 4 silent, 5 the project's client, 6 leaves after the handshake
    std::string sni;
    std::vector<TlsReq> reqs;
    Frag wf;
    utime_t pause, delay;
    size_t limit;
    Bytes junk;
};
static const char* kKinds[] = {"correct", "stops", "leaves", "garbage", "silent", "project", "leaves-later"};
static std::string tls_config(const std::vector<TlsHost>& hs, int dflt, int opts) {
    std::string t = "http {\n    server s {\n        listen_port " + std::to_string(base_port + 1) + ";\n        transport https;\n";
    auto files = [&](int k, const std::string& ind) {
        if (k < 0) return std::string();
        return ind + "ssl_key_file " + (k == 2 ? "/nonexistent/key.pem" : f_key[k]) + ";\n" + ind + "ssl_crt_file " + (k == 2 ? "/nonexistent/cert.pem" : f_cert[k]) + ";\n";
    };
    if (opts & 1) t += "        recv_timeout 30000000;\n        send_timeout 30000000;\n";
    t += files(dflt, "        ");
    for (auto& h : hs) {
        t += "        host " + h.name + " {\n            type proxy;\n            role proxy;\n            pass_proxy 127.0.1." + std::to_string(h.id + 1) + ":" + std::to_string(up_port) + ";\n";
        t += files(h.cert, "            ") + "        }\n";
    }
    return t + "    }\n}\n";
}
static std::string tls_run(const std::string& text, const Ref& ref, const std::vector<TlsHost>& hs, int dflt, const std::vector<TlsClient>& cls) {
    RootModuleFactory f;
    PIModule root = f.create("root", "", nullptr);
    Heap h(text);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) h.p, (int) h.n);
    if (root->init_conf(rd) != SUCCESS) return "harness: configuration refused";
    if (ICoFactory::get_instance().init() != SUCCESS) return "harness: no scheduler";
    if (root->install() != SUCCESS) return "harness: not installed";
    st_thread_create(tls_upstream_main, nullptr, 0, 0);
    auto cert_of = [&](const std::string& n) {
        int k = n.empty() ? -1 : ref.find(n), r = k < 0 ? -1 : hs[(size_t) k].cert;
        return r < 0 || r > 1 ? dflt : r;
    };
    static const char* cn[] = {"a.test", "b.test"};
    auto g = stn::group(), bg = stn::group();
    for (size_t i = 0; i < cls.size(); ++i) {
        const TlsClient& k = cls[i];
        std::string who = "client #" + std::to_string(i) + " (" + kKinds[k.kind] + ", name '" + k.sni + "'): ";
        auto connect = [](utime_t delay) {
            if (delay) st_usleep(delay);
            int s = socket(AF_INET, SOCK_STREAM, 0);
            st_netfd_t fd = st_netfd_open_socket(s);
            sockaddr_in a{};
            a.sin_family = AF_INET; a.sin_port = htons((uint16_t) (base_port + 1)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (st_connect(fd, (sockaddr*) &a, sizeof a, 40000000)) pbt::fail("the server does not accept connections");
            return fd;
        };
        if (k.kind == 5) {
            g->go([=, &k, &ref] {
                if (k.delay) st_usleep(k.delay);
                for (auto& q : k.reqs) {
                    PRequestUrl url = std::make_shared<RequestUrl>();
                    if (url->parse_url("http://" + q.host + ":" + std::to_string(base_port + 1) + "/" + std::to_string(q.size)) != SUCCESS) pbt::fail("harness: url");
                    url->ip = "127.0.0.1"; url->method = "GET"; url->tm = 40000000;
                    HttpUrlProtocol p;
                    error_t e = p.open(url, Transport::HTTPS);
                    int c = cert_of("127.0.0.1"), want = ref.find(q.host);
                    if (c < 0) { CHECK_MSG(e != SUCCESS, who << "handshake without a certificate succeeded"); continue; }
                    CHECK_MSG(e == SUCCESS, who << "request for " << q.host << " failed: " << e);
                    auto rsp = std::dynamic_pointer_cast<HttpResponse>(p.response());
                    CHECK_MSG(rsp && rsp->status_code == (want < 0 ? 404 : 200), who << "status " << (rsp ? rsp->status_code : 0) << " for " << q.host);
                    if (want < 0) continue;
                    Bytes got, exp = big_body(want, q.size);
                    Heap b(Bytes(3000, 0));
                    size_t n = 0;
                    while ((e = p.read(b.p, 3000, n)) == SUCCESS) { got.append((char*) b.p, n); CHECK_MSG(got.size() <= exp.size(), who << "body too long"); }
                    CHECK_MSG(got == exp, who << "wrong body for " << q.host << ": " << got.size() << " bytes instead of " << exp.size() << " of host " << want);
                }
            });
        } else if (k.kind == 0 || k.kind == 6) {
            g->go([=, &k, &ref] {
                auto io = std::make_shared<FdIO>(connect(k.delay), k.wf, k.pause);
                RefTls t(io, false, k.sni, 0);
                error_t e = t.init();
                int c = cert_of(k.sni);
                if (c < 0) { CHECK_MSG(e != SUCCESS, who << "a handshake without a configured certificate succeeded with " << t.peer_cn()); return; }
                CHECK_MSG(e == SUCCESS, who << "handshake failed: " << e);
                CHECK_MSG(t.peer_cn() == cn[c], who << "got the certificate of " << t.peer_cn() << " instead of " << cn[c]);
                if (k.kind == 6) {
                    if (!k.reqs.empty()) { std::string q = "GET /" + std::to_string(k.reqs[0].size) + " HTTP/1.1\r\nHost: " + k.reqs[0].host + "\r\n\r\n"; t.write((void*) q.data(), q.size()); }
                    return;
                }
                Bytes in;
                for (auto& q : k.reqs) {
                    std::string m = "GET /" + std::to_string(q.size) + " HTTP/1.1\r\nHost: " + q.host + "\r\n\r\n";
                    CHECK_MSG(t.write((void*) m.data(), m.size()) == SUCCESS, who << "request not accepted");
                    char b[5000];
                    while (true) {
                        Rsp r = parse_response(in, 0);
                        if (r.err.empty() && r.complete) {
                            int want = ref.find(q.host);
                            CHECK_MSG(r.status == (want < 0 ? 404 : 200), who << "status " << r.status << " for " << q.host);
                            if (want >= 0) CHECK_MSG(r.body == big_body(want, q.size), who << "wrong body for " << q.host << ": " << r.body.size() << " bytes instead of those of host " << want);
                            in.erase(0, r.used);
                            break;
                        }
                        size_t n = 0;
                        error_t e = t.read(b, sizeof b, n);
                        CHECK_MSG(e == SUCCESS, who << "request for " << q.host << " not answered (" << e << "), got " << in.size() << " bytes");
                        in.append(b, n);
                    }
                    CHECK_MSG(in.empty(), who << "bytes after the response");
                }
            });
        } else {
            bg->go([=, &k] {
                auto io = std::make_shared<FdIO>(connect(k.delay), k.wf, k.pause);
                auto hold = [] { while (true) st_usleep(1000000); };
                if (k.kind == 4) hold();
                if (k.kind == 3) { io->write((void*) k.junk.data(), k.junk.size()); size_t n; char b[2000]; while (io->read(b, sizeof b, n) == SUCCESS) {} hold(); }
                io->limit = k.limit;
                if (k.kind == 1) io->hang = hold;
                RefTls t(io, false, k.sni, 0);
                t.init();
                if (k.kind == 1) hold();
            });
        }
    }
    try { g->join(90, "https clients"); } catch (const pbt::Failure& e) { return e.msg; }
    return "fine";
}
static void p37(Src& s, Ctx& c) {
    static const std::vector<std::string> pool = {"a.test", "b.test", "www.a.test", "*.a.test", "*", "x", "127.0.0.1"};
    static const std::vector<std::string> ask = {"a.test", "b.test", "www.a.test", "q.a.test", "x", "unknown.org", "127.0.0.1"};
    std::vector<TlsHost> hs;
    Ref ref;
    size_t nh = 1 + s.draw(4);
    for (size_t i = 0; i < nh; ++i) {
        std::string n = s.pick(pool);
        if (ref.m.count(n)) continue;
        ref.m[n] = (int) hs.size();
        hs.push_back({n, (int) hs.size(), (int) s.weighted({4, 4, 3, 1})});
        if (hs.back().cert >= 2) hs.back().cert = hs.back().cert == 2 ? -1 : 2;
    }
    int dflt = (int) s.weighted({2, 2, 3});
    if (dflt == 2) dflt = -1;
    int opts = (int) s.draw(1);
    std::vector<TlsClient> cls;
    size_t nc = 1 + s.draw(5), bad = 0, reqs = 0;
    size_t big = 0;
    for (size_t i = 0; i < nc; ++i) {
        TlsClient k;
        k.kind = (int) s.weighted({6, 2, 2, 2, 1, 2, 1});
        k.sni = s.chance(1, 8) ? "" : s.pick(ask);
        if (k.kind == 0 || k.kind == 5 || k.kind == 6)
            while (s.more(2) && k.reqs.size() < 5) {
                TlsReq q{s.chance(1, 4) ? s.pick(ask) : k.sni.empty() ? "a.test" : k.sni, 0};
                q.size = s.weighted({3, 1}) ? s.draw(120000) : s.draw(300);
                big = std::max(big, q.size);
                k.reqs.push_back(q);
                ++reqs;
            }
        k.wf = gen_frag(s, 600);
        k.pause = s.chance(1, 3) ? 100 + s.draw(3000) : 0;
        k.delay = s.chance(1, 2) ? s.draw(8000) : 0;
        k.limit = s.draw(400);
        if (k.kind == 3) {
            k.junk = s.blob(s.draw(300));
            if (s.boolean()) k.junk = Bytes("\x16\x03\x01", 3) + k.junk;
        }
        bad += k.kind >= 1 && k.kind <= 4;
        cls.push_back(k);
    }
    if (s.chance(3, 4)) for (auto& k : cls) if (k.kind == 0 && k.reqs.empty()) k.reqs.push_back({k.sni.empty() ? "a.test" : k.sni, 10});
    std::string text = tls_config(hs, dflt, opts);
    if (c.want_desc) {
        for (auto& h : hs) c.desc << h.name << ":" << h.cert << " ";
        c.desc << "default:" << dflt << "; ";
        for (auto& k : cls) { c.desc << kKinds[k.kind] << " '" << k.sni << "'"; if (k.delay) c.desc << " +" << k.delay << "us"; if (k.kind == 1 || k.kind == 2) c.desc << " after " << k.limit << " bytes"; for (auto& q : k.reqs) c.desc << " " << q.host << "/" << q.size; c.desc << "; "; }
    }
    for (auto& h : hs) { c.mix(h.name); c.mix(&h.cert, 4); }
    for (auto& k : cls) { c.mix(&k.kind, 4); c.mix(k.sni); c.mix(&k.limit, 8); for (auto& q : k.reqs) { c.mix(q.host); c.mix(&q.size, 8); } }
    c.nontrivial = reqs > 0;
    c.label_if(bad > 0, "misbehaving-client"); c.label_if(dflt < 0, "no-server-certificate"); c.label_if(big > 16384, "multi-record");
    run_child(c, [&] { return tls_run(text, ref, hs, dflt, cls); }, [&](const std::string& r) { CHECK_MSG(r == "fine", r << " with\n" << text); });
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P30";
    a.rule = "configurations of one to five globalhost, http and upstream blocks in any order; up to four servers per http block on three ports, hosts from a pool of exact, wildcard, default and illegal names with and without conflicts; installed in a fresh process and probed at every port with eleven names on a persistent connection; non-trivial: at least one server and one host; distinct by text";
    a.body = p30; a.setup = setup; a.quick_cases = 20000; a.thorough_cases = 400000; a.cpu_clock = false; a.case_timeout = 100;
    a.assumptions = {"http servers with transport tcp; rtmp and srt blocks are not generated"};
    pbt::Property b;
    b.id = "P37";
    b.rule = "an https server of one to five exact, wildcard and default hosts with their own, no or unreadable certificates, with or without a certificate of the server; one to six concurrent clients: plain OpenSSL with and without server name making up to five requests of up to 120000-byte answers with fragmented and paused writes, the project's own HTTPS client, and clients that stop or leave at any byte of the handshake, send garbage or nothing; non-trivial: at least one request; distinct by configuration and clients";
    b.body = p37; b.setup = [] { setup(); cert_files(); }; b.quick_cases = 3000; b.thorough_cases = 100000; b.cpu_clock = false; b.case_timeout = 150;
    return pbt::run_main(argc, argv, {a, b});
}
