// PROPERTIES: P44
// RTMPSHIM
// TECHNIQUE P44: property-based testing: generated sets of clients that talk, stall, leave or reset at any point against an installed http, https or rtmp server with generated timeouts in a fresh process; checks when the server ends a connection and that every descriptor is released
#include "servers_env.hpp"

#include <sps_rtmp_module.hpp>

// ---- P44: connections end
struct EndClient {
    int kind;                       // how it ends: 0 close, 1 reset, 2 idle, 3 leaves before the answer
    int reqs;
    utime_t delay, gap;
    Bytes part;                     // sent after the requests: part of a request or handshake, or garbage
    Frag wf;
};
static const char* kEnds[] = {"closes", "resets", "idles", "does not wait"};
static int open_fds() {
    int n = 0;
    for (int i = 0; i < 1024; ++i) n += fcntl(i, F_GETFD) >= 0;
    return n;
}
static std::string ends_run(const std::string& text, int proto, utime_t tm, const std::vector<EndClient>& cls) {
    RootModuleFactory f;
    PIModule root = f.create("root", "", nullptr);
    Heap h(text);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) h.p, (int) h.n);
    if (root->init_conf(rd) != SUCCESS) return "harness: configuration refused";
    if (ICoFactory::get_instance().init() != SUCCESS) return "harness: no scheduler";
    if (root->install() != SUCCESS) return "harness: not installed";
    st_thread_create(upstream_main, nullptr, 0, 0);
    st_usleep(1000);
    int before = open_fds();
    auto g = stn::group();
    for (size_t i = 0; i < cls.size(); ++i) {
        const EndClient& k = cls[i];
        std::string who = "client #" + std::to_string(i) + " (" + kEnds[k.kind] + "): ";
        g->go([=, &k] {
            if (k.delay) st_usleep(k.delay);
            int s = socket(AF_INET, SOCK_STREAM, 0);
            st_netfd_t fd = st_netfd_open_socket(s);
            sockaddr_in a{};
            a.sin_family = AF_INET; a.sin_port = htons((uint16_t) (base_port + 1)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            CHECK_MSG(st_connect(fd, (sockaddr*) &a, sizeof a, 40000000) == 0, who << "the server does not accept connections");
            double last = stn::mono();
            Bytes in;
            bool late = false;           // we were slower than the server has to wait
            auto send = [&](const Bytes& m, bool may_end) {
                late = late || (tm && (stn::mono() - last) * 1e6 > tm * 0.6);
                last = stn::mono();
                ssize_t n = st_write(fd, m.data(), m.size(), 40000000);
                late = late || (tm && (stn::mono() - last) * 1e6 > tm * 0.6);
                if (may_end && n != (ssize_t) m.size()) return false;      // what it got so far may be refused
                CHECK_MSG(late || n == (ssize_t) m.size(), who << "the server does not take a request");
                return true;
            };
            for (int r = 0; r < k.reqs && !late; ++r) {
                if (k.gap) st_usleep(k.gap);
                send("GET /x HTTP/1.1\r\nHost: a.test\r\n\r\n", false);
                if (k.kind == 3 && r + 1 == k.reqs) break;
                while (!late) {
                    Rsp rsp = parse_response(in, 0);
                    if (rsp.err.empty() && rsp.complete) { CHECK_MSG(rsp.status == 200, who << "status " << rsp.status); in.erase(0, rsp.used); break; }
                    char t[2000];
                    int one = 1;
                    setsockopt(s, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
                    ssize_t n = st_read(fd, t, sizeof t, 40000000);
                    late = late || (tm && (stn::mono() - last) * 1e6 > tm * 0.6);
                    CHECK_MSG(n > 0 || late, who << "request " << r << " is not answered");
                    if (n > 0) in.append(t, (size_t) n);
                }
            }
            for (size_t at = 0, w = 0; at < k.part.size() && !late; ++w) {
                size_t n = std::min(w > 20 ? k.part.size() : std::max<size_t>(1, k.wf.sizes.empty() ? 1 : k.wf.sizes[w % k.wf.sizes.size()]), k.part.size() - at);
                if (k.gap && at) st_usleep(k.gap);
                if (!send(k.part.substr(at, n), true)) break;
                at += n;
            }
            if (k.kind == 2 && !late) {
                char t[4000];
                ssize_t n;
                utime_t patience = tm ? tm + 20000000 : 400000;
                if (!tm) st_usleep(0);
                // an answer to the part may come first
                while ((n = st_read(fd, t, sizeof t, patience)) > 0) {}
                double el = stn::mono() - last;
                bool open = n < 0 && errno == ETIME;
                if (!tm) CHECK_MSG(open || !k.part.empty(), who << "is cut off after " << el * 1e3 << " ms without a timeout configured");
                else {
                    CHECK_MSG(!open, who << "is still connected " << el << " s after its last byte, the timeout is " << tm / 1000 << " ms");
                    CHECK_MSG(!k.part.empty() || el * 1e6 >= tm * 0.7, who << "is cut off " << el * 1e3 << " ms after its last byte, the timeout is " << tm / 1000 << " ms");
                }
            }
            if (k.kind == 1) { linger l{1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            st_netfd_close(fd);
        });
    }
    try { g->join(60, "clients"); } catch (const pbt::Failure& e) { return e.msg; }
    int after = 0;
    for (int i = 0; i < 1500; ++i) {
        if ((after = open_fds()) <= before) break;
        st_usleep(10000);
    }
    if (after > before) return "15 s after all clients left the server holds " + std::to_string(after - before) + " descriptors more than before they came";
    return "fine";
}
static void p44(Src& s, Ctx& c) {
    int proto = (int) s.weighted({4, 1, 2});       // http, https, rtmp
    utime_t tm = s.chance(2, 3) ? 1000 * (utime_t) s.range(120, 500) : 0;
    std::vector<EndClient> cls;
    size_t nc = 1 + s.draw(7), parts = 0;
    for (size_t i = 0; i < nc; ++i) {
        EndClient k;
        k.kind = (int) s.weighted({3, 2, 3, 2});
        k.reqs = proto == 0 ? (int) s.draw(3) : 0;
        k.delay = s.boolean() ? s.draw(20000) : 0;
        k.gap = s.chance(1, 3) ? s.draw(30000) : 0;
        k.wf = gen_frag(s, 600);
        if (s.boolean()) {
            Bytes whole;
            if (s.chance(1, 4)) whole = s.blob(s.skew(1, 3000));
            else if (proto == 0) whole = "GET /x HTTP/1.1\r\nHost: a.test\r\nX-Long: " + Bytes(s.skew(0, 500), 'y') + "\r\n\r\n";
            else if (proto == 1) whole = Bytes("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + s.blob(506);
            else whole = Bytes("\x03", 1) + s.blob(1536) + s.blob(1536);
            k.part = whole.substr(0, proto == 0 ? s.draw(whole.size() - 1) : s.draw(whole.size()));
        }
        parts += !k.part.empty();
        c.label(kEnds[k.kind]);
        c.mix(&k.kind, 4); c.mix(&k.reqs, 4); c.mix(k.part); c.mix(&k.gap, 8);
        cls.push_back(k);
    }
    bool where = s.boolean(), set_send = s.boolean();
    std::string text = proto == 2 ? "rtmp {\n" : "http {\n", to;
    if (tm) to = "        recv_timeout " + std::to_string(tm) + ";\n" + (set_send ? "        send_timeout 20000000;\n" : "");
    text += "    server s {\n        listen_port " + std::to_string(base_port + 1) + ";\n        transport " + (proto == 1 ? "https" : "tcp") + ";\n" + (where ? to : "");
    if (proto == 1) text += "        ssl_key_file " + f_key[0] + ";\n        ssl_crt_file " + f_cert[0] + ";\n";
    text += "        host * {\n            type proxy;\n            role proxy;\n            pass_proxy 127.0.1.1:" + std::to_string(up_port) + ";\n        }\n" + (where ? "" : to) + "    }\n}\n";
    c.mix(&proto, 4); c.mix(&tm, 8);
    c.nontrivial = true;
    static const char* pn[] = {"http", "https", "rtmp"};
    c.label(pn[proto]); c.label_if(tm, "timeout"); c.label_if(parts, "partial");
    if (c.want_desc) {
        c.desc << pn[proto] << " timeout " << tm / 1000 << " ms;";
        for (auto& k : cls) c.desc << " " << k.reqs << " requests, then " << k.part.size() << " bytes of another, gaps " << k.gap << " us, " << kEnds[k.kind] << ";";
    }
    run_child(c, [&] { return ends_run(text, proto, tm, cls); }, [&](const std::string& r) { CHECK_MSG(r == "fine", r << " with\n" << text); });
}

int main(int argc, char** argv) {
    pbt::Property d;
    d.id = "P44";
    d.rule = "an http (with a proxied host), https or rtmp server with a receive timeout of 120 to 500 ms or none; one to eight concurrent clients with up to three requests, then any part of another request or handshake in pieces with pauses, or garbage, and then closing, resetting, falling silent or leaving before the answer; non-trivial: every case has a connection that ends; distinct by server and clients";
    d.body = p44; d.setup = [] { setup(); cert_files(); auto f = std::make_shared<RtmpModuleFactory>(); SingleInstance<ModuleFactoryRegister>::get_instance().reg(f->module, f); }; d.quick_cases = 3000; d.thorough_cases = 150000; d.cpu_clock = false; d.case_timeout = 100;
    return pbt::run_main(argc, argv, {d});
}
