// PROPERTIES: P25
// TCP and UDP endpoints over the loopback network, SRT endpoints over a scripted message transport.
#include <fcntl.h>
#include <sys/resource.h>
#include <srtcore/srt.h>

#include <list>

#include <sps_io_socket.hpp>
#include <sps_sys_st_io_srt.hpp>
#include <sps_sys_st_io_tcp.hpp>
#include <sps_sys_st_io_udp.hpp>

#include "stnet.hpp"

using namespace sps;
using namespace stn;

// ---- a stand-in for the SRT library's message calls (live mode: one message per call, at most 1316 bytes)
static std::list<Bytes> srt_in;
static std::vector<Bytes> srt_out;
extern "C" int srt_recv(SRTSOCKET, char* buf, int len) {
    if (srt_in.empty()) return 0;
    Bytes m = srt_in.front();
    if ((size_t) len < m.size()) return SRT_ERROR;
    srt_in.pop_front();
    memcpy(buf, m.data(), m.size());
    return (int) m.size();
}
extern "C" int srt_sendmsg(SRTSOCKET, const char* buf, int len, int, int inorder) {
    if (len > SRT_LIVE_DEF_PLSIZE || len <= 0 || !inorder) return SRT_ERROR;
    srt_out.push_back(Bytes(buf, len));
    return len;
}
extern "C" int srt_getlasterror(int*) { return 5004; }
extern "C" int srt_close(SRTSOCKET) { return 0; }

static std::shared_ptr<StTcpServerSocket> tcp_srv;
static std::shared_ptr<StUdpServerSocket> udp_srv;
static int tcp_port, udp_port;
static void setup() {
    quiet_log();
    stn::init();
    srt_in.clear(); srt_out.clear();
    for (int i = 0; i < 200; ++i) {
        int port = 12000 + (getpid() * 7 + i * 131) % 18000;
        tcp_srv = std::make_shared<StTcpServerSocket>();
        if (tcp_srv->listen("127.0.0.1", port, false, 64) == SUCCESS) { tcp_port = port; break; }
    }
    for (int i = 0; i < 200; ++i) {
        int port = 12000 + (getpid() * 7 + 3 + i * 131) % 18000;
        udp_srv = std::make_shared<StUdpServerSocket>();
        if (udp_srv->listen("127.0.0.1", port, false, 64) == SUCCESS) { udp_port = port; break; }
    }
}
static double tick_count;

struct Conn { PSocket c, s; };
static Conn tcp_pair(const std::string& host) {
    Conn k;
    auto g = group();
    auto pc = std::make_shared<PSocket>(), ps = std::make_shared<PSocket>();
    g->go([=] { *pc = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, host, tcp_port, 10 * 1000 * 1000); });
    g->go([=] { *ps = tcp_srv->accept(); });
    g->join(60, "connect");
    CHECK_MSG(*pc, "connect to a listening server failed");
    CHECK_MSG(*ps, "accept failed");
    k.c = *pc; k.s = *ps;
    CHECK_MSG(k.s->get_peer_ip() == "127.0.0.1" && k.s->get_self_ip() == "127.0.0.1" && k.s->get_self_port() == tcp_port && k.s->get_peer_port() > 0,
              "accepted connection reports peer " << k.s->get_peer_ip() << ":" << k.s->get_peer_port() << " self " << k.s->get_self_ip() << ":" << k.s->get_self_port());
    CHECK_MSG(k.c->get_peer_ip() == "127.0.0.1" && k.c->get_peer_port() == tcp_port, "client reports peer " << k.c->get_peer_ip());
    return k;
}

static void tcp_traffic(Src& s, Ctx& c) {
    Dir up = gen_dir(s, false), down = gen_dir(s, true);
    if (s.chance(1, 10)) up.writes.push_back(s.blob(s.range(300000, 3000000)));
    if (s.chance(1, 8)) for (auto& r : up.reads) if (s.boolean()) r.size = s.range(60000, 400000);
    bool raw_c = s.boolean(), raw_s = s.boolean();        // through the adapter or the endpoint itself
    bool duplex = s.boolean();
    int ending = (int) s.weighted({1, 3, 3});             // nothing, client closes, exact read past the end
    size_t over = s.skew(1, 5000);
    bool late = s.boolean();
    if (c.want_desc) c.desc << "TCP up: " << show(up) << " down: " << show(down) << (duplex ? " duplex" : " in turn") << " ending " << ending;
    for (auto& w : up.writes) c.mix(w);
    for (auto& w : down.writes) c.mix(w);
    for (auto& r : up.reads) c.mix(&r.size, 8);
    c.nontrivial = true;
    Conn k = tcp_pair(s.chance(1, 20) ? "localhost" : "127.0.0.1");
    PIReaderWriter cl = raw_c ? k.c->get_io() : k.c, sv = raw_s ? k.s->get_io() : k.s;
    Bytes eu = up.all(), ed = down.all();
    auto g = group();
    if (!duplex) {
        g->go([=] {
            do_writes(cl, up, 0, up.writes.size(), "client");
            size_t at = 0, op = 0;
            do_reads(cl, down, ed, at, ed.size(), op, false, "client");
        });
        g->go([=] {
            size_t at = 0, op = 0;
            do_reads(sv, up, eu, at, eu.size(), op, false, "server");
            do_writes(sv, down, 0, down.writes.size(), "server");
        });
    } else {
        g->go([=] { do_writes(cl, up, 0, up.writes.size(), "client"); });
        g->go([=] { do_writes(sv, down, 0, down.writes.size(), "server"); });
        g->go([=] { size_t at = 0, op = 0; do_reads(cl, down, ed, at, ed.size(), op, false, "client"); });
        g->go([=] { size_t at = 0, op = 0; do_reads(sv, up, eu, at, eu.size(), op, false, "server"); });
    }
    g->join(60, "TCP traffic");
    if (ending) {
        // a second burst, then an orderly close: everything arrives before the end is seen
        g = group();
        Bytes burst = eu.substr(0, std::min<size_t>(eu.size(), 60000));
        cl = nullptr;
        PSocket cs = k.c;
        k.c = nullptr;
        auto hold = std::make_shared<PSocket>(cs);
        cs = nullptr;
        g->go([=] {
            Heap h(burst);
            error_t e = (*hold)->write(h.p, h.n);
            CHECK_MSG(e == SUCCESS, "write failed with " << e);
            if (late) st_usleep(2000);
            *hold = nullptr;                               // closes
        });
        g->go([=] {
            size_t at = 0, op = 0;
            if (ending == 1) {
                do_reads(sv, up, burst, at, burst.size(), op, false, "server before the close");
                for (int i = 0; i < 2; ++i) {
                    Heap h(Bytes(16, 0));
                    size_t n = 0;
                    error_t e = sv->read(h.p, 16, n);
                    CHECK_MSG(e != SUCCESS && e != ERROR_SOCKET_TIMEOUT, "read after the peer closed returned " << e);
                }
            } else {
                size_t keep = burst.size() / 2;
                do_reads(sv, up, burst, at, keep, op, false, "server before the close");
                if (at < burst.size() + 0) {}
                Heap h(Bytes(burst.size() - at + over, 0));
                error_t e = sv->read_fully(h.p, h.n, nullptr);
                CHECK_MSG(e != SUCCESS && e != ERROR_SOCKET_TIMEOUT, "exact read past the end of the stream returned " << e);
            }
        });
        g->join(60, "TCP close");
        c.label(ending == 1 ? "close" : "exact read past the end");
    }
    c.label_if(eu.size() > 250000, "blocked writer");
    c.label("tcp");
}

static void tcp_timeout(Src& s, Ctx& c) {
    utime_t tm = 1000 * s.range(5, 60);
    int kind = (int) s.weighted({3, 3, 1});               // read, exact read with part of the data, write
    size_t part = s.skew(0, 100), size = part + s.skew(1, 100);
    bool raw = s.boolean();
    Bytes later = s.blob(s.range(1, 300));
    if (c.want_desc) c.desc << "TCP timeout " << tm << " us kind " << kind << " part " << part << " of " << size;
    c.mix(&tm, sizeof tm); c.mix(&kind, 4); c.mix(&part, 8); c.mix(&size, 8); c.mix(later);
    c.nontrivial = true;
    Conn k = tcp_pair("127.0.0.1");
    PIReaderWriter r = raw ? k.s->get_io() : k.s;
    PSocket w = k.c;
    auto g = group();
    auto stop = std::make_shared<bool>(false);
    auto ticks = std::make_shared<int>(0);
    g->go([=] { while (!*stop) { st_usleep(1000); ++*ticks; } });
    g->go([=] {
        Heap h(Bytes(std::max<size_t>(size, 8 << 10), 0));
        double t0 = mono(), t1;
        error_t e;
        if (kind == 2) {
            r->set_send_timeout(tm);
            CHECK_EQ(r->get_send_timeout(), tm);
            int n = 0;
            Heap big(Bytes(1 << 20, 'x'));
            do { t0 = mono(); st_usleep(0); e = r->write(big.p, big.n); } while (e == SUCCESS && ++n < 200);
            t1 = mono();
            *stop = true;
            CHECK_MSG(e == ERROR_SOCKET_TIMEOUT, "write to a peer that never reads: " << e << " after " << n << " MB");
            CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, "write timed out after " << (t1 - t0) * 1e3 << " ms, set " << tm / 1000);
            return;
        }
        r->set_recv_timeout(tm);
        CHECK_EQ(r->get_recv_timeout(), tm);
        if (kind == 1 && part) CHECK(w->write(h.p, part) == SUCCESS);
        t0 = mono();
        st_usleep(0);     // the scheduler's clock stands still between switches
        if (kind == 0) { size_t n = 0; e = r->read(h.p, size, n); }
        else { ssize_t n = 0; e = r->read_fully(h.p, size, &n); }
        t1 = mono();
        *stop = true;
        CHECK_MSG(e == ERROR_SOCKET_TIMEOUT, "a read with nothing to read returned " << e << " after " << (t1 - t0) * 1e3 << " ms");
        CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, "read timed out after " << (t1 - t0) * 1e3 << " ms, set " << tm / 1000);
        CHECK_MSG(t1 - t0 < tm * 1e-6 + 20, "read timed out after " << (t1 - t0) << " s, set " << tm / 1000 << " ms");
        CHECK_MSG(*ticks >= 1, "other coroutines stood still while one waited " << tm / 1000 << " ms");
        // the connection is still good
        Heap l(later), o(Bytes(later.size(), 0));
        CHECK(w->write(l.p, l.n) == SUCCESS);
        r->set_recv_timeout(10 * 1000 * 1000);
        e = r->read_fully(o.p, o.n, nullptr);
        CHECK_MSG(e == SUCCESS && memcmp(o.p, later.data(), o.n) == 0, "data sent after a timeout was not received: " << e);
    });
    g->join(120, "TCP timeout");
    c.label(kind == 0 ? "timeout read" : kind == 1 ? "timeout exact read" : "timeout write");
}

static void tcp_refused(Src& s, Ctx& c) {
    // nothing listens there; and accepting with no file descriptors left
    if (s.boolean()) {
        int fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t l = sizeof a;
        CHECK(bind(fd, (sockaddr*) &a, sizeof a) == 0 && getsockname(fd, (sockaddr*) &a, &l) == 0);   // bound, not listening
        int port = ntohs(a.sin_port);
        auto p = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", port, 3 * 1000 * 1000);
        close(fd);
        CHECK_MSG(!p, "a connection to a port nobody listens on succeeded");
        c.label("connection refused");
        return;
    }
    auto g = group();
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(tcp_port);
    CHECK(connect(fd, (sockaddr*) &a, sizeof a) == 0);
    rlimit old, low;
    getrlimit(RLIMIT_NOFILE, &old);
    int probe = dup(0);
    close(probe);
    low = old;
    low.rlim_cur = probe;
    setrlimit(RLIMIT_NOFILE, &low);
    bool full = dup(0) < 0;
    auto got = std::make_shared<PSocket>();
    g->go([=] { *got = tcp_srv->accept(); });
    bool blocked = false;
    try { g->join(10, "accept without descriptors"); } catch (...) { setrlimit(RLIMIT_NOFILE, &old); throw; }
    setrlimit(RLIMIT_NOFILE, &old);
    if (full) CHECK_MSG(!*got, "accept without a free descriptor returned a connection");
    if (!*got) {
        g = group();
        g->go([=] { *got = tcp_srv->accept(); });
        g->join(30, "accept after descriptors are free again");
        CHECK_MSG(*got, "the waiting connection was not accepted once descriptors were free");
    }
    close(fd);
    (void) blocked;
    c.label("no descriptors");
}

static int local_port(int fd) {
    sockaddr_in a{};
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr*) &a, &l);
    return ntohs(a.sin_port);
}

static int udp_bound(int ip, int port) {
    int fd = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK - 1 + ip); a.sin_port = htons(port);
    if (bind(fd, (sockaddr*) &a, sizeof a)) { close(fd); return -1; }
    return fd;
}

// a sender reaches the address it was given, and only that
static void udp_address(Src& s, Ctx& c) {
    int ip = (int) s.range(1, 4);
    Bytes data = s.blob(s.skew(1, 65507));
    c.mix(&ip, 4); c.mix(data);
    c.nontrivial = true;
    if (c.want_desc) c.desc << "UDP to 127.0.0." << ip << " (" << data.size() << ")";
    int fd[5], port = 0;
    for (int tries = 0; tries < 50; ++tries) {
        fd[ip] = udp_bound(ip, 0);
        CHECK(fd[ip] >= 0);
        port = local_port(fd[ip]);
        bool ok = true;
        for (int i = 1; i <= 4; ++i) if (i != ip) ok = (fd[i] = udp_bound(i, port)) >= 0 && ok;
        if (ok) break;
        for (int i = 1; i <= 4; ++i) close(fd[i]);
        port = 0;
    }
    if (!port) throw pbt::Discard{};
    auto g = group();
    g->go([=] {
        PUdpFd u;
        CHECK(UdpFd::create_fd(u) == SUCCESS);
        StUdpClientSocket k("127.0.0." + std::to_string(ip), port, u);
        Heap h(data);
        error_t e = k.write(h.p, h.n);
        CHECK_MSG(e == SUCCESS, "sending " << h.n << " bytes failed with " << e);
    });
    g->join(60, "UDP send");
    Heap h(Bytes(70000, 0));
    for (int i = 1; i <= 4; ++i) {
        ssize_t n = recv(fd[i], h.p, h.n, MSG_DONTWAIT);
        close(fd[i]);
        if (i == ip) CHECK_MSG(n == (ssize_t) data.size() && memcmp(h.p, data.data(), n) == 0, "127.0.0." << ip << " received " << n << " of " << data.size());
        else CHECK_MSG(n < 0, "a datagram for 127.0.0." << ip << " went to 127.0.0." << i);
    }
    c.label("udp address");
}

static void udp(Src& s, Ctx& c) {
    int n = (int) s.range(1, 4);
    struct Cl { int ip = 1; PUdpFd fd; PStUdpClientSocket k; int port; PSocket session; std::vector<Bytes> sent; size_t seen = 0; bool connected = false; };
    auto cls = std::make_shared<std::vector<Cl>>(n);
    struct Op { int kind; int who; Bytes data; size_t buf; };
    std::vector<Op> ops;
    size_t len = 0;
    do {
        Op o;
        o.kind = (int) s.weighted({6, 4, 2, 1, 1, 1});      // client sends, session reads, session replies, session closed, small buffer, timeout
        o.who = (int) s.draw(n - 1);
        size_t sz = s.chance(1, 6) ? s.range(1400, 9000) : s.chance(1, 20) ? s.range(9000, 40000) : s.skew(1, 1500);
        o.data = s.blob(sz);
        o.buf = s.skew(0, 5000);
        if (o.kind == 0) len += sz;
        ops.push_back(o);
    } while (s.more(14));
    bool conn = s.chance(1, 4), same_port = !conn && s.boolean();
    for (int i = 0; i < n; ++i) (*cls)[i].ip = conn ? 1 : same_port ? 1 + i : (int) s.range(1, 3);
    if (c.want_desc) {
        c.desc << "UDP " << n << " clients" << (conn ? " connected:" : ":");
        static const char* nm[] = {"send", "read", "reply", "close", "small", "timeout"};
        for (auto& o : ops) c.desc << " " << nm[o.kind] << o.who << "(" << o.data.size() << ")";
    }
    for (auto& o : ops) { c.mix(o.data); c.mix(&o.kind, 4); c.mix(&o.who, 4); }
    c.nontrivial = ops.size() > 1;
    auto g = group();
    g->go([=] {
        for (auto& x : *cls) {
            int port = same_port && &x != &(*cls)[0] ? (*cls)[0].port : 0, sock = udp_bound(x.ip, port);
            if (sock < 0) sock = udp_bound(x.ip, 0);
            CHECK(sock >= 0);
            x.fd = std::make_shared<UdpFd>(st_netfd_open_socket(sock));
            x.port = local_port(sock);
            x.k = std::make_shared<StUdpClientSocket>("127.0.0.1", udp_port, x.fd);
            if (conn) CHECK(x.k->connect() == 0);
        }
        auto do_read = [&](Cl& x, int who, size_t want_buf) {
            const Bytes& e = x.sent[x.seen];
            Heap h(Bytes(want_buf, 0));
            size_t nr = 0;
            x.session->set_recv_timeout(10 * 1000 * 1000);
            error_t r = x.session->read(h.p, h.n, nr);
            if (want_buf < e.size()) {
                CHECK_MSG(r != SUCCESS, "a datagram of " << e.size() << " bytes was read into " << want_buf << " bytes: " << nr);
                return;
            }
            CHECK_MSG(r == SUCCESS, "session " << who << " read failed with " << r << ", " << x.sent.size() - x.seen << " datagrams outstanding");
            CHECK_MSG(nr == e.size() && memcmp(h.p, e.data(), nr) == 0, "session " << who << " got " << nr << " bytes, datagram " << x.seen << " had " << e.size());
            x.seen++;
        };
        for (auto& o : ops) {
            Cl& x = (*cls)[o.who];
            if (o.kind == 0) {
                if (x.sent.size() - x.seen > 8) continue;
                Heap h(o.data);
                error_t e = x.k->write(h.p, h.n);
                CHECK_MSG(e == SUCCESS, "sending a datagram of " << h.n << " failed with " << e);
                x.sent.push_back(o.data);
                if (!x.session) {
                    x.session = udp_srv->accept();
                    CHECK_MSG(x.session->get_peer_ip() == "127.0.0." + std::to_string(x.ip) && x.session->get_peer_port() == x.port,
                              "session of client 127.0.0." << x.ip << ":" << x.port << " reports " << x.session->get_peer_ip() << ":" << x.session->get_peer_port());
                    CHECK_MSG(x.session->get_self_ip() == "127.0.0.1", "session reports own address " << x.session->get_self_ip());
                }
            } else if (!x.session) continue;
            else if (o.kind == 1) { if (x.seen < x.sent.size()) do_read(x, o.who, x.sent[x.seen].size() + (o.buf % 3 ? o.buf : 0)); }
            else if (o.kind == 4) { if (x.seen < x.sent.size()) do_read(x, o.who, o.buf % x.sent[x.seen].size()); }
            else if (o.kind == 2) {
                Heap h(o.data), r(Bytes(70000, 0));
                error_t e = x.session->write(h.p, h.n);
                CHECK_MSG(e == SUCCESS, "reply of " << h.n << " failed with " << e);
                x.k->set_recv_timeout(10 * 1000 * 1000);
                size_t nr = 0;
                std::string ip; int port = 0;
                e = x.k->read(r.p, r.n, nr, ip, port);
                CHECK_MSG(e == SUCCESS && nr == h.n && memcmp(r.p, o.data.data(), nr) == 0, "client " << o.who << " did not get its reply: " << e << " " << nr << " of " << h.n);
                CHECK_MSG((ip == "127.0.0.1" || x.ip != 1) && port == udp_port, "reply reported from " << ip << ":" << port);
            } else if (o.kind == 3) {
                while (x.seen < x.sent.size()) do_read(x, o.who, 70000);
                x.session = nullptr;
            } else if (o.kind == 5) {
                while (x.seen < x.sent.size()) do_read(x, o.who, 70000);
                utime_t tm = 3000 + o.buf;
                x.session->set_recv_timeout(tm);
                Heap h(Bytes(10, 0));
                size_t nr = 0;
                double t0 = mono();
                st_usleep(0);
                error_t e = x.session->read(h.p, h.n, nr);
                double t1 = mono();
                CHECK_MSG(e == ERROR_SOCKET_TIMEOUT, "session read with nothing to read returned " << e);
                CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, "session read timed out after " << (t1 - t0) * 1e3 << " ms, set " << tm / 1000.0);
                x.k->set_recv_timeout(tm);
                t0 = mono();
                st_usleep(0);
                e = x.k->read(h.p, h.n, nr);
                t1 = mono();
                CHECK_MSG(e == ERROR_SOCKET_TIMEOUT, "client read with nothing to read returned " << e);
                CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, "client read timed out after " << (t1 - t0) * 1e3 << " ms, set " << tm / 1000.0);
            }
        }
        for (int i = 0; i < n; ++i) while ((*cls)[i].seen < (*cls)[i].sent.size()) do_read((*cls)[i], i, 70000);
        for (auto& x : *cls) { x.session = nullptr; }
    });
    g->join(60, "UDP");
    c.label("udp");
    c.label_if(n > 1, "several udp clients");
}

// datagrams for the server still in the kernel
static bool udp_pending() {
    static int fd = -1;
    for (int i = 3; fd < 0 && i < 1024; ++i) {
        int type = 0, port = local_port(i);
        socklen_t l = sizeof type;
        if (getsockopt(i, SOL_SOCKET, SO_TYPE, &type, &l) == 0 && type == SOCK_DGRAM && port == udp_port) fd = i;
    }
    char b;
    return recv(fd, &b, 1, MSG_PEEK | MSG_DONTWAIT | MSG_TRUNC) >= 0;
}

// a session that is not read for a while, and one that carries many datagrams over its life
static void udp_queue(Src& s, Ctx& c) {
    bool life = s.chance(1, 3);
    int total = (int) (life ? s.range(4001, 5200) : s.range(2, 1500)), batch = (int) s.range(1, 100);
    size_t base = s.range(4, 300);
    unsigned seed = (unsigned) s.range(0, 1000000);
    int neighbours = (int) s.range(0, 3);
    if (c.want_desc) c.desc << "UDP " << total << " datagrams of about " << base << " bytes, " << batch << " at a time" << (life ? ", read as they arrive" : ", read at the end") << ", " << neighbours << " clients on neighbouring ports";
    c.mix(&total, 4); c.mix(&batch, 4); c.mix(&base, 8); c.mix(&seed, 4); c.mix(&neighbours, 4);
    c.nontrivial = total > 20 || neighbours;
    auto dgram = [=](int who, int i) {
        Bytes b((char*) &i, 4);
        b += (char) who;
        unsigned x = seed + i * 7919u + who;
        size_t n = base + x % 37;
        while (b.size() < n) { x = x * 1103515245u + 12345u; b += (char) (x >> 16); }
        return b;
    };
    auto g = group();
    g->go([=] {
        struct Cl { PStUdpClientSocket k; PSocket session; int port; };
        std::vector<Cl> cl;
        for (int i = 0; i <= neighbours; ++i) {
            int sock = -1;
            for (int d = 0; sock < 0 && i && d < 9; ++d) sock = udp_bound(1, cl[0].port - cl[0].port % 10 + (cl[0].port + i + d) % 10);
            if (sock < 0) sock = udp_bound(1, 0);
            CHECK(sock >= 0);
            PUdpFd fd = std::make_shared<UdpFd>(st_netfd_open_socket(sock));
            cl.push_back({std::make_shared<StUdpClientSocket>("127.0.0.1", udp_port, fd), nullptr, local_port(sock)});
        }
        auto send = [&](int who, int i) {
            Heap h(dgram(who, i));
            error_t e = cl[who].k->write(h.p, h.n);
            CHECK_MSG(e == SUCCESS, "sending datagram " << i << " failed with " << e);
        };
        auto recv = [&](int who, int i) {
            Bytes e = dgram(who, i);
            Heap h(Bytes(2000, 0));
            size_t nr = 0;
            cl[who].session->set_recv_timeout(10 * 1000 * 1000);
            error_t r = cl[who].session->read(h.p, h.n, nr);
            CHECK_MSG(r == SUCCESS, "datagram " << i << " of " << total << " was not delivered to session " << who << ": " << r);
            CHECK_MSG(nr == e.size() && memcmp(h.p, e.data(), nr) == 0, "session " << who << " got " << nr << " bytes instead of datagram " << i << " (" << e.size() << ")");
        };
        for (int w = 0; w < (int) cl.size(); ++w) {
            send(w, 0);
            cl[w].session = udp_srv->accept();
            CHECK_MSG(cl[w].session->get_peer_port() == cl[w].port, "session of port " << cl[w].port << " reports " << cl[w].session->get_peer_port());
        }
        int got = 0;
        for (int i = 1; i < total;) {
            for (int k = 0; k < batch && i < total; ++k, ++i) send(0, i);
            if (life) while (got < i) recv(0, got++);
            // let the listener take them from the kernel, which holds far fewer than a session does
            else for (int k = 0; k < 20000 && udp_pending(); ++k) st_usleep(100);
        }
        while (got < total) recv(0, got++);
        for (int w = 1; w < (int) cl.size(); ++w) recv(w, 0);
        for (auto& x : cl) x.session = nullptr;
    });
    g->join(40, "UDP queue");
    c.label(life ? "long udp session" : "unread udp session");
}

static void srt(Src& s, Ctx& c) {
    Dir d = gen_dir(s, false);
    Bytes all = d.all();
    srt_in.clear(); srt_out.clear();
    for (size_t at = 0; at < all.size();) {
        size_t n = std::min<size_t>(all.size() - at, s.chance(1, 2) ? 1316 : s.skew(1, 1316));
        srt_in.push_back(all.substr(at, n));
        at += n;
    }
    bool raw = s.boolean();
    if (c.want_desc) c.desc << "SRT " << srt_in.size() << " messages, " << show(d);
    c.mix(all);
    for (auto& m : srt_in) { size_t n = m.size(); c.mix(&n, 8); }
    for (auto& r : d.reads) c.mix(&r.size, 8);
    c.nontrivial = true;
    auto k = std::make_shared<StSrtSocket>(77);
    PIReaderWriter x = raw ? (PIReaderWriter) k : std::make_shared<Socket>(k, "127.0.0.1", 1);
    size_t at = 0, op = 0;
    do_reads(x, d, all, at, all.size(), op, false, "SRT reader");
    Heap h(Bytes(16, 0));
    size_t n = 0;
    CHECK_MSG(x->read(h.p, 16, n) != SUCCESS, "a read after the end of the SRT stream succeeded");
    CHECK_MSG(x->read_fully(h.p, 16, nullptr) != SUCCESS, "an exact read after the end of the SRT stream succeeded");
    do_writes(x, d, 0, d.writes.size(), "SRT writer");
    Bytes out;
    for (auto& m : srt_out) out += m;
    CHECK_MSG(out == all, "SRT messages carry " << out.size() << " bytes, written " << all.size());
    c.label("srt");
}

static int tcp_bound(int ip, int port, bool listening, bool reuse = false) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0), on = 1;
    if (reuse) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK - 1 + ip); a.sin_port = htons(port);
    if (bind(fd, (sockaddr*) &a, sizeof a) || (listening && ::listen(fd, 0))) { close(fd); return -1; }
    return fd;
}
static int open_fds() {
    int n = 0;
    for (int i = 0; i < 1024; ++i) n += fcntl(i, F_GETFD) >= 0;
    return n;
}
// listeners on one port come and go; a port taken is refused, a port given up can be taken again
static void listeners(Src& s, Ctx& c) {
    bool is_udp = s.chance(1, 3);
    struct Op { int kind; bool reuse; int who; Bytes data; };
    std::vector<Op> ops;
    do { ops.push_back({(int) s.weighted({4, 2, 4, 1}), s.boolean(), (int) s.draw(3), s.blob(s.range(1, 50))}); } while (s.more(6));
    c.mix(&is_udp, 1);
    for (auto& o : ops) { c.mix(&o.kind, 4); c.mix(&o.reuse, 1); c.mix(&o.who, 4); c.mix(o.data); }
    if (c.want_desc) { c.desc << (is_udp ? "UDP" : "TCP") << " listeners:"; static const char* nm[] = {"listen", "give up", "use", "foreign"}; for (auto& o : ops) c.desc << " " << nm[o.kind] << (o.reuse ? "+" : "-") << o.who; }
    int port = 0;
    for (int i = 0; i < 100 && !port; ++i) {            // a port below the ones the system hands out, so nobody else takes it
        int q = 12000 + (getpid() * 7 + 5 + i * 131) % 18000;
        int t = tcp_bound(1, q, false), u = udp_bound(1, q);
        if (t >= 0 && u >= 0 && q != tcp_port && q != udp_port) port = q;
        if (t >= 0) close(t);
        if (u >= 0) close(u);
    }
    if (!port) throw pbt::Discard{};
    c.nontrivial = ops.size() > 1;
    auto g = group();
    int foreign = -1;
    int before = open_fds();
    g->go([&, g] {
        std::list<std::pair<std::shared_ptr<StTcpServerSocket>, bool>> tcp;
        std::list<PUdpFd> udps;
        bool clean = true;                              // nobody waits in the queue of a listener
        auto give_up = [&](int who) { if (is_udp && !udps.empty()) { auto it = udps.begin(); std::advance(it, who % udps.size()); udps.erase(it); } else if (!is_udp && !tcp.empty()) { auto it = tcp.begin(); std::advance(it, who % tcp.size()); tcp.erase(it); } if (tcp.empty()) clean = true; };
        for (auto& o : ops) {
            size_t live = is_udp ? udps.size() : tcp.size();
            if (o.kind == 0 && is_udp) {
                PUdpFd fd;
                error_t e = UdpFd::create_fd(port, fd, o.reuse, o.reuse);
                if (foreign >= 0) CHECK_MSG(e != SUCCESS && !fd, "a UDP port that is taken is bound");
                else if (!live) CHECK_MSG(e == SUCCESS && fd, "binding a free UDP port fails with " << e);
                if (e == SUCCESS) { CHECK_MSG(fd && local_port(st_netfd_fileno(fd->get_fd())) == port, "bound to another port"); udps.push_back(fd); }
            } else if (o.kind == 0) {
                bool all = o.reuse;
                for (auto& x : tcp) all = all && x.second;
                auto k = std::make_shared<StTcpServerSocket>();
                error_t e = k->listen("127.0.0.1", port, o.reuse, 16);
                bool may = foreign < 0 && (!live || all);
                CHECK_MSG((e == SUCCESS) == may, "listening " << (o.reuse ? "with" : "without") << " port reuse on a port with " << live << " listeners" << (foreign >= 0 ? " taken by another" : "") << " gives " << e);
                if (e == SUCCESS) tcp.push_back({k, o.reuse});
            } else if (o.kind == 1) give_up(o.who);
            else if (o.kind == 3) {
                if (foreign >= 0) { close(foreign); foreign = -1; }
                else if (!live) foreign = is_udp ? udp_bound(1, port) : tcp_bound(1, port, true, true);
            } else if (is_udp) {
                if (live != 1) continue;
                int k = udp_bound(1, 0);
                sockaddr_in a{};
                a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK - 1 + 1 + o.who); a.sin_port = htons(port);
                CHECK(sendto(k, o.data.data(), o.data.size(), 0, (sockaddr*) &a, sizeof a) == (ssize_t) o.data.size());
                StUdpClientSocket r("", 0, udps.front());
                r.set_recv_timeout(10 * 1000 * 1000);
                Heap h(Bytes(2000, 0));
                size_t n = 0;
                std::string ip; int from = 0;
                error_t e = r.read(h.p, h.n, n, ip, from);
                CHECK_MSG(e == SUCCESS && n == o.data.size() && !memcmp(h.p, o.data.data(), n), "a bound UDP port got " << n << " of " << o.data.size() << " bytes: " << e);
                CHECK_MSG(ip == "127.0.0.1" && from == local_port(k), "datagram reported from " << ip << ":" << from);
                close(k);
            } else {
                if (foreign >= 0) continue;
                PSocket k = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", port, 3 * 1000 * 1000);
                CHECK_MSG((bool) k == (live > 0), "a connection to a port with " << live << " listeners " << (k ? "succeeds" : "fails"));
                if (live != 1 || !clean) { clean = live == 0; continue; }
                PSocket a = tcp.front().first->accept();
                CHECK_MSG(a, "accept fails");
                Heap h(o.data), t(Bytes(o.data.size(), 0));
                CHECK(a->write(h.p, h.n) == SUCCESS);
                k->set_recv_timeout(10 * 1000 * 1000);
                CHECK_MSG(k->read_fully(t.p, t.n, nullptr) == SUCCESS && !memcmp(t.p, o.data.data(), t.n), "data differs");
                if (o.who & 1) { a = nullptr; st_usleep(0); }     // the listener's side closes first: the port lingers
            }
        }
    });
    try { g->join(60, "listeners"); } catch (...) { if (foreign >= 0) close(foreign); throw; }
    if (foreign >= 0) close(foreign);
    int after = open_fds() + (foreign >= 0 ? 0 : 0);
    CHECK_MSG(after <= before, after - before << " descriptors are left over");
    c.label(is_udp ? "udp listeners" : "tcp listeners");
}

// a connection that cannot be made in time fails with the time given, while others go on
static void connect_timeout(Src& s, Ctx& c) {
    utime_t tm = 1000 * s.range(5, 80);
    c.mix(&tm, sizeof tm);
    c.nontrivial = true;
    if (c.want_desc) c.desc << "TCP connect with a full queue, " << tm << " us";
    int full = tcp_bound(1, 0, true);
    CHECK(full >= 0);
    int port = local_port(full);
    std::vector<int> fill;
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    for (int i = 0; i < 6; ++i) { fill.push_back(socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0)); connect(fill.back(), (sockaddr*) &a, sizeof a); }
    auto g = group();
    auto stop = std::make_shared<bool>(false);
    auto ticks = std::make_shared<int>(0);
    g->go([=] { while (!*stop) { st_usleep(1000); ++*ticks; } });
    int before = open_fds();
    g->go([=] {
        double t0 = mono();
        st_usleep(0);
        auto k = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", port, tm);
        double t1 = mono();
        *stop = true;
        if (k) return;                                  // the system took it after all
        CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, "connecting gives up after " << (t1 - t0) * 1e3 << " ms, set " << tm / 1000);
        CHECK_MSG(t1 - t0 < tm * 1e-6 + 20, "connecting gives up after " << t1 - t0 << " s, set " << tm / 1000 << " ms");
        CHECK_MSG(*ticks > 0, "others stand still while one connects");
    });
    try { g->join(60, "connect"); } catch (...) { for (int f : fill) close(f); close(full); throw; }
    CHECK_MSG(open_fds() <= before, "a failed connection leaves a descriptor open");
    for (int f : fill) close(f);
    close(full);
    c.label("connect timeout");
}

static void p25(Src& s, Ctx& c) {
    CHECK_MSG(tcp_port, "listening fails on 200 TCP ports");
    CHECK_MSG(udp_port, "listening fails on 200 UDP ports");
    switch (s.weighted({24, 4, 20, 24, 4, 2, 8, 2, 1})) {
        case 0: tcp_traffic(s, c); break;
        case 1: tcp_timeout(s, c); break;
        case 2: udp(s, c); break;
        case 3: srt(s, c); break;
        case 4: tcp_refused(s, c); break;
        case 5: udp_address(s, c); break;
        case 6: listeners(s, c); break;
        case 7: connect_timeout(s, c); break;
        default: udp_queue(s, c);
    }
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P25";
    a.rule = "a third TCP over loopback (write and read size sequences in both directions, writers that block, orderly close, exact reads past the end, localhost by name), TCP timeouts of 5 to 60 ms, a quarter UDP server with up to four clients (sends, session reads, replies, closes, small buffers, timeouts), UDP sessions left unread for up to 1500 datagrams or carrying more than 4000, clients on neighbouring ports, a third SRT endpoints over scripted messages, refused connections, connections that time out, exhausted descriptors, and listeners coming and going on one port; non-trivial: traffic or a timeout took place; distinct by data and plan";
    a.body = p25; a.setup = setup; a.quick_cases = 12000; a.thorough_cases = 400000; a.cpu_clock = false; a.case_timeout = 130;
    return pbt::run_main(argc, argv, {a});
}
