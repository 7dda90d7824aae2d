// PROPERTIES: P40
// TECHNIQUE P40: stateful property-based testing: connections of the project's own SRT client to its own SRT server over loopback, with generated traffic in both directions at once, idle times, timeouts, stalled readers, departures and refusals, against the bytes written and the time measured
#include <arpa/inet.h>
#include <netinet/in.h>
#include <srtcore/srt.h>
#include <sys/socket.h>

#include <list>

#include <sps_io_socket.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_srt.hpp>

#include "stnet.hpp"

using namespace sps;
using namespace stn;

static const double kWait = 20;          // seconds until something that has to happen is given up
static PIServerSocket srv;
static int srv_port, dead_fd = -1, dead_port;
static std::string setup_err;
static std::list<PSocket> arrived;
static st_cond_t arrived_cv;

static int udp_bound(int port) {
    int s = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port);
    if (bind(s, (sockaddr*) &a, sizeof a)) { close(s); return -1; }
    return s;
}
static void* accept_loop(void*) {
    while (true) {
        auto k = srv->accept();
        if (k) arrived.push_back(k);
        st_cond_broadcast(arrived_cv);
        if (!k) st_usleep(10000);
    }
    return nullptr;
}
static void setup() {
    quiet_log();
    int lock = -1;
    for (int i = 0; i < 400 && !srv_port; ++i) {
        int b = 24000 + ((getpid() + i * 41) % 2000) * 2;
        lock = udp_bound(b);                     // stays taken as a lock; nobody answers there
        if (lock < 0) continue;
        int k = udp_bound(b + 1);
        if (k < 0) { close(lock); continue; }
        close(k);
        srv_port = b + 1;
        dead_fd = lock; dead_port = b;
    }
    if (!srv_port) { fprintf(stderr, "no free port\n"); _exit(3); }
    srt_startup();
    srt_setloglevel(0);
    if (ICoFactory::get_instance().init() != SUCCESS) setup_err = "no coroutines";
    arrived_cv = st_cond_new();
    srv = SingleInstance<ServerSocketFactory>::get_instance().create_ss(Transport::SRT);
    if (!srv) { setup_err = "no SRT server socket"; return; }
    error_t e = srv->listen("127.0.0.1", srv_port, false, 64);
    if (e != SUCCESS) { setup_err = "listening on a free port fails with " + std::to_string(e); return; }
    st_thread_create(accept_loop, nullptr, 0, 1 << 18);
}

struct Conn { PSocket c, s; };
static Conn link(const std::string& host) {
    Conn k;
    k.c = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::SRT, host, srv_port, 10 * 1000 * 1000);
    CHECK_MSG(k.c, "connecting to a listening SRT server fails");
    auto io = std::dynamic_pointer_cast<StSrtSocket>(k.c->get_io());
    CHECK_MSG(io, "the client is no SRT socket");
    sockaddr_in a{};
    int l = sizeof a;
    srt_getsockname(io->get_fd(), (sockaddr*) &a, &l);
    int port = ntohs(a.sin_port);
    double end = mono() + kWait;
    while (true) {
        for (auto it = arrived.begin(); it != arrived.end(); ++it)
            if ((*it)->get_peer_port() == port) { k.s = *it; arrived.erase(it); break; }
        if (k.s) break;
        std::string have;
        for (auto& x : arrived) have += " " + x->get_peer_ip() + ":" + std::to_string(x->get_peer_port());
        CHECK_MSG(mono() < end, "the connection from port " << port << " is not accepted; there are" << have);
        st_cond_timedwait(arrived_cv, 100000);
    }
    CHECK_MSG(k.s->get_peer_ip() == "127.0.0.1", "the peer is reported as " << k.s->get_peer_ip());
    CHECK_MSG(k.c->get_peer_port() == srv_port, "the client reports port " << k.c->get_peer_port());
    k.c->set_recv_timeout((utime_t) (kWait * 1e6)); k.s->set_recv_timeout((utime_t) (kWait * 1e6));
    k.c->set_send_timeout((utime_t) (kWait * 1e6)); k.s->set_send_timeout((utime_t) (kWait * 1e6));
    // libsrt loses what the server sends while the handshake ends, so the client speaks first
    Bytes hi = "hello";
    Heap h(hi), o(Bytes(5, 0));
    error_t e = k.c->write(h.p, h.n);
    CHECK_MSG(e == SUCCESS, "the first write fails with " << e);
    e = k.s->read_fully(o.p, o.n, nullptr);
    CHECK_MSG(e == SUCCESS && memcmp(o.p, hi.data(), 5) == 0, "the first bytes do not arrive: " << e);
    return k;
}
static bool timed_out(error_t e) { return e == ERROR_SRT_SOCKET_TIMEOUT || e == ERROR_SOCKET_TIMEOUT; }

struct Step { int kind; Dir up, down; int wait, side; size_t over; };
struct Line { std::vector<Step> steps; bool raw_c, raw_s; int end; };

static void run_step(const Conn& k, const Line& l, const Step& st, const std::string& who) {
    PIReaderWriter cl = l.raw_c ? k.c->get_io() : k.c, sv = l.raw_s ? k.s->get_io() : k.s;
    PIReaderWriter a = st.side ? sv : cl, b = st.side ? cl : sv;
    if (st.kind == 0) {                            // both directions at once
        auto g = group();
        Bytes eu = st.up.all(), ed = st.down.all();
        g->go([=] { do_writes(cl, st.up, 0, st.up.writes.size(), who + "client"); });
        g->go([=] { do_writes(sv, st.down, 0, st.down.writes.size(), who + "server"); });
        g->go([=] { size_t at = 0, op = 0; do_reads(cl, st.down, ed, at, ed.size(), op, false, who + "client"); });
        g->go([=] { if (st.wait) st_usleep(st.wait * 1000); size_t at = 0, op = 0; do_reads(sv, st.up, eu, at, eu.size(), op, false, who + "server"); });
        g->join(60, who + "SRT traffic");
    } else if (st.kind == 1) {                     // in turn
        do_writes(a, st.up, 0, st.up.writes.size(), who + "first");
        Bytes e = st.up.all();
        size_t at = 0, op = 0;
        do_reads(b, st.up, e, at, e.size(), op, false, who + "second");
    } else if (st.kind == 2) {                     // nothing to read
        utime_t tm = 1000 * (utime_t) st.wait;
        utime_t was = a->get_recv_timeout();
        a->set_recv_timeout(tm);
        CHECK_EQ(a->get_recv_timeout(), tm);
        Heap h(Bytes(st.over, 0));
        double t0 = mono();
        st_usleep(0);
        error_t e;
        if (st.up.reads[0].full) e = a->read_fully(h.p, h.n, nullptr);
        else { size_t n = 0; e = a->read(h.p, h.n, n); }
        double t1 = mono();
        CHECK_MSG(timed_out(e), who << "a read with nothing to read returns " << e << " after " << (t1 - t0) * 1e3 << " ms");
        CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, who << "a read times out after " << (t1 - t0) * 1e3 << " ms, set " << st.wait);
        a->set_recv_timeout(was);
    } else {                                       // the reader comes first
        auto g = group();
        Bytes e = st.up.all();
        g->go([=] { size_t at = 0, op = 0; do_reads(b, st.up, e, at, e.size(), op, false, who + "second"); });
        g->go([=] { st_usleep(st.wait * 1000); do_writes(a, st.up, 0, st.up.writes.size(), who + "first"); });
        g->join(60, who + "SRT traffic");
    }
}
static void run_line(const Line& l, const std::string& who, const std::string& host) {
    Conn k = link(host);
    for (auto& st : l.steps) run_step(k, l, st, who);
    PSocket& gone = l.end == 1 ? k.c : k.s;
    PSocket& left = l.end == 1 ? k.s : k.c;
    if (l.end == 0) return;
    if (l.end == 3) {                              // the peer stops reading: a write that cannot proceed times out
        utime_t tm = 150000;
        k.c->set_send_timeout(tm);
        Heap big(Bytes(1 << 20, 'x'));
        error_t e;
        int n = 0;
        double t0, t1;
        do { t0 = mono(); st_usleep(0); e = k.c->write(big.p, big.n); t1 = mono(); } while (e == SUCCESS && ++n < 200);
        CHECK_MSG(timed_out(e), who << "writing to a peer that does not read returns " << e << " after " << n << " MB");
        CHECK_MSG(t1 - t0 >= tm * 1e-6 - 0.002, who << "a write times out after " << (t1 - t0) * 1e3 << " ms, set 150");
        return;
    }
    auto g = group();
    auto end = std::make_shared<PSocket>(gone);
    gone = nullptr;
    PSocket rest = left;
    g->go([=] {                                    // somebody is waiting for data
        Heap h(Bytes(2000, 0));
        size_t n = 0;
        error_t e = rest->read(h.p, h.n, n);
        CHECK_MSG(e != SUCCESS, who << "reads " << n << " bytes nobody sent after the peer left");
        CHECK_MSG(!timed_out(e), who << "the departure of the peer goes unnoticed for " << kWait << " s");
        e = rest->read(h.p, h.n, n);
        CHECK_MSG(e != SUCCESS, who << "reads on after the end of the connection");
        e = rest->write(h.p, 100);
        CHECK_MSG(e != SUCCESS, who << "writes after the end of the connection");
    });
    g->go([=] { st_usleep(l.steps.size() % 2 ? 20000 : 1); *end = nullptr; });
    g->join(60, who + "SRT close");
}

static void p40(Src& s, Ctx& c) {
    CHECK_MSG(setup_err.empty(), setup_err);
    size_t n = 1 + (s.chance(1, 2) ? s.draw(2) : 0);
    std::vector<Line> lines(n);
    static const char* kinds[] = {"duplex", "turn", "idle", "late"};
    for (auto& l : lines) {
        l.raw_c = s.boolean(); l.raw_s = s.boolean();
        do {
            Step st;
            st.kind = (int) s.weighted({4, 3, 2, 2});
            st.up = gen_dir(s, false); st.down = gen_dir(s, true);
            if (st.kind == 0 && s.chance(1, 25)) { st.up.writes.push_back(s.blob(s.range(300000, 1500000))); c.label("large"); }
            st.wait = s.chance(1, 3) ? 0 : (int) s.range(1, 40);
            if (st.kind == 2) st.wait = (int) s.range(5, 60);
            st.side = (int) s.draw(1);
            st.over = s.chance(1, 2) ? s.skew(1, 1500) : s.range(1316, 5000);
            c.label(kinds[st.kind]);
            if (c.want_desc) c.desc << kinds[st.kind] << st.side << " wait " << st.wait << " up: " << show(st.up) << " down: " << show(st.down) << "; ";
            for (auto& w : st.up.writes) c.mix(w);
            for (auto& w : st.down.writes) c.mix(w);
            for (auto& r : st.up.reads) c.mix(&r, sizeof r);
            c.mix(&st.kind, 4); c.mix(&st.wait, 4);
            l.steps.push_back(st);
        } while (s.more(2) && l.steps.size() < 6);
        l.end = (int) s.weighted({3, 3, 3, 1});
        c.mix(&l.end, 4);
        if (c.want_desc) c.desc << "end " << l.end << " | ";
        c.label("end-" + std::to_string(l.end));
    }
    int refused = s.chance(1, 6) ? (int) s.range(20, 200) : 0;
    bool name = s.chance(1, 10);
    c.mix(&refused, 4);
    if (c.want_desc && refused) c.desc << "refused after " << refused;
    c.nontrivial = true;
    auto g = group();
    auto ticks = std::make_shared<int>(0);
    auto stop = std::make_shared<bool>(false);
    int id = 0;
    for (auto& l : lines) { std::string who = n > 1 ? "connection " + std::to_string(++id) + ": " : ""; g->go([=] { run_line(l, who, name ? "localhost" : "127.0.0.1"); }); }
    if (refused) {
        c.label("nobody-listens");
        g->go([=] {
            double t0 = mono();
            st_usleep(0);
            auto k = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::SRT, "127.0.0.1", dead_port, 1000 * (utime_t) refused);
            double t1 = mono();
            CHECK_MSG(!k, "a connection to a port nobody listens on is made");
            CHECK_MSG(t1 - t0 >= refused * 1e-3 - 0.002, "connecting gives up after " << (t1 - t0) * 1e3 << " ms, set " << refused);
            CHECK_MSG(t1 - t0 < kWait, "connecting gives up after " << t1 - t0 << " s, set " << refused << " ms");
        });
    }
    auto watch = group();
    watch->go([=] { while (!*stop) { st_usleep(1000); ++*ticks; } });
    double t0 = mono();
    try { g->join(120, "SRT endpoints"); } catch (...) { *stop = true; throw; }
    *stop = true;
    watch->join(10, "watch");
    CHECK_MSG(*ticks > 0 || mono() - t0 < 0.01, "other coroutines stand still");
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P40";
    a.rule = "one to three connections at once from the SRT client to the SRT server of the project, each with up to six rounds of traffic (both ways at once, in turn, reader first, 1 byte to 1.5 MB per write, any read sizes, exact reads) and idle reads that time out after 5 to 60 ms, ending by either side or by a writer whose peer does not read, and connections to where nobody listens; non-trivial: every case has traffic or a timeout; distinct by data and plan";
    a.body = p40; a.setup = setup; a.quick_cases = 1200; a.thorough_cases = 30000; a.cpu_clock = false; a.case_timeout = 150;
    a.assumptions = {"the SRT library is the installed libsrt over the loopback network; what is in flight when a side disconnects is not required"};
    return pbt::run_main(argc, argv, {a});
}
