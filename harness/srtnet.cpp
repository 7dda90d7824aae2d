// PROPERTIES: P38
// TECHNIQUE P38: stateful property-based testing: generated histories of publishers, players, disconnections and stray datagrams by real SRT peers over loopback against a server configured and installed in a process of its own, compared with a reference model of the relay
#include <arpa/inet.h>
#include <netinet/in.h>
#include <signal.h>
#include <srtcore/srt.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>

#include "common.hpp"
#include "stnet.hpp"
#include "ts_model.hpp"

#include <sps_host_global_module.hpp>
#include <sps_host_loc_module.hpp>
#include <sps_io_memory.hpp>
#include <sps_root_module.hpp>
#include <sps_server_module.hpp>
#include <sps_srt_module.hpp>
#include <sps_stream_module.hpp>
#include <sps_sys_co.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_upstream_module.hpp>

using namespace sps;

static const double kWait = 12;          // seconds until something that has to happen is given up
static int port_no;
static pid_t server = -1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int udp_bound(int port) {
    int s = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port);
    if (bind(s, (sockaddr*) &a, sizeof a)) { close(s); return -1; }
    return s;
}
static void serve() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    auto& r = SingleInstance<ModuleFactoryRegister>::get_instance();
#define REG(n) { auto f = std::make_shared<n##ModuleFactory>(); r.reg(f->module, f); }
    REG(Root) REG(Srt) REG(Server) REG(Host) REG(GlobalHost) REG(Location) REG(Stream) REG(UpStream)
    std::string t = "globalhost {\n    host g.test {\n        type stream;\n        role source;\n        pub_avformat all;\n        edge_avformat all;\n    }\n}\n"
        "srt {\n    server s {\n        listen_port " + std::to_string(port_no) + ";\n        transport srt;\n        recv_timeout 60000000;\n        send_timeout 60000000;\n"
        "        host s.test {\n            type stream;\n            role source;\n            pub_avformat all;\n            edge_avformat all;\n        }\n"
        "        host *.w.test {\n            type stream;\n            role source;\n            pub_avformat all;\n            edge_avformat all;\n        }\n    }\n}\n";
    RootModuleFactory f;
    PIModule root = f.create("root", "", nullptr);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) t.data(), (int) t.size());
    if (root->init_conf(rd) != SUCCESS || ICoFactory::get_instance().init() != SUCCESS || root->install() != SUCCESS) _exit(41);
    while (true) st_usleep(1000000);
}
static void setup() {
    quiet_log();
    for (int i = 0; i < 400 && !port_no; ++i) {
        int b = 20000 + ((getpid() + i * 41) % 2000) * 2;
        int lock = udp_bound(b);                 // stays taken as a lock
        if (lock < 0) continue;
        int k = udp_bound(b + 1);
        if (k < 0) { close(lock); continue; }
        close(k);
        port_no = b + 1;
    }
    if (!port_no) { fprintf(stderr, "no free port\n"); _exit(3); }
    server = fork();
    if (server == 0) { serve(); _exit(0); }
    srt_startup();
    srt_setloglevel(0);
}
static void alive() {
    int st = 0;
    if (server < 0 || waitpid(server, &st, WNOHANG) != server) return;
    server = -1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) pbt::fail("the configured SRT server does not start");
    pbt::fail(WIFEXITED(st) ? "the server died with exit status " + std::to_string(WEXITSTATUS(st)) : "the server died of signal " + std::to_string(WTERMSIG(st)));
}

struct Peer {
    SRTSOCKET fd = SRT_INVALID_SOCK;
    ~Peer() { end(); }
    void end() { if (fd != SRT_INVALID_SOCK) srt_close(fd); fd = SRT_INVALID_SOCK; }
    void open(const std::string& id) {
        fd = srt_create_socket();
        SRT_TRANSTYPE t = SRTT_LIVE;
        bool no = false;
        int tm = (int) (kWait * 1000), idle = 60000, short_tm = 20;
        srt_setsockflag(fd, SRTO_TRANSTYPE, &t, sizeof t);
        srt_setsockflag(fd, SRTO_TSBPDMODE, &no, sizeof no);
        srt_setsockflag(fd, SRTO_TLPKTDROP, &no, sizeof no);
        srt_setsockflag(fd, SRTO_CONNTIMEO, &tm, sizeof tm);
        srt_setsockflag(fd, SRTO_PEERIDLETIMEO, &idle, sizeof idle);
        srt_setsockflag(fd, SRTO_RCVTIMEO, &short_tm, sizeof short_tm);
        srt_setsockflag(fd, SRTO_STREAMID, id.data(), (int) id.size());
        sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port_no); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (srt_connect(fd, (sockaddr*) &a, sizeof a) == SRT_ERROR) { alive(); pbt::fail(std::string("the server does not take the connection: ") + srt_getlasterror_str()); }
    }
    bool closed() { SRT_SOCKSTATUS s = srt_getsockstate(fd); return s == SRTS_BROKEN || s == SRTS_CLOSED || s == SRTS_NONEXIST || s == SRTS_CLOSING; }
    bool send(const Bytes& b) { return srt_sendmsg(fd, b.data(), (int) b.size(), -1, 1) == (int) b.size(); }
    // waits up to 20 ms; false: nothing or the connection is over
    bool recv(Bytes& to) {
        char t[1500];
        int n = srt_recvmsg(fd, t, sizeof t);
        if (n <= 0) return false;
        to.append(t, (size_t) n);
        return true;
    }
};
struct Pub {
    Peer peer;
    std::string key, id;
    bool again = false;                  // the name had a publisher before
    std::vector<int> sizes;
    int host = 0, name = 0;
    TsStream ts;
    Bytes pay;
    std::vector<Bytes> rec;
    std::vector<int> kind;
    std::vector<size_t> rec_at;
    std::set<int> pids;
    size_t sent = 0;
    size_t seen = 0;                     // packets known to have passed the relay
    bool confirmed = false;
    size_t nrec() const { return rec_at[sent / 188]; }
};
typedef std::shared_ptr<Pub> PPub;
struct Player { Peer peer; PPub p; std::vector<size_t> joins; Bytes in; bool stalled = false; };
typedef std::shared_ptr<Player> PPlayer;

static Bytes relay_bytes(const Pub& p, size_t j, size_t n) {
    const Bytes *pat = nullptr, *pmt = nullptr;
    std::vector<const Bytes*> cur;
    for (size_t i = 0; i < j; ++i) {
        if (p.kind[i] == 0) pat = &p.rec[i];
        else if (p.kind[i] == 1) pmt = &p.rec[i];
        else { if (p.kind[i] == 2) cur.clear(); cur.push_back(&p.rec[i]); }
    }
    Bytes o;
    if (pat) o += *pat;
    if (pmt) o += *pmt;
    for (auto x : cur) o += *x;
    for (size_t i = j; i < n; ++i) o += p.rec[i];
    return o;
}
static void prepare(Pub& p) {
    p.pay = ts_bytes(p.ts);
    p.rec_at.push_back(0);
    p.pids = {0};
    for (auto& k : p.ts.pkts) {
        if (k.pid == 0) p.pids.insert(p.ts.pmt);
        bool known = p.pids.count(k.pid);
        if (k.pid == p.ts.pmt && k.pmt_done) p.pids.insert(p.ts.vpid), p.pids.insert(p.ts.apid);
        if (known && k.payload) {
            p.rec.push_back(k.b);
            p.kind.push_back(k.pid == 0 ? 0 : k.pid == p.ts.pmt ? 1 : k.start ? 2 : 3);
        }
        p.rec_at.push_back(p.rec.size());
    }
}

static const char* kHosts[] = {"s.test", "g.test", "a.w.test", "b.w.test"};
struct Op { int kind; int a, b, c; std::vector<int> sizes; int form; int stream; Bytes junk; };
struct Plan { std::vector<Op> ops; std::vector<TsStream> streams; };
static uint64_t runs = 0;

struct Run {
    const Plan& plan;
    std::string tok;
    std::map<std::string, PPub> owner;
    std::vector<PPlayer> players;
    std::vector<int> sizes;
    int nudged = 0, relayed = 0, rejected = 0, refused = 0, reused = 0, late = 0;
    std::set<std::string> freed;
    explicit Run(const Plan& p) : plan(p), tok("/n" + std::to_string(getpid()) + "-" + std::to_string(++runs) + "-") {}

    std::string path(int n) { return tok + (n ? "b/x" : "a"); }
    std::string key(int h, int n) { return kHosts[h] + path(n); }
    std::string id(int h, int n, const char* mode, int form) {
        std::vector<std::string> f;
        f.push_back(std::string("h=") + (form & 1 ? "srt://" : "") + key(h, n));
        if (mode) f.push_back(std::string("m=") + mode);
        if (form & 2) f.push_back("u=someone");
        if ((form & 4) && f.size() > 1) std::swap(f[0], f[1]);
        std::string o = "#!::";
        for (size_t i = 0; i < f.size(); ++i) o += (i ? "," : "") + f[i];
        return o;
    }
    Bytes filtered(Player& v) {
        Bytes o;
        size_t i = 0;
        for (; i + 188 <= v.in.size(); i += 188) if ((v.in[i + 3] & 0x10) && v.p->pids.count((int) rd(v.in, i + 1, 2) & 0x1fff)) o += v.in.substr(i, 188);
        return o + v.in.substr(i);
    }
    // reads until the player has everything it has to have
    void complete(Player& v) {
        double end = now() + kWait, next = now() + 0.2;
        while (true) {
            Bytes b = filtered(v);
            size_t n = v.p->nrec();
            std::vector<size_t> left;
            bool whole = false;
            size_t want = 0;
            for (size_t j : v.joins) {
                Bytes w = relay_bytes(*v.p, j, n);
                want = w.size();
                if (w.compare(0, b.size(), b) == 0) { left.push_back(j); whole |= w.size() == b.size(); }
            }
            if (left.empty()) {                            // say which packets of the stream came
                std::string o;
                for (size_t i = 0; i + 188 <= b.size(); i += 188) {
                    o += " ";
                    for (size_t k = 0; k < v.p->rec.size(); ++k) if (v.p->rec[k] == b.substr(i, 188)) o += "/" + std::to_string(k) + "=" + std::to_string(v.p->kind[k]);
                }
                pbt::fail("a player of " + v.p->key + " that joined between packets " + std::to_string(v.joins.front()) + " and " + std::to_string(v.joins.back()) + " got something else than the stream: " + std::to_string(b.size()) + " bytes, packets" + o);
            }
            v.joins = left;
            if (whole && !b.empty()) {
                // repeated packets leave open which one came: only what every explanation needs has passed the relay
                size_t seen = n;
                for (size_t j : left) seen = std::min(seen, n - (relay_bytes(*v.p, j, n).size() - b.size()) / 188);
                v.p->seen = std::max(v.p->seen, seen);
                ++relayed;
                return;
            }
            bool got = v.peer.recv(v.in);
            if (got) continue;
            alive();
            if (now() > next) { nudge(v.p); next = now() + 0.2; }
            CHECK_MSG(!v.peer.closed(), "a player of " << v.p->key << " is disconnected while the stream is live (after " << b.size() << " bytes)");
            CHECK_MSG(now() < end, "a player of " << v.p->key << " got " << b.size() << " of " << want << " bytes in " << kWait << " s");
        }
    }
    // true when the server sends the peer nothing. It disconnects it as well, but when that happens together with
    // the end of the handshake libsrt loses the message, so it is not waited for.
    bool unserved(Peer& p, Bytes& in, double seconds) {
        double end = now() + seconds;
        while (now() < end) {
            if (p.recv(in)) return false;
            if (p.closed()) return in.empty();
            alive();
        }
        return true;
    }
    PPlayer join(PPub p, int form, bool stalled) {
        double end = now() + kWait, one = 0.3;
        int tries = 0;
        while (true) {
            auto v = std::make_shared<Player>();
            v->p = p;
            v->stalled = stalled;
            size_t from = p->seen;
            v->peer.open(id(p->host, p->name, "request", form));
            // the server may get to the player before the publisher, until the stream is known to be there
            double e2 = now() + (p->confirmed ? kWait : one);
            double next = now() + 0.1;
            while (!v->peer.recv(v->in) && now() < e2 && !v->peer.closed()) {
                alive();
                if (now() > next) { nudge(p); next = now() + 0.1; }
            }
            for (size_t j = from; j <= p->nrec(); ++j) v->joins.push_back(j);
            if (!v->in.empty()) { if (p->confirmed) ++late; p->confirmed = true; return v; }
            CHECK_MSG(!p->confirmed, "a player of " << p->key << (v->peer.closed() ? " is turned away" : " gets nothing") << " although the stream is live");
            CHECK_MSG(now() < end, "the publisher of " << p->key << " is connected but its stream does not appear");
            one = std::min(one * 2, 5.0);
            if (p->again && (p->peer.closed() || ++tries % 3 == 0)) { start(p, p->sizes); usleep(50000); }
        }
    }
    void start(PPub p, const std::vector<int>& sizes) {
        p->peer.end();
        p->sent = 0;
        p->sizes = sizes;
        p->peer.open(p->id);
        size_t first = 1;
        while (first < p->rec_at.size() && p->rec_at[first] == 0) ++first;
        feed(p, first, sizes, !p->again);
    }
    // A message the server sends while the peer's handshake is ending gets lost, and libsrt only notices (and repeats
    // it) with the next one. So the publisher goes on while somebody waits: with its stream, then with its tables.
    void nudge(PPub p) {
        if (p->sent == p->pay.size()) {
            size_t i = 0;
            while (p->kind[i] != 0) ++i;
            p->pay += p->rec[i];
            p->rec.push_back(p->rec[i]);
            p->kind.push_back(0);
            p->rec_at.push_back(p->rec.size());
        }
        feed(p, 1, p->sizes, !p->again || p->confirmed);
        ++nudged;
    }
    void feed(PPub p, size_t packets, const std::vector<int>& sizes, bool must = true) {
        size_t to = std::min(p->pay.size(), (p->sent / 188 + packets) * 188), k = 0;
        while (p->sent < to) {
            size_t n = std::min(to - p->sent, (size_t) sizes[std::min(k++, sizes.size() - 1)]);
            if (!p->peer.send(p->pay.substr(p->sent, n)) && must) { alive(); pbt::fail("the publisher of " + p->key + " is disconnected by the server"); }
            p->sent += n;
        }
    }
    void settle(PPub p) { for (auto& v : players) if (v->p == p && !v->stalled) complete(*v); }
    PPub pick(int i) { if (owner.empty()) return nullptr; auto it = owner.begin(); std::advance(it, (size_t) i % owner.size()); return it->second; }

    void go() {
        for (auto& o : plan.ops) {
            alive();
            switch (o.kind) {
                case 0: {                                  // publish
                    auto p = std::make_shared<Pub>();
                    p->host = o.a; p->name = o.b; p->key = key(o.a, o.b);
                    p->ts = plan.streams[(size_t) o.stream];
                    prepare(*p);
                    if (p->rec.empty()) break;
                    auto old = owner.find(p->key);
                    if (old != owner.end() && !old->second->confirmed) { auto v = join(old->second, o.form, false); complete(*v); players.push_back(v); }
                    p->id = id(o.a, o.b, o.c ? "publish" : nullptr, o.form);
                    if (old != owner.end()) {
                        p->again = true;
                        start(p, o.sizes);
                        Bytes in;
                        CHECK_MSG(unserved(p->peer, in, 0.03), "a second publisher of " << p->key << " gets data");
                        ++rejected;
                        settle(old->second);
                        break;
                    }
                    p->again = freed.count(p->key);         // the server may not have noticed the end of the former one yet
                    start(p, o.sizes);
                    owner[p->key] = p;
                    if (p->again) { auto v = join(p, o.form, false); complete(*v); players.push_back(v); ++reused; }
                    break;
                }
                case 1: {                                  // send
                    PPub p = pick(o.a);
                    if (!p) break;
                    feed(p, (size_t) o.b, o.sizes);
                    settle(p);
                    break;
                }
                case 2: {                                  // join
                    PPub p = pick(o.a);
                    if (!p) break;
                    auto v = join(p, o.form, o.c == 0);
                    if (!v->stalled) complete(*v);
                    players.push_back(v);
                    break;
                }
                case 3:                                    // a player leaves
                    if (!players.empty()) players.erase(players.begin() + (long) ((size_t) o.a % players.size()));
                    break;
                case 4: {                                  // a publisher ends
                    PPub p = pick(o.a);
                    if (!p) break;
                    if (!p->confirmed) { auto v = join(p, o.form, false); complete(*v); }
                    settle(p);
                    p->peer.end();
                    owner.erase(p->key);
                    freed.insert(p->key);
                    for (size_t i = players.size(); i-- > 0;) if (players[i]->p == p) players.erase(players.begin() + (long) i);
                    double end = now() + kWait;             // the name is free soon
                    while (true) {
                        Peer q;
                        Bytes in;
                        q.open(id(p->host, p->name, "request", o.form));
                        if (unserved(q, in, 0.05)) break;
                        CHECK_MSG(now() < end, "the publisher of " << p->key << " has ended but players are still served");
                    }
                    break;
                }
                case 5: {                                  // players of nothing, of unknown hosts, and identifiers without a resource
                    Peer q;
                    Bytes in;
                    std::string k = key(o.a, o.b);
                    if (o.c == 0 && owner.count(k)) break;
                    q.open(o.c == 0 ? id(o.a, o.b, "request", o.form) : o.c == 1 ? "#!::h=unknown.org/x,m=request" : o.c == 2 ? "#!::m=request" : o.c == 3 ? std::string("") : "#!::h=unknown.org/x,m=publish");
                    CHECK_MSG(unserved(q, in, 0.03), "a peer that asks for nothing there is (" << (o.c == 0 ? k : std::to_string(o.c)) << ") got " << in.size() << " bytes");
                    ++refused;
                    break;
                }
                case 6: {                                  // stray datagrams
                    int s = socket(AF_INET, SOCK_DGRAM, 0);
                    sockaddr_in a{};
                    a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port_no); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                    for (int i = 0; i <= o.a; ++i) sendto(s, o.junk.data(), o.junk.size(), 0, (sockaddr*) &a, sizeof a);
                    close(s);
                    break;
                }
            }
        }
        for (auto& k : owner) settle(k.second);
    }
};

static void p38(Src& s, Ctx& c) {
    Plan plan;
    size_t ops = 0;
    auto add = [&](int kind) {
        Op o;
        o.kind = kind;
        o.form = (int) s.draw(7);
        o.stream = 0;
        o.sizes = {(int) s.range(1, 7) * 188};
        while (s.more(1) && o.sizes.size() < 6) o.sizes.push_back(s.chance(1, 3) ? (int) s.range(1, 1316) : (int) s.range(1, 7) * 188);
        if (kind == 0) {
            o.a = s.chance(1, 2) ? (int) s.draw(3) : 0; o.b = s.chance(1, 4); o.c = (int) s.draw(1);
            o.stream = (int) plan.streams.size();
            plan.streams.push_back(gen_ts(s, s.chance(1, 8) ? 20 : 5, true));
        } else if (kind == 1) { o.a = (int) s.draw(7); o.b = (int) s.skew(1, 60); o.c = 0; }
        else if (kind == 5) { o.a = (int) s.draw(3); o.b = (int) s.draw(1); o.c = (int) s.weighted({3, 1, 1, 1, 1}); }
        else { o.a = (int) s.draw(7); o.b = 0; o.c = kind == 2 && s.chance(1, 8) ? 0 : 1; }
        if (kind == 6) { o.junk = s.blob(s.draw(100)); if (!o.junk.empty() && s.boolean()) o.junk[0] = (char) 0x80; }
        static const char* names[] = {"publish", "send", "join", "leave", "end", "refused", "junk"};
        if (c.want_desc) c.desc << names[kind] << (kind == 0 ? std::string(" ") + kHosts[o.a] + (o.b ? "/b" : "/a") : kind == 1 ? " #" + std::to_string(o.a) + " " + std::to_string(o.b) + " packets" : "") << " ";
        c.mix(&kind, 4); c.mix(&o.a, 4); c.mix(&o.b, 4); c.mix(&o.c, 4);
        plan.ops.push_back(o);
    };
    add(0);
    while (s.more(9) && ops++ < 30) add((int) s.weighted({3, 6, 6, 1, 2, 1, 1}));
    for (auto& t : plan.streams) { Bytes b = ts_bytes(t); c.mix(b); }
    std::string first;
    for (int attempt = 0; attempt < 2; ++attempt) {
        try {
            Run r(plan);
            r.go();
            c.nontrivial = r.relayed > 0;
            c.label_if(r.rejected, "second-publisher"); c.label_if(r.reused, "name-reused"); c.label_if(r.late, "late-player"); c.label_if(r.refused, "turned-away");
            return;
        } catch (const pbt::Failure& f) {
            if (first.empty()) first = f.msg;
            if (server < 0) break;
        }
    }
    pbt::fail(first);
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P38";
    a.rule = "histories of up to 30 operations by real SRT peers over loopback: publishers of up to eight names on exact, wildcard and global hosts with generated transport streams sent in messages of 1 to 1316 bytes, players joining, stalling and leaving, second publishers, endings, peers asking for nothing there is, stray datagrams; non-trivial: some player got the stream; distinct by operations and streams";
    a.body = p38; a.setup = setup; a.quick_cases = 300; a.thorough_cases = 20000; a.cpu_clock = false; a.case_timeout = 150;
    a.assumptions = {"the SRT library is the installed libsrt; what is still in flight when a publisher disconnects is not required", "a history is reported only when it fails twice in a row, as the network is a real one"};
    return pbt::run_main(argc, argv, {a});
}
