// PROPERTIES: P33
// TECHNIQUE P33: stateful property-based testing: generated histories of SRT and HTTP publishers, players, transport packets and endings on the real stream handlers, against a reference model of the relay, of the name's owner and of the FLV view
#include "live_model.hpp"
#include "ts_model.hpp"

#include <sps_avformat_tsdec.hpp>
#include <sps_srt_server.hpp>
#include <sps_srt_stream_handler.hpp>

namespace sps { PRequestUrl get_url_by_streamid(const std::string& streamid); }

// what precedes routing on a real SRT connection, except that the identifier does not come from the library
struct StreamId : public IPhaseHandler {
    std::string id;
    StreamId() : IPhaseHandler("id") {}
    error_t handler(IConnection& c) override {
        auto req = get_url_by_streamid(id);
        if (!req) return ERROR_SRT_STREAM_ID;
        c.set_context(std::make_shared<SrtContext>(req));
        return SUCCESS;
    }
};
struct SHost { const char* pattern; const char* name; };
static const std::vector<SHost> kSHosts = {{"s.test", "s.test"}, {"*.w.test", "a.w.test"}, {nullptr, "b.w.test"}};
static std::shared_ptr<HostModulesRouter> router;
static void setup() {
    live_setup();
    router = std::make_shared<HostModulesRouter>();
    for (auto& h : kSHosts) if (h.pattern && router->register_host(mkhost(h.pattern, "type stream;\nrole source;\npub_avformat all;\nedge_avformat all;\n")) != SUCCESS) _exit(3);
    make_server(router);
}
static Conn open_srt(PGroup bg, const std::string& id, const Frag& rf, const Frag& wf, size_t cap) {
    Conn c;
    c.from->cap = cap;
    auto sio = std::make_shared<LiveIO>(c.to, c.from, rf, wf);
    auto ended = c.ended;
    bg->go([=]() mutable {
        auto srv = std::make_shared<SrtServer>();
        auto sid = std::make_shared<StreamId>();
        sid->id = id;
        srv->reg(sid);
        srv->reg(std::make_shared<HostRouterPhaseHandler>(router, std::make_shared<SrtServerStreamHandler>(), nullptr));
        auto conn = srv->create(std::make_shared<Socket>(sio, "10.0.0.1", 999));
        sio = nullptr;
        conn->handler();
        conn = nullptr;
        *ended = true;
        ++::activity;
    });
    return c;
}

struct SPub {
    int id;
    std::string key;
    bool srt;
    Conn conn;
    // SRT
    TsStream ts;
    std::vector<Bytes> rec;              // packets the relay has to carry
    std::vector<int> kind;               // 0 table of programs, 1 program map, 2 unit start, 3 other
    std::vector<size_t> rec_at, mp_at;   // after n transport packets
    std::vector<MPkt> pkts;
    std::set<int> pids;
    // HTTP
    uint32_t prev = 0;
    std::vector<size_t> ends;
    Bytes pay;
    size_t sent = 0, bad = SIZE_MAX;     // the transport packet that is damaged
    bool over = false;
    size_t whole() const { return std::min(sent / 188, bad); }
    size_t npkts() const { if (srt) return mp_at[whole()]; size_t k = 0; while (k < ends.size() && ends[k] <= sent) ++k; return k; }
    size_t nrec() const { return srt ? rec_at[whole()] : 0; }
    size_t p0 = 0, r0 = 0;
    bool done() const { return over || (bad != SIZE_MAX && sent / 188 > bad); }
};
typedef std::shared_ptr<SPub> PSPub;
struct SView {
    int id;
    bool srt;
    std::string key;
    Conn conn;
    PSPub p;
    std::vector<size_t> joins;
    Bytes in;
    bool stalled = false, gone = false, over = false, may_end = false, moved = false;
    double idle = 0;
    size_t last = 0;
};
typedef std::shared_ptr<SView> PSView;

static Bytes relay_bytes(const SPub& p, size_t j, size_t n) {
    const Bytes *pat = nullptr, *pmt = nullptr;
    std::vector<const Bytes*> cur;
    for (size_t i = 0; i < j; ++i) {
        if (p.kind[i] == 0) pat = &p.rec[i];
        else if (p.kind[i] == 1) pmt = &p.rec[i];
        else { if (p.kind[i] == 2) cur.clear(); cur.push_back(&p.rec[i]); }
    }
    Bytes o;
    if (pat) o += *pat;
    if (pmt) o += *pmt;
    for (auto x : cur) o += *x;
    for (size_t i = j; i < n; ++i) o += p.rec[i];
    return o;
}
static std::string show_ts(const Bytes& b) {
    std::ostringstream o;
    o << b.size() / 188 << " packets:";
    for (size_t i = 0, n = 0; i + 188 <= b.size() && n < 60; i += 188, ++n) o << " " << (rd(b, i + 1, 2) & 0x1fff) << (b[i + 1] & 0x40 ? "*" : "") << "/" << (b[i + 3] & 15);
    if (b.size() % 188) o << " and " << b.size() % 188 << " bytes";
    return o.str();
}

static void p33(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "/s" + std::to_string(++cases) + "-";
    auto bg = group();
    std::vector<PSPub> pubs;
    std::vector<PSView> views;
    std::map<std::string, PSPub> owner;
    int rejected = 0, reused = 0, late = 0, relayed = 0, converted = 0, cross = 0;
    double batch_time = 0;
    std::map<std::string, int> used;
    auto names = name_family(s);
    auto path_of = [&](int n) { return tok + names[(size_t) n]; };
    auto key_of = [&](int h, int n) { return kSHosts[(size_t) h].name + path_of(n); };

    auto prepare = [&](SPub& p) {
        p.ts = gen_ts(s, s.chance(1, 8) ? 20 : 6, true);
        p.pay = ts_bytes(p.ts);
        c.mix(p.pay);
        // the frames, by a demuxer of its own (which P18 checks) and confirmed here
        TsDemuxer d(nullptr);
        std::list<PAVPacket> got;
        p.rec_at.push_back(0); p.mp_at.push_back(0);
        p.pids = {0};
        for (auto& k : p.ts.pkts) {
            Heap h(k.b);
            CHECK_MSG(d.decode_packet(h.p, h.n) == SUCCESS, "a valid transport packet is refused");
            PAVPacket x;
            while (d.pop(x)) {
                got.push_back(x);
                MPkt m;
                m.type = x->stream_type == AV_STREAM_TYPE_AUDIO ? 8 : 9;
                m.dts = (uint32_t) x->dts; m.cts = m.type == 9 ? (int32_t) (x->pts - x->dts) : 0;
                m.flags = (uint8_t) x->flags; m.ptype = (uint8_t) x->pkt_type.pkt_type;
                m.data = Bytes((const char*) x->buffer(), (size_t) x->size());
                p.pkts.push_back(m);
            }
            if (k.pid == 0) p.pids.insert(p.ts.pmt);
            bool known = p.pids.count(k.pid);
            if (k.pid == p.ts.pmt && k.pmt_done) p.pids.insert(p.ts.vpid), p.pids.insert(p.ts.apid);
            if (known && k.payload) {
                p.rec.push_back(k.b);
                p.kind.push_back(k.pid == 0 ? 0 : k.pid == p.ts.pmt ? 1 : k.start ? 2 : 3);
            }
            p.rec_at.push_back(p.rec.size());
            p.mp_at.push_back(p.pkts.size());
        }
        check_ts(got, p.ts);
    };
    auto stream_id = [&](int h, int n, const char* mode) {
        std::vector<std::string> f;
        f.push_back(std::string("h=") + (s.chance(1, 3) ? "srt://" : "") + kSHosts[(size_t) h].name + path_of(n));
        if (mode) f.push_back(std::string("m=") + mode);
        if (s.chance(1, 4)) f.push_back("u=someone");
        if (f.size() > 1 && s.chance(1, 3)) std::swap(f[0], f[1]);
        std::string o = "#!::";
        for (size_t i = 0; i < f.size(); ++i) o += (i ? "," : "") + f[i];
        return o;
    };
    auto http_req = [&](const std::string& method, int h, int n) {
        return method + " " + path_of(n) + ".flv HTTP/1.1\r\nHost: " + kSHosts[(size_t) h].name + "\r\n\r\n";
    };
    auto send = [&](SPub& p, size_t to) {
        if (to <= p.sent) return;
        p.conn.send(p.pay.substr(p.sent, to - p.sent));
        p.sent = to;
    };
    auto pick_pub = [&]() -> PSPub {
        std::vector<PSPub> o;
        for (auto& k : owner) if (!k.second->done()) o.push_back(k.second);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto pick_view = [&]() -> PSView {
        std::vector<PSView> o;
        for (auto& v : views) if (!v->gone && !v->over && v->p) o.push_back(v);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto feed = [&](size_t most) {
        PSPub p = pick_pub();
        if (!p) return;
        if (p->srt) {
            size_t to = std::min(p->pay.size(), p->sent + (s.chance(1, 4) ? (size_t) s.range(1, 400) : 188 * (size_t) s.skew(1, (int64_t) most)));
            if (c.want_desc) c.desc << "ts#" << p->id << " to " << to << " ";
            send(*p, to);
        } else {
            size_t k = (size_t) s.range(1, 4);
            for (size_t i = 0; i < k; ++i) { MPkt m = gen_mpkt(s, 60); p->pkts.push_back(m); flv_tag(p->pay, m, p->prev); p->ends.push_back(p->pay.size()); }
            if (c.want_desc) c.desc << "flv#" << p->id << " ";
            send(*p, p->pay.size());
        }
    };
    auto filtered = [&](SView& v) {      // without what the relay need not carry
        Bytes o;
        size_t i = 0;
        for (; i + 188 <= v.in.size(); i += 188) {
            bool payload = v.in[i + 3] & 0x10;
            if (payload && v.p->pids.count((int) rd(v.in, i + 1, 2) & 0x1fff)) o += v.in.substr(i, 188);
        }
        return o + v.in.substr(i);
    };
    auto check_view = [&](SView& v) {
        std::string who = std::string(v.srt ? "SRT" : "HTTP") + " viewer #" + std::to_string(v.id) + " of " + v.key + ": ";
        v.in += v.conn.from->buf.substr(v.conn.from->off);
        v.conn.from->buf.clear(); v.conn.from->off = 0;
        st_cond_broadcast(v.conn.from->cv);
        Bytes b;
        if (v.srt) b = filtered(v);
        else {
            Rsp r = parse_response(v.in, 0);
            if (v.stalled && !r.err.empty()) return;
            CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response: " << r.err << " " << pbt::quote(v.in, 100));
            b = r.body;
            if (b.size() < 9) { CHECK_MSG(v.stalled, who << "no FLV header"); return; }
            b.erase(0, 9);
        }
        std::vector<size_t> left;
        Bytes want;
        for (size_t j : v.joins) {
            want = v.srt ? relay_bytes(*v.p, j, v.p->nrec()) : live_bytes(v.p->pkts, j, v.p->npkts());
            if (v.stalled ? want.compare(0, b.size(), b) == 0 : want == b) left.push_back(j);
        }
        CHECK_MSG(!left.empty(), who << "got " << (v.srt ? show_ts(b) : show_tags(b)) << " expected " << (v.srt ? show_ts(want) : show_tags(want)));
        v.joins = left;
        if (b.size() != v.last) { v.idle = batch_time; ++(v.srt ? relayed : converted); }
        v.last = b.size();
    };
    std::vector<PSView> fresh;
    auto join = [&]() {
        auto v = std::make_shared<SView>();
        v->id = (int) views.size();
        int h = s.chance(1, 4) ? (int) s.draw(kSHosts.size() - 1) : 0, n = s.chance(1, 4) ? 1 : 0;
        v->srt = s.chance(3, 5);
        v->key = key_of(h, n);
        v->stalled = s.chance(1, 10);
        size_t cap = v->stalled ? (size_t) s.skew(1, 1000) : 0;
        if (c.want_desc) c.desc << (v->srt ? "srt-join#" : "http-join#") << v->id << " " << v->key << (v->stalled ? " stalled " : " ");
        c.mix(v->key.substr(tok.size())); c.mix(&v->srt, sizeof v->srt);
        Frag rf = gen_frag(s, 200), wf = gen_frag(s, 400);
        if (v->srt) v->conn = open_srt(bg, stream_id(h, n, "request"), rf, wf, cap);
        else { v->conn = open_conn(bg, rf, wf, cap); v->conn.send(http_req("GET", h, n)); }
        views.push_back(v);
        fresh.push_back(v);
    };
    auto publish = [&]() {
        auto p = std::make_shared<SPub>();
        p->id = (int) pubs.size();
        int h = s.chance(1, 4) ? (int) s.draw(kSHosts.size() - 1) : 0, n = s.chance(1, 4) ? 1 : 0;
        p->srt = !s.chance(1, 5);
        p->key = key_of(h, n);
        if (c.want_desc) c.desc << (p->srt ? "srt-publish#" : "http-publish#") << p->id << " " << p->key << " ";
        c.mix(p->key.substr(tok.size())); c.mix(&p->srt, sizeof p->srt);
        Frag rf = gen_frag(s, 400);
        if (p->srt) {
            prepare(*p);
            p->conn = open_srt(bg, stream_id(h, n, s.boolean() ? "publish" : nullptr), rf, Frag(), 0);
            if (s.boolean()) send(*p, std::min(p->pay.size(), 188 * (size_t) s.skew(1, 20)));
        } else {
            p->pay = flv_header(5);
            p->conn = open_conn(bg, rf, Frag(), 0);
            p->conn.send(http_req("POST", h, n));
            send(*p, p->pay.size());
        }
        pubs.push_back(p);
        settle();
        auto o = owner.find(p->key);
        if (o != owner.end()) {
            CHECK_MSG(*p->conn.ended, (p->srt ? "SRT" : "HTTP") << " publisher #" << p->id << " of " << p->key << " is accepted while #" << o->second->id << " publishes");
            CHECK_MSG(p->conn.from->size() == 0 || !p->srt, "a rejected SRT publisher is sent something");
            if (o->second->srt != p->srt) ++cross;
            p->over = true;
            ++rejected;
        } else {
            CHECK_MSG(!*p->conn.ended, "the name " << p->key << " is free but its publisher is rejected");
            owner[p->key] = p;
            if (used[p->key]++) ++reused;
        }
    };
    auto finish = [&](SPub& p, int how) {
        if (p.srt && how == 1 && p.sent / 188 + 1 < p.pay.size() / 188) {    // a packet without its sync byte
            p.bad = (p.sent + 187) / 188;
            p.pay[p.bad * 188] = (char) (s.boolean() ? 0x46 : (int) s.draw(0x46));
            send(p, (p.bad + 1) * 188);
            return;
        }
        p.over = true;
        p.conn.close_write();
    };
    auto resolve = [&]() {
        if (bg->failed) pbt::fail(bg->msg);
        for (auto& v : fresh) {
            auto o = owner.find(v->key);
            std::string who = std::string(v->srt ? "SRT" : "HTTP") + " viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            bool there = o != owner.end() && (!v->srt || o->second->srt);
            if (v->gone) continue;
            if (!there) {
                if (v->stalled) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); settle(); }
                CHECK_MSG(*v->conn.ended, who << "no source, but not refused");
                Bytes b = v->conn.from->buf.substr(v->conn.from->off);
                if (v->srt) CHECK_MSG(b.empty(), who << "no source, but sent " << b.size() << " bytes");
                else CHECK_MSG(b.compare(0, 12, "HTTP/1.1 404") == 0, who << "no source, answered with " << pbt::quote(b, 60));
                v->over = true;
                v->conn.close_all();
                continue;
            }
            CHECK_MSG(!*v->conn.ended, who << "refused although the stream is there");
            v->p = o->second;
            for (size_t j = v->srt ? v->p->r0 : v->p->p0; j <= (v->srt ? v->p->nrec() : v->p->npkts()); ++j) { v->joins.push_back(j); if (j) ++late; }
        }
        fresh.clear();
        for (auto it = owner.begin(); it != owner.end();) {
            PSPub p = it->second;
            CHECK_MSG(*p->conn.ended == p->done(), "publisher #" << p->id << " of " << p->key << (p->done() ? " has ended but is still served" : " was disturbed: its connection is closed"));
            if (p->done()) it = owner.erase(it); else ++it;
        }
        for (auto& v : views) {
            if (v->gone || v->over || !v->p) continue;
            std::string who = std::string(v->srt ? "SRT" : "HTTP") + " viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            bool ended = *v->conn.ended;
            if (ended) { CHECK_MSG(v->may_end, who << "its connection is closed"); v->over = true; }
            bool moved = v->srt ? v->p->nrec() != v->p->r0 : v->p->npkts() != v->p->p0;
            if (!ended || !moved) check_view(*v);
        }
        for (auto& p : pubs) if (!p->srt || !p->rec_at.empty()) { p->p0 = p->npkts(); p->r0 = p->nrec(); }
    };
    if (s.chance(4, 5)) publish();
    size_t ops = 0;
    while (s.more(24) && ops++ < 60) {
        size_t k = s.weighted({3, 10, 5, 2, 2, 1, 1});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: publish(); break;
            case 1: feed(30); break;
            case 2: {
                size_t n = s.chance(1, 3) ? (size_t) s.range(2, 3) : 1;
                for (size_t i = 0; i < n; ++i) { join(); if (n > 1 && s.chance(1, 3)) st_usleep(0); if (n > 1 && s.chance(1, 2)) feed(8); }
                break;
            }
            case 3: { PSView v = pick_view(); if (!v) break; if (c.want_desc) c.desc << "leave#" << v->id << " "; v->gone = true; v->conn.close_all(); break; }
            case 4: { PSPub p = pick_pub(); if (!p) break; int how = (int) s.weighted({2, 1}); if (c.want_desc) c.desc << "end#" << p->id << ":" << how << " "; finish(*p, how); break; }
            case 5: { PSView v = pick_view(); if (!v) break; v->stalled = !v->stalled; v->conn.from->cap = v->stalled ? (size_t) s.skew(1, 500) : 0; st_cond_broadcast(v->conn.from->cv); if (c.want_desc) c.desc << (v->stalled ? "stall#" : "resume#") << v->id << " "; break; }
            default: {
                st_utime_t d = (st_utime_t) s.range(1, s.chance(1, 4) ? 12000000 : 6000000);
                if (c.want_desc) c.desc << "time+" << d << " ";
                ahead += d; batch_time += d * 1e-6;
                for (auto& v : views) { v->idle += d * 1e-6; if (v->idle > 9.5) v->may_end = true; }
            }
        }
        settle();
        resolve();
        batch_time = 0;
        if (c.want_desc) c.desc << "| ";
    }
    for (auto& v : views) if (v->stalled && !v->over && !v->gone) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); }
    settle(); resolve();
    for (auto& k : owner) finish(*k.second, 0);
    settle(); resolve();
    for (int i = 0; i < 3; ++i) {
        ahead += 11000000;
        for (auto& v : views) { v->idle = 11; v->may_end = true; }
        settle();
    }
    resolve();
    CHECK_MSG(owner.empty(), "harness: a publisher is left");
    for (auto& v : views) CHECK_MSG(*v->conn.ended || v->over, "viewer #" << v->id << " of " << v->key << " is still connected after its source ended");
    for (auto& p : pubs) p->conn.close_all();
    for (auto& v : views) v->conn.close_all();
    settle();
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    for (auto& u : used) {
        CHECK_MSG(!StreamCache::get_streamcache(u.first), "the name " << u.first << " is still taken");
    }
    c.label_if(rejected > 0, "rejected"); c.label_if(reused > 0, "name-reused"); c.label_if(late > 0, "late-join"); c.label_if(relayed > 0, "relayed"); c.label_if(converted > 0, "converted"); c.label_if(cross > 0, "other-protocol-rejected");
    c.nontrivial = late > 0 && (relayed > 0 || converted > 0);
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P33";
    a.rule = "histories of SRT publishers (generated transport streams in random pieces) and HTTP publishers on three names of hosts and two paths, SRT and HTTP viewers joining, leaving and stalling, clean and damaged endings, passing time; after every step each SRT viewer must have exactly the relayed packets and each HTTP viewer the FLV of the frames; non-trivial: a late viewer got something; distinct by operations and streams";
    a.body = p33; a.setup = setup; a.quick_cases = 15000; a.thorough_cases = 200000; a.cpu_clock = false; a.case_timeout = 60;
    a.assumptions = {"SRT connections are in-memory byte streams (the SRT socket is P25, the identifier P27)", "program tables of one packet each; packets without payload or of other streams than H.264 and AAC need not be relayed", "the server's clock is advanced by the harness"};
    return pbt::run_main(argc, argv, {a});
}
