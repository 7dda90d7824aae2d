// PROPERTIES: P41 P42
// RTMPSHIM
// TECHNIQUE P41: stateful property-based testing: generated histories of RTMP and HTTP publishers and players of the same streams against an independent RTMP peer and a reference model of the frames each player must get
// TECHNIQUE P42: fuzzing with structured generators: damaged and hostile RTMP sessions of publishers and players, with memory and crash monitors and a bystander whose stream must stay exact
#include <stdio.h>
#include <librtmp/log.h>
#include "ff_model.hpp"
#include "rtmp_model.hpp"

#include <sps_rtmp_server.hpp>
#include <sps_rtmp_server_handler.hpp>
#include <sps_rtmp_stream_handler.hpp>

using namespace rtmpm;

static std::shared_ptr<HttpServer> rtmp_server;
static void setup() {
    live_setup(false);
    av_log_set_level(AV_LOG_QUIET);
    librtmp_init_once();
    RTMP_LogSetLevel((RTMP_LogLevel) 0);
    encode_pool();
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FFmpegAVInputFormat>());
    SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FFmpegAVOutputFormat>());
    auto router = std::make_shared<HostModulesRouter>();
    if (router->register_host(mkhost("f.test", "type stream;\nrole source;\npub_avformat all;\nedge_avformat all;\n")) != SUCCESS) _exit(3);
    make_server(router);
    rtmp_server = std::make_shared<RtmpServer>();
    rtmp_server->reg(std::make_shared<RtmpPrepareHandler>());
    rtmp_server->reg(std::make_shared<HostRouterPhaseHandler>(router, std::make_shared<RtmpServerStreamHandler>(), SingleInstance<RtmpServer404Handler>::get_instance_share_ptr()));
}

// ---- an RTMP client
struct RPeer {
    Conn conn;
    Writer w; Reader r;
    Bytes hs;
    std::vector<Msg> got;          // not yet looked at
    std::vector<MPkt> tags;        // of a player
    bool begun = false;            // the stream has begun
    double txn = 1;
    Bytes out;                     // made, not yet sent
    std::vector<std::pair<size_t, size_t>> marks;     // bytes of output up to which a frame ends, bytes of the FLV form
    size_t made = 0, gone = 0;     // output made and sent
    size_t flv = 13;               // of the FLV form, already in the output
    std::vector<uint32_t> pings;
    uint32_t acked = 0;
    void take() {
        Bytes b = conn.from->buf.substr(conn.from->off);
        conn.from->buf.clear(); conn.from->off = 0;
        st_cond_broadcast(conn.from->cv);
        if (hs.size() < 3073) { size_t k = std::min(b.size(), 3073 - hs.size()); hs += b.substr(0, k); b.erase(0, k); }
        r.read(b, got);
    }
    void put(const Bytes& b) { out += b; made += b.size(); }
    void put(const Msg& m, int fmt) { for (auto& k : w.chunks(m, fmt)) put(k); }
    void flush(size_t n) { n = std::min(n, out.size()); if (!n) return; conn.send(out.substr(0, n)); gone += n; out.erase(0, n); }
};
typedef std::shared_ptr<RPeer> PPeer;
struct LPub : FPub { PPeer r; };
struct LView : FView { PPeer r; };
typedef std::shared_ptr<LPub> PLPub;
typedef std::shared_ptr<LView> PLView;

static Bytes obj(const std::vector<std::pair<Bytes, Bytes>>& kv) { Bytes b("\x03", 1); for (auto& k : kv) b += name(k.first) + k.second; return b + end(); }
static void cmd(Src& s, RPeer& p, const Bytes& body, uint32_t sid) {
    Msg m; m.type = 20; m.body = body; m.sid = sid; m.csid = s.chance(1, 4) ? s.pick<int>({5, 8, 63, 64, 319, 320}) : 3;
    if (s.chance(1, 8)) { m.type = 17; m.body = Bytes(1, 0) + body; }
    p.put(m, (int) s.draw(3));
}
static void control(RPeer& p, int type, const Bytes& body) { Msg m; m.type = type; m.body = body; m.csid = 2; p.put(m, 0); }
// things a client may say at any time; the server answers pings of publishers
static void aside(Src& s, RPeer& p, bool publisher, bool connected = true) {
    switch (s.draw(6)) {
        case 0: if (connected) { uint32_t t = (uint32_t) s.draw(UINT32_MAX); control(p, 4, be(6, 2) + be(t, 4)); p.pings.push_back(t); break; }
        case 1: if (publisher) { size_t n = s.chance(1, 4) ? (size_t) s.range(1, 127) : (size_t) s.skew(128, 70000); control(p, 1, be(n, 4)); p.w.chunk = n; } break;
        case 2: control(p, 3, be((unsigned) p.made, 4)); break;
        case 3: control(p, 5, be((unsigned) s.range(100000, 5000000), 4)); break;
        case 4: control(p, 4, be(3, 2) + be(1, 4) + be((unsigned) s.draw(9000), 4)); break;
        case 5: cmd(s, p, str("_checkbw") + num(++p.txn) + null(), 0); break;
        default: { Msg m; m.type = 18; m.sid = 1; m.csid = 4; m.body = str("@setDataFrame") + str("onMetaData") + obj({{"server", str("x")}, {"width", num(64)}}); if (publisher && p.begun) p.put(m, (int) s.draw(3)); }
    }
}
static void ready(Src& s, RPeer& p, const std::string& who) {
    size_t n = p.out.size();
    if (s.chance(1, 4)) { p.flush((size_t) s.range(0, (int64_t) n)); settle(); }
    p.flush(n);
    settle();
    p.take();
    CHECK_MSG(p.r.err.empty(), who << p.r.err);
}
// removes what may come at any time
static void plain(RPeer& p, const std::string& who) {
    std::vector<Msg> rest;
    for (auto& m : p.got) {
        if (m.type == 4 && m.body.size() == 6 && rd(m.body, 0, 2) == 7) {
            CHECK_MSG(!p.pings.empty(), who << "an answer to no ping");
            CHECK_MSG(rd(m.body, 2, 4) == p.pings[0], who << "the answer to ping " << p.pings[0] << " is " << rd(m.body, 2, 4));
            p.pings.erase(p.pings.begin());
        } else if (m.type == 3) {
            CHECK_MSG(m.body.size() == 4, who << "acknowledgement of " << m.body.size() << " bytes");
            uint32_t a = (uint32_t) rd(m.body, 0, 4);
            CHECK_MSG(a >= p.acked && a <= p.gone + 3073, who << a << " bytes acknowledged, " << p.gone << " sent, " << p.acked << " acknowledged before");
            p.acked = a;
        } else rest.push_back(m);
    }
    // the library says this when it closes
    if (*p.conn.ended && !rest.empty() && rest.back().type == 20 && amf_all(rest.back().body) == "'deleteStream' 1 null 1 ") rest.pop_back();
    p.got = rest;
}
static std::string show_msgs(const std::vector<Msg>& v) { std::string o; for (auto& m : v) o += m.str() + (m.type == 20 || m.type == 18 ? amf_all(m.body) : pbt::hex(m.body, 8)) + " "; return o.empty() ? "nothing" : o; }
struct Name { std::string host, app, stream; };
static void play_or_publish(Src& s, RPeer& p, const Name& n, bool pub, const std::string& who) {
    p.txn += (double) s.range(1, 3);
    std::string q = s.chance(1, 4) ? "?k=" + std::to_string(s.draw(99)) : "";
    if (!q.empty() && s.chance(1, 3)) q += "&token=" + std::string((size_t) s.range(20, 200), 't');
    if (pub) cmd(s, p, str("publish") + num(p.txn) + null() + str(n.stream + q) + (s.boolean() ? str("live") : Bytes()), 1);
    else cmd(s, p, str("play") + num(p.txn) + null() + str(n.stream + q) + (s.boolean() ? num(-2000) : Bytes()), 1);
}
// up to the reply to publish or play
static PPeer session(Src& s, PGroup bg, const Name& n, bool pub, const std::string& who) {
    auto p = std::make_shared<RPeer>();
    p->conn = open_conn(bg, gen_frag(s, 400), gen_frag(s, 400), 0, rtmp_server);
    Bytes c1 = be((unsigned) s.draw(UINT32_MAX), 4) + be(0, 4) + s.blob(1528);
    p->put(Bytes("\x03", 1) + c1);
    ready(s, *p, who);
    CHECK_MSG(p->hs.size() == 3073 && p->hs[0] == 3, who << "handshake answered with " << p->hs.size() << " bytes " << pbt::hex(p->hs, 4));
    p->put(p->hs.substr(1, 1536));
    while (s.chance(1, 3)) aside(s, *p, pub, false);
    std::vector<std::pair<Bytes, Bytes>> kv = {{"app", str(n.app)}, {"tcUrl", str("rtmp://" + n.host + (s.boolean() ? ":1935" : "") + "/" + n.app)}};
    if (s.boolean()) kv.insert(kv.begin(), {"flashVer", str("LNX 9,0,124,2")});
    if (s.boolean()) kv.push_back({"fpad", Bytes("\x01\x00", 2)});
    if (s.boolean()) kv.push_back({"objectEncoding", num(0)});
    double first = s.chance(1, 6) ? (double) s.range(2, 9) : 1;
    p->txn = first;
    cmd(s, *p, str("connect") + num(first) + obj(kv), 0);
    ready(s, *p, who);
    plain(*p, who);
    std::string what = who + "connect answered with " + show_msgs(p->got);
    CHECK_MSG(!*p->conn.ended, what << " and closed");
    CHECK_MSG(p->got.size() == 4, what);
    CHECK_MSG(p->got[0].type == 5 && p->got[0].body.size() == 4 && rd(p->got[0].body, 0, 4) > 0, what);
    CHECK_MSG(p->got[1].type == 6 && p->got[1].body.size() == 5 && rd(p->got[1].body, 0, 4) > 0, what);
    CHECK_MSG(p->got[2].type == 1 && p->got[2].body.size() == 4 && rd(p->got[2].body, 0, 4) > 0, what);
    {
        std::string a = amf_all(p->got[3].body);
        CHECK_MSG(p->got[3].type == 20 && p->got[3].sid == 0 && a.compare(0, 14, "'_result' " + std::to_string((int) first) + " {f") == 0 && a.find("code='NetConnection.Connect.Success';") != std::string::npos && a.find("level='status';") != std::string::npos && a.find('?') == std::string::npos, what);
    }
    p->got.clear();
    auto call = [&](const std::string& fn, const Bytes& arg, double id) {
        p->txn += (double) s.range(1, 3);
        double t = p->txn;
        cmd(s, *p, str(fn) + num(t) + null() + arg, 0);
        while (s.chance(1, 6)) aside(s, *p, pub);
        ready(s, *p, who);
        plain(*p, who);
        std::ostringstream want; want.precision(17);
        want << "'_result' " << t << " null " << id << " ";
        CHECK_MSG(p->got.size() == 1 && p->got[0].type == 20 && p->got[0].sid == 0 && amf_all(p->got[0].body) == want.str(), who << fn << " " << t << " answered with " << show_msgs(p->got));
        p->got.clear();
    };
    if (pub && s.boolean()) { call("releaseStream", str(n.stream), 0); if (s.boolean()) call("FCPublish", str(n.stream), 0); }
    while (s.chance(1, 6)) aside(s, *p, pub);
    call("createStream", "", 1);
    play_or_publish(s, *p, n, pub, who);
    if (pub && s.boolean()) return p;          // goes on without waiting
    ready(s, *p, who);
    return p;
}
// the reply to publish or play, and what follows it
static void begin(RPeer& p, bool pub, const std::string& who) {
    if (p.begun) return;
    plain(p, who);
    std::string what = who + (pub ? "publish" : "play") + " answered with " + show_msgs(p.got);
    size_t k = pub ? 2 : 3;
    if (p.got.size() < k && p.conn.from->cap) return;
    CHECK_MSG(p.got.size() >= k, what);
    std::string a = amf_all(p.got[0].body);
    CHECK_MSG(p.got[0].type == 20 && a.compare(0, 10, "'onStatus'") == 0 && a.find("level='status';") != std::string::npos && a.find('?') == std::string::npos, what);
    CHECK_MSG(a.find(pub ? "code='NetStream.Publish.Start';" : "code='NetStream.Play.Start';") != std::string::npos, what);
    if (!pub) CHECK_MSG(p.got[1].type == 18 && amf_all(p.got[1].body) == "'|RtmpSampleAccess' true true ", what);
    CHECK_MSG(p.got[k - 1].type == 4 && p.got[k - 1].body == be(0, 2) + be(1, 4), what);
    p.got.erase(p.got.begin(), p.got.begin() + (long) k);
    p.begun = true;
}

static void p41(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "r" + std::to_string(++cases);
    auto bg = group();
    std::vector<PLPub> pubs;
    std::vector<PLView> views, fresh;
    std::map<std::string, PLPub> owner;
    double batch_time = 0;
    int late = 0, rejected = 0, again = 0, refused = 0, pongs = 0, cross = 0, rr = 0;
    auto names = name_family(s);
    auto path_of = [&](int n) { return "/" + tok + "/" + names[(size_t) n]; };
    auto key_of = [&](int n) { return "f.test" + path_of(n); };
    auto name_of = [&](int n) { Name m; m.host = "f.test"; m.app = tok; m.stream = names[(size_t) n]; size_t sl = m.stream.rfind('/'); if (sl != std::string::npos && s.boolean()) { m.app += "/" + m.stream.substr(0, sl); m.stream = m.stream.substr(sl + 1); } return m; };
    auto msg_of = [&](const LPub& p, size_t o) {
        Msg m; size_t n = rd(p.pay, o + 1, 3);
        m.type = p.pay[o]; m.ts = (uint32_t) (rd(p.pay, o + 4, 3) | rd(p.pay, o + 7, 1) << 24); m.sid = 1; m.csid = m.type == 9 ? 6 : 4;
        m.body = p.pay.substr(o + 11, n);
        return m;
    };
    auto send = [&](LPub& p, size_t to) {
        if (!p.r) {
            if (to <= p.sent) return;
            p.conn.send(p.pay.substr(p.sent, to - p.sent));
            p.sent = to;
            return;
        }
        RPeer& r = *p.r;
        size_t more = to < p.pay.size() ? (size_t) s.draw(r.w.chunk) : 0;          // of the next one
        auto step = [&](size_t o) { return o + 15 + rd(p.pay, o + 1, 3); };
        while (r.flv < p.pay.size()) {
            size_t a = r.flv, b = step(a);
            bool last = b > to;
            if (last && !more) break;
            if (s.chance(1, 12)) aside(s, r, true);
            Msg m = msg_of(p, a);
            auto ka = r.w.chunks(m, (int) s.draw(3));
            if (!last && b < p.pay.size() && ka.size() > 1 && s.chance(1, 2)) {
                Msg n = msg_of(p, b);
                if (n.csid != m.csid) {       // chunks of two messages, the first of which ends first
                    auto kb = r.w.chunks(n, (int) s.draw(3));
                    size_t j = 0;
                    for (size_t i = 0; i < ka.size(); ++i) { r.put(ka[i]); while (i + 1 < ka.size() && j + 1 < kb.size() && s.boolean()) r.put(kb[j++]); }
                    r.marks.push_back({r.made, b});
                    while (j < kb.size()) r.put(kb[j++]);
                    r.flv = step(b);
                    r.marks.push_back({r.made, r.flv});
                    if (c.want_desc) c.desc << "mixed ";
                    continue;
                }
            }
            for (auto& k : ka) r.put(k);
            r.flv = b;
            r.marks.push_back({r.made, b});
            if (last) break;
        }
        size_t all = r.out.size();
        if (to < p.pay.size() && all) {
            size_t at = r.gone;
            for (auto& k : r.marks) if (k.second <= to) at = std::max(at, k.first);
            all = std::min(all, at - r.gone + more);
        }
        r.flush(all);
        for (auto& k : r.marks) if (k.first <= r.gone) p.sent = std::max(p.sent, k.second);
    };
    auto pick_pub = [&]() -> PLPub { std::vector<PLPub> o; for (auto& k : owner) if (!k.second->over) o.push_back(k.second); return o.empty() ? nullptr : s.pick(o); };
    auto pick_view = [&]() -> PLView { std::vector<PLView> o; for (auto& v : views) if (!v->gone && !v->over && v->p) o.push_back(v); return o.empty() ? nullptr : s.pick(o); };
    auto hear = [&](LPub& p) {                // what the server says to a publisher
        if (!p.r) return;
        std::string who = "publisher #" + std::to_string(p.id) + " of " + p.key + ": ";
        p.r->take();
        CHECK_MSG(p.r->r.err.empty(), who << p.r->r.err);
        begin(*p.r, true, who);
        size_t n = p.r->pings.size();
        plain(*p.r, who);
        pongs += (int) (n - p.r->pings.size());
        CHECK_MSG(p.r->got.empty(), who << "told " << show_msgs(p.r->got));
        CHECK_MSG(p.r->pings.empty() || *p.r->conn.ended || !p.r->out.empty() || p.over, who << "no answer to " << p.r->pings.size() << " pings");
    };
    auto publish = [&]() {
        auto p = std::make_shared<LPub>();
        p->id = (int) pubs.size();
        int n = s.chance(1, 4) ? 1 : 0;
        bool rtmp = s.chance(2, 3);
        p->key = key_of(n);
        p->kind = (int) s.weighted({0, 1, 1, 4});
        std::string who = "publisher #" + std::to_string(p->id) + " of " + p->key + ": ";
        if (c.want_desc) c.desc << (rtmp ? "rtmp-" : "") << "publish#" << p->id << " " << p->key << " kind " << p->kind << " ";
        c.mix(&p->kind, sizeof p->kind);
        if (rtmp) {
            p->r = session(s, bg, name_of(n), true, who);
            p->conn = p->r->conn;
        } else {
            p->conn = open_conn(bg, gen_frag(s, 400), Frag(), 0);
            p->conn.send("POST " + path_of(n) + ".flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        }
        p->start(s);
        for (int i = 0; i < 40; ++i) p->frame(s, true, c);
        size_t cut = (size_t) s.range(1, (int64_t) p->pay.size());
        send(*p, cut);
        settle();
        auto o = owner.find(p->key);
        if (o != owner.end()) {
            send(*p, p->pay.size());
            settle();
            while (!*p->conn.ended && p->made < 600) {
                for (int i = 0; i < 10; ++i) p->frame(s, true, c);
                send(*p, p->pay.size());
                settle();
            }
            CHECK_MSG(*p->conn.ended, "publisher #" << p->id << " of " << p->key << " is accepted while #" << o->second->id << " publishes");
            ++rejected;
            pubs.push_back(p);
            p->over = true;
            p->conn.close_all();
            return;
        }
        CHECK_MSG(!*p->conn.ended, "the name " << p->key << " is free but its publisher is rejected");
        send(*p, p->pay.size());
        settle();
        while (!StreamCache::get_streamcache(p->key) && !*p->conn.ended && p->made < 600) {
            for (int i = 0; i < 10; ++i) p->frame(s, true, c);
            send(*p, p->pay.size());
            settle();
        }
        CHECK_MSG(!*p->conn.ended, "publisher #" << p->id << " of " << p->key << " is cut off");
        CHECK_MSG(StreamCache::get_streamcache(p->key), "the stream " << p->key << " is not available after " << p->made << " frames");
        for (auto& q : pubs) if (q->key == p->key) ++again;
        p->live = true;
        owner[p->key] = p;
        p->p0 = p->npkts();
        pubs.push_back(p);
    };
    auto feed = [&]() {
        PLPub p = pick_pub();
        if (!p) return;
        if (c.want_desc) c.desc << "frames#" << p->id << " ";
        size_t k = (size_t) s.skew(1, 12);
        while (k--) p->frame(s, false, c);
        if (s.chance(1, 60)) {                 // larger than the buffers
            MPkt m = p->pkts.back();
            Bytes more = s.blob((size_t) s.range(500000, 900000));
            for (auto& x : more) if (!x) x = 1;
            m.dts = ++p->now;
            if (m.type == 9) { size_t at = 0; while (at + 4 + rd(m.data, at, 4) < m.data.size()) at += 4 + rd(m.data, at, 4); m.data.replace(at, 4, be(rd(m.data, at, 4) + more.size(), 4)); }
            m.data += more;
            p->pkts.push_back(m); p->tag(m); p->ends.push_back(p->pay.size());
            if (c.want_desc) c.desc << "large ";
            c.label("large-frame");
        }
        send(*p, s.chance(1, 5) ? (size_t) s.range((int64_t) p->sent, (int64_t) p->pay.size()) : p->pay.size());
    };
    auto join = [&]() {
        auto v = std::make_shared<LView>();
        v->id = (int) views.size();
        int n = s.chance(1, 4) ? 1 : 0;
        bool rtmp = s.chance(2, 3);
        v->key = key_of(n);
        v->stalled = s.chance(1, 10);
        if (c.want_desc) c.desc << (rtmp ? "rtmp-" : "") << "join#" << v->id << " " << v->key << (v->stalled ? " stalled " : " ");
        size_t cap = v->stalled ? (size_t) s.skew(1, 2000) : 0;
        if (rtmp) {
            v->r = session(s, bg, name_of(n), false, "viewer #" + std::to_string(v->id) + " of " + v->key + ": ");
            v->conn = v->r->conn;
            v->conn.from->cap = cap;
        } else {
            v->conn = open_conn(bg, gen_frag(s, 200), gen_frag(s, 400), cap);
            v->conn.send("GET " + path_of(n) + ".flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        }
        views.push_back(v); fresh.push_back(v);
    };
    // the tags a viewer has got
    auto tags_of = [&](LView& v, const std::string& who, std::vector<MPkt>& tags) {
        if (v.r) {
            v.r->take();
            CHECK_MSG(v.r->r.err.empty(), who << v.r->r.err);
            begin(*v.r, false, who);
            if (!v.r->begun) return false;
            plain(*v.r, who);
            for (auto& m : v.r->got) {
                CHECK_MSG((m.type == 8 || m.type == 9 || m.type == 18) && m.sid == 1, who << "told " << m.str());
                Bytes f;
                uint32_t z = 0;
                MPkt t; t.type = 18; t.dts = m.ts; t.data = m.body;
                flv_tag(f, t, z);
                f[4] = (char) m.type;
                size_t at = 0;
                std::string why;
                CHECK_MSG(flv_parse(f, at, v.r->tags, false, &why), who << why << " " << m.str());
                v.last += m.body.size();
            }
            v.r->got.clear();
            tags = v.r->tags;
            return true;
        }
        v.in += v.conn.from->buf.substr(v.conn.from->off);
        v.conn.from->buf.clear(); v.conn.from->off = 0;
        st_cond_broadcast(v.conn.from->cv);
        Rsp r = parse_response(v.in, 0);
        if (v.stalled && !r.err.empty()) return false;
        CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response: " << r.err << " " << pbt::quote(v.in, 100));
        Bytes b = r.body;
        if (b.size() < 13) { CHECK_MSG(v.stalled, who << "no FLV header"); return false; }
        CHECK_MSG(b.substr(0, 4) == Bytes("FLV\x01", 4) && rd(b, 5, 4) == 9, who << "no FLV header: " << pbt::quote(b.substr(0, 13)));
        b.erase(0, 9);
        if (!v.stalled) b.resize(b.size() - 4);           // the back-pointer of the last tag
        size_t at = 0;
        std::string why;
        bool whole = flv_parse(b, at, tags, true, &why);
        CHECK_MSG(whole || (v.stalled && why.find("incomplete") == 0), who << why);
        v.last = r.body.size();
        return true;
    };
    auto check_view = [&](LView& v) {
        std::string who = std::string(v.r ? "rtmp " : "") + "viewer #" + std::to_string(v.id) + " of " + v.key + ": ";
        std::vector<MPkt> tags, frames;
        size_t last = v.last;
        if (!tags_of(v, who, tags)) return;
        bool vc = false, ac = false;
        for (auto& t : tags) {
            if (t.type == 18) continue;
            if (t.type == 9 && t.ptype == 0) { CHECK_MSG(t.data == vconf, who << "another video configuration"); vc = true; continue; }
            if (t.type == 8 && t.ptype == 0) { CHECK_MSG(t.data == aconf, who << "another audio configuration"); ac = true; continue; }
            if (t.type == 9 && t.ptype == 2) continue;
            CHECK_MSG(t.type == 9 ? vc : ac, who << "a frame without its configuration: " << t.str());
            frames.push_back(t);
        }
        std::vector<size_t> left;
        std::vector<MPkt> want;
        // FFmpeg hands on the part of a frame with which a publication breaks off
        if (v.p->over && !frames.empty() && v.p->npkts() < v.p->pkts.size()) {
            MPkt part = v.p->pkts[v.p->npkts()];
            const MPkt& l = frames.back();
            if (l.dts == part.dts && l.type == part.type && l.data.size() <= part.data.size() && part.data.compare(0, l.data.size(), l.data) == 0) frames.pop_back();
        }
        for (size_t j : v.joins) {
            want.clear();
            for (auto q : at_join(v.p->pkts, j)) want.push_back(*q);
            for (size_t i = j; i < v.p->npkts(); ++i) want.push_back(v.p->pkts[i]);
            if (v.stalled ? frames.size() <= want.size() && std::equal(frames.begin(), frames.end(), want.begin()) : frames == want) left.push_back(j);
        }
        CHECK_MSG(!left.empty(), who << frame_diff(frames, want));
        v.joins = left;
        if (v.last != last) {
            v.idle = batch_time;
            bool pr = (bool) std::static_pointer_cast<LPub>(v.p)->r;
            if (pr != (bool) v.r) ++cross;
            if (pr && v.r) ++rr;
        }
    };
    auto resolve = [&]() {
        if (bg->failed) pbt::fail(bg->msg);
        for (auto& v : fresh) {
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            auto o = owner.find(v->key);
            if (o == owner.end()) {
                if (v->stalled) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); settle(); }
                if (v->r) {
                    v->r->take();
                    begin(*v->r, false, who);
                    CHECK_MSG(*v->conn.ended && v->r->got.empty(), who << "no source, told " << show_msgs(v->r->got));
                } else {
                    Bytes b = v->conn.from->buf.substr(v->conn.from->off);
                    CHECK_MSG(b.compare(0, 12, "HTTP/1.1 404") == 0, who << "no source, answered with " << pbt::quote(b, 60));
                }
                v->over = true; v->conn.close_all();
                continue;
            }
            CHECK_MSG(!*v->conn.ended, who << "refused although the stream is there");
            v->p = o->second;
            for (size_t j = v->p->p0; j <= v->p->npkts(); ++j) { v->joins.push_back(j); if (j) ++late; }
        }
        fresh.clear();
        for (auto it = owner.begin(); it != owner.end();) {
            PLPub p = it->second;
            hear(*p);
            CHECK_MSG(*p->conn.ended == p->over, "publisher #" << p->id << " of " << p->key << (p->over ? " has ended but is still served" : " was disturbed: its connection is closed"));
            if (p->over) { CHECK_MSG(!StreamCache::get_streamcache(p->key), "the name " << p->key << " is still taken"); it = owner.erase(it); } else ++it;
        }
        for (auto& v : views) {
            if (v->gone || v->over || !v->p) continue;
            bool ended = *v->conn.ended;
            if (ended) { CHECK_MSG(v->may_end, "viewer #" << v->id << " of " << v->key << ": its connection is closed"); v->over = true; }
            if (!ended || v->p->npkts() == v->p->p0) check_view(*v);
        }
        for (auto& p : pubs) p->p0 = p->npkts();
    };
    // a session for a host or name that is not there
    auto stranger = [&]() {
        Name n = name_of(0);
        bool pub = s.boolean();
        n.host = "z.test";
        std::string who = "stranger: ";
        if (c.want_desc) c.desc << "stranger ";
        auto r = session(s, bg, n, pub, who);
        ready(s, *r, who);
        begin(*r, pub, who);
        settle();
        r->take();
        plain(*r, who);
        CHECK_MSG(*r->conn.ended && r->got.empty(), who << "a host that is not configured is served, told " << show_msgs(r->got));
        CHECK_MSG(!StreamCache::get_streamcache("z.test" + path_of(0)), who << "the name is taken");
        r->conn.close_all();
        ++refused;
    };
    size_t ops = 0;
    publish();
    settle(); resolve();
    while (s.more(16) && ops++ < 40) {
        size_t k = s.weighted({1, 8, 5, 2, 2, 1, 1, 1});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: publish(); break;
            case 1: feed(); break;
            case 2: { size_t n = s.chance(1, 3) ? (size_t) s.range(2, 3) : 1; for (size_t i = 0; i < n; ++i) { join(); if (n > 1 && s.chance(1, 3)) st_usleep(0); if (n > 1 && s.chance(1, 2)) feed(); } break; }
            case 3: { PLView v = pick_view(); if (!v) break; if (c.want_desc) c.desc << "leave#" << v->id << " "; v->gone = true; v->conn.close_all(); break; }
            case 4: { PLPub p = pick_pub(); if (!p || s.chance(1, 2)) break; if (c.want_desc) c.desc << "end#" << p->id << " "; p->over = true; p->conn.close_write(); break; }
            case 5: { PLView v = pick_view(); if (!v) break; v->stalled = !v->stalled; v->conn.from->cap = v->stalled ? (size_t) s.skew(1, 500) : 0; st_cond_broadcast(v->conn.from->cv); if (c.want_desc) c.desc << (v->stalled ? "stall#" : "resume#") << v->id << " "; break; }
            case 6: stranger(); break;
            default: {
                st_utime_t d = (st_utime_t) s.range(1, s.chance(1, 4) ? 12000000 : 6000000);
                if (c.want_desc) c.desc << "time+" << d << " ";
                ahead += d; batch_time += d * 1e-6;
                for (auto& v : views) { v->idle += d * 1e-6; if (v->idle > 9.5) v->may_end = true; }
            }
        }
        settle();
        resolve();
        batch_time = 0;
        if (c.want_desc) c.desc << "| ";
    }
    for (auto& v : views) if (v->stalled && !v->over && !v->gone) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); }
    settle(); resolve();
    for (auto& k : owner) { k.second->over = true; k.second->conn.close_write(); }
    settle(); resolve();
    for (int i = 0; i < 3; ++i) {
        ahead += 11000000;
        for (auto& v : views) { v->idle = 11; v->may_end = true; }
        settle();
    }
    resolve();
    for (auto& v : views) CHECK_MSG(*v->conn.ended || v->over, "viewer #" << v->id << " of " << v->key << " is still connected after its source ended");
    for (auto& p : pubs) p->conn.close_all();
    for (auto& v : views) v->conn.close_all();
    settle();
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label_if(rejected > 0, "rejected"); c.label_if(again > 0, "name-reused"); c.label_if(late > 0, "late-join"); c.label_if(rr > 0, "rtmp-to-rtmp"); c.label_if(cross > 0, "rtmp-http");
    c.label_if(refused > 0, "unknown-host"); c.label_if(pongs > 0, "ping");
    c.nontrivial = late > 0 && rr + cross > 0;
}


// ---- hostile sessions
static Bytes amf_value(Src& s, int depth) {
    switch (s.draw(9)) {
        case 0: return num((double) s.draw(5));
        case 1: return str(s.text((size_t) s.skew(0, 20), "abc?/"));
        case 2: return null();
        case 3: return Bytes("\x01", 1) + (char) s.draw(2);
        case 4: if (depth < 3) { Bytes b("\x03", 1); while (s.more(2)) b += name(s.text((size_t) s.skew(1, 5), "abt")) + amf_value(s, depth + 1); return b + end(); } return null();
        case 5: if (depth < 3) { Bytes b = Bytes("\x08", 1) + be((unsigned) s.draw(3), 4); while (s.more(2)) b += name(s.text((size_t) s.skew(1, 5), "abt")) + amf_value(s, depth + 1); return b + (s.boolean() ? end() : Bytes()); } return null();
        case 6: if (depth < 3) { Bytes b = Bytes("\x0a", 1) + be((unsigned) (s.chance(1, 4) ? s.draw(UINT32_MAX) : s.draw(3)), 4); while (s.more(2)) b += amf_value(s, depth + 1); return b; } return null();
        case 7: return Bytes("\x0c", 1) + be((unsigned) (s.chance(1, 3) ? s.draw(UINT32_MAX) : 3), 4) + "abc";
        case 8: return Bytes("\x02", 1) + be((unsigned) s.draw(0xffff), 2) + s.blob((size_t) s.skew(0, 40));      // the length may lie
        default: return (char) s.draw(17) + s.blob((size_t) s.skew(0, 12));
    }
}
static Bytes odd_command(Src& s, const Name& n) {
    static const char* names[] = {"connect", "createStream", "publish", "play", "releaseStream", "FCPublish", "deleteStream", "closeStream", "pause", "seek", "_result", "_error", "onStatus", "onBWDone", ""};
    Bytes b = s.chance(1, 12) ? amf_value(s, 0) : str(names[s.draw(14)]);
    b += s.chance(1, 8) ? amf_value(s, 0) : num((double) s.draw(9));
    b += s.chance(1, 3) ? amf_value(s, 0) : s.boolean() ? null() : obj({{"app", s.chance(1, 5) ? amf_value(s, 1) : str(n.app)}, {"tcUrl", s.chance(1, 5) ? amf_value(s, 1) : str(s.chance(1, 4) ? s.text((size_t) s.skew(0, 30), "rtmp:/f.test?&=%") : "rtmp://" + n.host + "/" + n.app)}});
    while (s.more(2)) b += s.boolean() ? str(n.stream) : amf_value(s, 0);
    if (s.chance(1, 8) && !b.empty()) b.resize((size_t) s.draw(b.size()));
    if (s.chance(1, 8) && !b.empty()) b[(size_t) s.draw(b.size() - 1)] = (char) s.draw(255);
    return b;
}
static Msg odd_message(Src& s, const Name& n) {
    Msg m;
    m.csid = s.chance(1, 6) ? (int) s.range(2, 65599) : (int) s.range(2, 8);
    m.sid = s.chance(1, 8) ? (uint32_t) s.draw(UINT32_MAX) : (uint32_t) s.draw(1);
    m.ts = s.chance(1, 8) ? (uint32_t) s.draw(UINT32_MAX) : (uint32_t) s.draw(1000);
    switch (s.weighted({4, 4, 3, 1})) {
        case 0: m.type = s.pick<int>({20, 20, 17, 18, 15}); m.body = odd_command(s, n); if (m.type == 17 && s.boolean()) m.body = Bytes(1, 0) + m.body; break;
        case 1:
            m.type = (int) s.range(1, 6);
            m.csid = 2;
            switch (m.type) {
                case 1: m.body = be((unsigned) (s.chance(1, 3) ? s.draw(UINT32_MAX) : s.pick<uint64_t>({0, 1, 0x7fffffff, 0x80000000ull, 0xffffffffull, 65536})), 4); break;
                case 4: m.body = be((unsigned) s.draw(7), 2) + be((unsigned) s.draw(UINT32_MAX), 4); break;
                default: m.body = be((unsigned) s.draw(UINT32_MAX), 4);
            }
            if (s.chance(1, 3)) m.body.resize((size_t) s.draw(m.body.size()));
            break;
        case 2: m.type = s.pick<int>({8, 9}); m.body = s.boolean() ? s.blob((size_t) s.skew(0, 300)) : (m.type == 9 ? Bytes("\x17\x00\x00\x00\x00", 5) + vconf : Bytes("\xaf\x00", 2) + aconf); if (s.chance(1, 3)) m.body.resize((size_t) s.draw(std::min<size_t>(m.body.size(), 8))); break;
        default: m.type = (int) s.draw(255); m.body = s.blob((size_t) s.skew(0, 600));
    }
    return m;
}
static void p42(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "z" + std::to_string(++cases);
    auto bg = group();
    // a stream of others
    FPub own;
    own.start(s);
    own.conn = open_conn(bg, Frag(), Frag(), 0);
    own.conn.send("POST /" + tok + "/own.flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
    while (!StreamCache::get_streamcache("f.test/" + tok + "/own") && own.made < 600) {
        for (int i = 0; i < 40; ++i) own.frame(s, true, c);
        own.conn.send(own.pay.substr(own.sent)); own.sent = own.pay.size();
        settle();
    }
    CHECK_MSG(StreamCache::get_streamcache("f.test/" + tok + "/own"), "the bystander's stream is not available");
    Name n; n.host = "f.test"; n.app = tok; n.stream = "own";
    auto eye = session(s, bg, n, false, "bystander: ");
    begin(*eye, false, "bystander: ");
    size_t j = own.npkts();
    // the hostile client
    n.stream = s.chance(1, 4) ? "own" : "x";
    auto p = std::make_shared<RPeer>();
    p->conn = open_conn(bg, gen_frag(s, 600), Frag(), s.chance(1, 6) ? (size_t) s.skew(1, 3000) : 0, rtmp_server);
    int stage = 0;                            // how far a proper session goes on its way
    bool pub = s.boolean();
    Bytes junk;
    auto put = [&](const Msg& m) {
        if (s.chance(1, 12)) {                // chunks that do not fit together
            Bytes h = Writer::basic((int) s.draw(3), m.csid);
            h += s.blob((size_t) s.draw(12));
            p->put(h);
            return;
        }
        p->put(m, (int) s.draw(3));
        if (m.type == 1 && m.body.size() >= 4 && s.chance(3, 4)) { size_t k = rd(m.body, 0, 4); if (k && k < 0x7fffffff) p->w.chunk = k; }
    };
    auto proper = [&]() {
        switch (stage++) {
            case 0: { Bytes b = s.blob(1536); if (!s.chance(1, 12)) b.replace(4, 4, 4, '\0'); p->put(Bytes("\x03", 1) + b); break; }
            case 1: p->put(s.blob(1536)); break;
            case 2: { Msg m; m.type = 20; m.body = str("connect") + num(1) + obj({{"app", str(n.app)}, {"tcUrl", str("rtmp://f.test/" + n.app)}}); p->put(m, 0); break; }
            case 3: { Msg m; m.type = 20; m.body = str("createStream") + num(2) + null(); p->put(m, 0); break; }
            case 4: { Msg m; m.type = 20; m.sid = 1; m.body = pub ? str("publish") + num(3) + null() + str(n.stream) + str("live") : str("play") + num(3) + null() + str(n.stream); p->put(m, 0); break; }
            case 5: case 6: { Msg m; m.type = stage == 5 ? 9 : 8; m.sid = 1; m.csid = stage == 5 ? 6 : 4; m.body = stage == 5 ? Bytes("\x17\x00\x00\x00\x00", 5) + vconf : Bytes("\xaf\x00", 2) + aconf; p->put(m, 0); break; }
            default: for (int i = 0; i < 10; ++i) {
                Msg m; bool v = i % 2 == 0; m.sid = 1; m.ts = (uint32_t) (stage * 400 + i * 40);
                m.type = v ? 9 : 8; m.csid = v ? 6 : 4;
                const Frame& f = v ? vpool[(size_t) (stage * 5 + i / 2) % vpool.size()] : apool[(size_t) i];
                m.body = v ? Bytes(f.key ? "\x17\x01\0\0\0" : "\x27\x01\0\0\0", 5) + f.data : Bytes("\xaf\x01", 2) + f.data;
                p->put(m, (int) s.draw(3));
            }
        }
    };
    size_t ops = 0, odd = 0;
    size_t head = s.weighted({1, 1, 1, 2, 2, 2, 1});     // stages before anything odd
    static const size_t heads[] = {0, 1, 2, 3, 4, 5, 14};
    for (size_t i = 0; i < heads[head]; ++i) proper();
    do {
        if (s.chance(1, 3)) proper();
        else { Msg m = odd_message(s, n); if (c.want_desc) c.desc << m.str() << (m.type == 20 ? amf_all(m.body) : pbt::hex(m.body, 8)) << " "; ++odd; put(m); }
        if (s.chance(1, 4)) { p->flush((size_t) s.range(0, (int64_t) p->out.size())); settle(); }
    } while (s.more(6) && ++ops < 40);
    if (s.chance(1, 3) && !p->out.empty()) { size_t k = (size_t) s.skew(1, 8); while (k--) p->out[(size_t) s.draw(p->out.size() - 1)] ^= (char) (1 << s.draw(7)); ++odd; }
    if (s.chance(1, 6)) p->put(s.blob((size_t) s.skew(1, 4000)));
    c.mix(p->out);
    p->flush(p->out.size());
    settle();
    size_t told = p->conn.from->total;
    if (s.boolean()) { for (int i = 0; i < 6; ++i) own.frame(s, false, c); own.conn.send(own.pay.substr(own.sent)); own.sent = own.pay.size(); settle(); }
    bool alive = !*p->conn.ended;
    if (s.boolean()) p->conn.close_write(); else p->conn.close_all();
    settle();
    for (int i = 0; i < 12 && !*p->conn.ended; ++i) {
        if (i == 1) p->conn.close_all();
        ahead += 4000000;
        own.frame(s, true, c); own.conn.send(own.pay.substr(own.sent)); own.sent = own.pay.size();
        settle();
    }
    if (bg->failed) pbt::fail(bg->msg);
    CHECK_MSG(*p->conn.ended, "the client has gone, its session goes on");
    if (n.stream == "x") CHECK_MSG(!StreamCache::get_streamcache("f.test/" + tok + "/x"), "the client has gone, its stream is still there");
    // the others
    CHECK_MSG(!*own.conn.ended, "the bystander's publisher is cut off");
    for (int i = 0; i < 3; ++i) own.frame(s, true, c);
    own.conn.send(own.pay.substr(own.sent)); own.sent = own.pay.size();
    settle();
    CHECK_MSG(!*eye->conn.ended, "the bystander is cut off");
    eye->take(); plain(*eye, "bystander: ");
    std::vector<MPkt> frames, want;
    for (auto& m : eye->got) {
        if (m.type == 18) continue;
        Bytes f; uint32_t z = 0; MPkt t; t.type = 18; t.dts = m.ts; t.data = m.body;
        flv_tag(f, t, z); f[4] = (char) m.type;
        size_t at = 0; std::vector<MPkt> one; std::string why;
        CHECK_MSG(flv_parse(f, at, one, false, &why), "bystander: " << why << " " << m.str());
        if (one[0].ptype) frames.push_back(one[0]);
    }
    for (auto q : at_join(own.pkts, j)) want.push_back(*q);
    for (size_t i = j; i < own.npkts(); ++i) want.push_back(own.pkts[i]);
    CHECK_MSG(frames == want, "bystander: " << frame_diff(frames, want));
    // and the next client is served
    Name k; k.host = "f.test"; k.app = tok; k.stream = "own";
    auto next = session(s, bg, k, false, "next client: ");
    begin(*next, false, "next client: ");
    CHECK_MSG(!*next->conn.ended && !next->got.empty(), "the next client is not served");
    own.conn.close_all(); eye->conn.close_all(); next->conn.close_all();
    for (int i = 0; i < 2; ++i) { ahead += 11000000; settle(); }
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label_if(alive, "not-refused"); c.label_if(told > 3300, "session"); c.label_if(told > 0 && told <= 3300, "handshake");
    c.nontrivial = odd > 0 && told > 3073;
}

int main(int argc, char** argv) {
    pbt::Property a, b;
    a.id = "P41";
    a.rule = "generated histories of RTMP and HTTP publishers, frames, players, endings and time; non-trivial: a player that joined late got frames from or over RTMP";
    a.body = p41; a.setup = setup; a.quick_cases = 600; a.thorough_cases = 20000; a.case_timeout = 60;
    b.id = "P42";
    b.rule = "generated sessions of proper and odd RTMP messages, broken chunks and damaged bytes beside a stream of others; non-trivial: something odd was sent and the handshake was done";
    b.body = p42; b.setup = setup; b.quick_cases = 40000; b.thorough_cases = 300000; b.case_timeout = 60;
    return pbt::run_main(argc, argv, {a, b});
}
