// PROPERTIES: P43
// RTMPSHIM
// TECHNIQUE P43: property-based testing: generated message and packet sequences against an independent RTMP peer (both directions of the native formats, the client, and pulls from an RTMP upstream), with generated chunking and fragmentation
#include <arpa/inet.h>
#include <stdio.h>
#include <sys/socket.h>
#include <librtmp/log.h>
#include "ff_model.hpp"
#include "rtmp_model.hpp"

#include <sps_avformat_librtmp.hpp>
#include <sps_avformat_rtmpdec.hpp>
#include <sps_avformat_rtmpenc.hpp>
#include <sps_io_url_rtmp.hpp>
#include <sps_io_url_rtmp_ffmpeg.hpp>

using namespace rtmpm;

static void setup() {
    live_setup(false);
    av_log_set_level(AV_LOG_QUIET);
    librtmp_init_once();
    RTMP_LogSetLevel((RTMP_LogLevel) 0);
    encode_pool();
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FFmpegAVInputFormat>());
    SingleInstance<sps::UrlProtocol>::get_instance().reg(std::make_shared<RtmpURLProtocolFactory>());
}

struct Want { int stream = 0, ptype = 0, flags = 0, codec = 0; uint32_t dts = 0; int32_t cts = 0; Bytes data;
    std::string str() const { std::ostringstream o; o << "(stream=" << stream << " type=" << ptype << " flags=" << flags << " codec=" << codec << " dts=" << dts << " cts=" << cts << " n=" << data.size() << ")"; return o.str(); } };
// what the message is to the reader: 1 packet, 0 nothing, -1 an error
static int decode(const Msg& m, Want& w) {
    if (m.body.empty()) return 0;
    w = Want();
    w.dts = m.ts;
    if (m.type == 9) {
        w.stream = AV_STREAM_TYPE_VIDEO; w.flags = (uint8_t) m.body[0]; w.codec = w.flags & 15;
        if (w.codec != 7 && w.codec != 12) return -1;
        if ((w.flags & 0xf0) == 0x50) { w.data = m.body.substr(1); return 1; }
        if (m.body.size() < 5) return -1;
        w.ptype = (uint8_t) m.body[1];
        w.cts = (int32_t) rd(m.body, 2, 3);
        if (w.cts >= 0x800000) w.cts -= 0x1000000;
        w.data = m.body.substr(5);
        return 1;
    }
    if (m.type == 8) {
        if (m.body.size() < 2) return -1;
        w.stream = AV_STREAM_TYPE_AUDIO; w.flags = (uint8_t) m.body[0]; w.codec = w.flags >> 4; w.ptype = (uint8_t) m.body[1]; w.data = m.body.substr(2);
        return w.codec == 10 ? 1 : -1;
    }
    if (m.type == 18 || m.type == 15) { w.stream = AV_STREAM_TYPE_SUBTITLE; w.data = m.body; return 1; }
    return 0;
}
static uint32_t next_ts(Src& s, uint32_t ts) { return s.chance(1, 12) ? (uint32_t) s.draw(0xf0000000u) : s.chance(1, 20) ? (ts > 40 ? ts - (uint32_t) s.draw(40) : ts) : ts + (uint32_t) s.draw(60); }
static Bytes blob(Src& s) { return s.blob((size_t) s.skew(0, s.chance(1, 30) ? 70000 : 400)); }
static Msg gen_msg(Src& s, uint32_t& ts, bool bad) {
    Msg m;
    ts = next_ts(s, ts);
    m.ts = ts; m.sid = 1;
    switch (s.weighted({6, 5, 1, bad ? 1u : 0u})) {
        case 0: {
            m.type = 9; m.csid = 6;
            int ft = s.weighted({4, 8, 1, 1, 1});
            uint8_t f = (uint8_t) ((ft + 1) << 4 | (s.chance(1, 5) ? 12 : 7));
            m.body = Bytes(1, (char) f);
            if (ft != 4) m.body += be(s.weighted({1, 8, 1}), 1) + be((unsigned) (s.chance(1, 3) ? (s.boolean() ? s.draw(0xffffff) : (0x1000000 - s.draw(500)) & 0xffffff) : s.draw(500)), 3);
            m.body += blob(s);
            break;
        }
        case 1: m.type = 8; m.csid = 4; m.body = be((unsigned) (0xa0 | s.draw(15)), 1) + be((unsigned) s.draw(1), 1) + blob(s); break;
        case 2: m.type = s.chance(1, 4) ? 15 : 18; m.csid = 4; m.body = (m.type == 15 ? Bytes(1, 0) : Bytes()) + str("onMetaData") + null() + blob(s); break;
        default: m.type = s.boolean() ? 9 : 8; m.csid = 5; m.body = s.blob((size_t) s.skew(0, 8));
    }
    if (s.chance(1, 10)) m.csid = s.pick<int>({3, 5, 7, 63, 64, 319, 320});
    return m;
}
// a plan of messages as chunks, and the messages in the order in which they are complete
struct Plan { Bytes out; std::vector<Msg> order; std::vector<uint32_t> pings; };
static void chunk_size(Src& s, Writer& w, Plan& p) {
    size_t n = s.chance(1, 4) ? (size_t) s.range(1, 127) : (size_t) s.skew(128, 70000);
    Msg m; m.type = 1; m.csid = 2; m.body = be(n, 4);
    for (auto& k : w.chunks(m, 0)) p.out += k;
    w.chunk = n;
}
static void gen_plan(Src& s, Ctx& c, Writer& w, Plan& p, bool bad, bool pings) {
    uint32_t ts = s.chance(1, 3) ? (uint32_t) s.draw(0xf0000000u) : (uint32_t) s.draw(1000);
    size_t n = 0;
    while (s.more(10) && n++ < 60) {
        if (s.chance(1, 8)) chunk_size(s, w, p);
        if (s.chance(1, 10)) {
            Msg m; m.csid = 2;
            switch (s.draw(4)) {
                case 0: m.type = 3; m.body = be((unsigned) s.draw(9999), 4); break;
                case 1: m.type = 5; m.body = be(2500000, 4); break;
                case 2: m.type = 6; m.body = be(5000000, 4) + Bytes(1, 2); break;
                case 3: if (pings) { uint32_t t = (uint32_t) s.draw(UINT32_MAX); m.type = 4; m.body = be(6, 2) + be(t, 4); p.pings.push_back(t); break; }   // fall through
                default: m.type = 20; m.csid = 3; m.body = str("onBWDone") + num(0) + null() + num(8192);
            }
            for (auto& k : w.chunks(m, 0)) p.out += k;
        }
        std::vector<Msg> ms = {gen_msg(s, ts, bad)};
        if (s.chance(1, 4)) { ms.push_back(gen_msg(s, ts, bad)); if (ms[1].csid == ms[0].csid) ms[1].csid = ms[0].csid == 9 ? 10 : 9; }
        std::vector<std::vector<Bytes>> ks;
        for (auto& m : ms) { c.mix(m.body); if (c.want_desc) c.desc << m.str() << " "; ks.push_back(w.chunks(m, (int) s.draw(3))); }
        if (ks.size() == 1) { for (auto& k : ks[0]) p.out += k; p.order.push_back(ms[0]); continue; }
        size_t a[2] = {0, 0}, many = ks[0].size() + ks[1].size() > 300;
        while (a[0] < ks[0].size() || a[1] < ks[1].size()) {
            int i = a[0] == ks[0].size() ? 1 : a[1] == ks[1].size() ? 0 : many ? (a[0] + a[1]) % 2 : (int) s.draw(1);
            p.out += ks[i][a[i]++];
            if (a[i] == ks[i].size()) p.order.push_back(ms[i]);
        }
    }
}

// reads packets to the end and compares
static void check_demux(std::shared_ptr<RtmpUrlProtocol> io, const Plan& p, int& bad) {
    RtmpDemuxer d(io);
    PAVPacket pkt;
    CHECK_MSG(d.read_header(pkt) == SUCCESS, "read_header");
    for (auto& m : p.order) {
        Want w;
        int k = decode(m, w);
        if (!k) continue;
        pkt = nullptr;
        error_t r = d.read_packet(pkt);
        if (k < 0) { CHECK_MSG(r != SUCCESS, "a malformed message " << m.str() << pbt::hex(m.body, 8) << " is read as a packet"); ++bad; return; }
        CHECK_MSG(r == SUCCESS && pkt, "reading " << m.str() << " fails: " << r);
        Want g;
        g.stream = pkt->stream_type; g.ptype = pkt->pkt_type.pkt_type; g.flags = (uint8_t) pkt->flags; g.codec = pkt->codecid; g.dts = (uint32_t) pkt->dts; g.cts = (int32_t) (pkt->pts - pkt->dts); g.data = Bytes((char*) pkt->buffer(), pkt->size());
        if (w.stream == AV_STREAM_TYPE_SUBTITLE) { g.flags = w.flags; g.codec = w.codec; g.ptype = w.ptype; }
        if (w.stream == AV_STREAM_TYPE_VIDEO && (w.flags & 0xf0) == 0x50) g.ptype = w.ptype;
        CHECK_MSG(pkt->dts == (int64_t) w.dts && g.str() == w.str() && g.data == w.data, "message " << m.str() << " is read as " << g.str() << ", expected " << w.str() << (g.data == w.data ? "" : ", other bytes"));
    }
    error_t r = d.read_packet(pkt);
    CHECK_MSG(r != SUCCESS, "a packet after the end");
}
// reads the messages as an FLV file
static void check_flv(Src& s, std::shared_ptr<IURLProtocol> io, const Plan& p) {
    Bytes want("FLV\x01\x05\0\0\0\x09\0\0\0\0", 13), got;
    std::vector<size_t> sids;
    for (auto& m : p.order) {
        if (m.body.empty() || (m.type != 8 && m.type != 9 && m.type != 18 && m.type != 15)) continue;
        sids.push_back(want.size() + 8);
        want += be((unsigned) m.type, 1) + be(m.body.size(), 3) + be(m.ts & 0xffffff, 3) + be(m.ts >> 24, 1) + be(0, 3) + m.body + be(m.body.size() + 11, 4);
    }
    size_t sz = (size_t) s.skew(16, 40000);
    bool vary = s.boolean();
    int idle = 0;
    while (true) {
        size_t n = vary ? (size_t) s.skew(16, 5000) : sz, k = SIZE_MAX;
        std::unique_ptr<char[]> b(new char[n]);
        error_t r = io->read(b.get(), n, k);
        if (r != SUCCESS) break;
        CHECK_MSG(k <= n, "a read of " << n << " bytes reports " << k);
        idle = k ? 0 : idle + 1;
        CHECK_MSG(idle < 1000, "reads report no bytes and no end");
        got.append(b.get(), k);
        CHECK_MSG(got.size() <= want.size(), "more bytes than the FLV of the messages: " << got.size() << " of " << want.size());
    }
    for (auto o : sids) for (size_t i = 0; i < 3; ++i) if (o + i < got.size()) got[o + i] = 0;      // the stream's number
    CHECK_MSG(got == want, "the FLV of the messages, " << want.size() << " bytes, is read as " << got.size() << " bytes, the first difference at " << std::mismatch(got.begin(), got.begin() + (long) std::min(got.size(), want.size()), want.begin()).first - got.begin());
}

// ---- a server that a client of the project connects to, on two pipes
struct Origin {
    PPipe in, out;
    Bytes path;                      // what must be played
    Plan plan;
    bool played = false;
    size_t at = 0;
    std::vector<Msg> got;
    Bytes take(size_t n) {
        while (in->size() < n) { if (in->closed) return Bytes(); st_cond_wait(in->cv); }
        Bytes b = in->buf.substr(in->off, n);
        in->off += n;
        return b;
    }
    void send(Src* s, const Bytes& b) { (void) s; out->buf += b; st_cond_broadcast(out->cv); }
    void run(const Bytes& s1, size_t chunk, Writer& w, const Bytes& data, bool early, int extra) {
        Bytes c = take(1537);
        CHECK_MSG(c.size() == 1537 && c[0] == 3, "the client's handshake");
        send(nullptr, Bytes("\x03", 1) + s1 + c.substr(1));
        Bytes c2 = take(1536);
        CHECK_MSG(c2 == s1, "the client does not repeat the server's handshake");
        Reader r;
        Bytes app;
        auto say = [&](int type, int csid, uint32_t sid, const Bytes& b) { Msg m; m.type = type; m.csid = csid; m.sid = sid; m.body = b; for (auto& k : w.chunks(m, 0)) send(nullptr, k); };
        auto o = [&](const std::vector<std::pair<Bytes, Bytes>>& kv) { Bytes b("\x03", 1); for (auto& k : kv) b += name(k.first) + k.second; return b + end(); };
        while (true) {
            while (in->size() == 0) { if (in->closed) return; st_cond_wait(in->cv); }
            Bytes b = in->buf.substr(in->off);
            in->off = in->buf.size();
            std::vector<Msg> ms;
            r.read(b, ms);
            CHECK_MSG(r.err.empty(), "client: " << r.err);
            for (auto& m : ms) {
                got.push_back(m);
                if (m.type != 20) continue;
                std::string a = amf_all(m.body);
                size_t p = 0;
                std::string fn = amf(m.body, p);
                size_t q = p;
                amf(m.body, p);
                Bytes txn = m.body.substr(q, p - q);
                if (fn == "'connect'") {
                    size_t k = a.find("app='");
                    CHECK_MSG(k != std::string::npos, "connect without app: " << a);
                    app = a.substr(k + 5, a.find("'", k + 5) - k - 5);
                    CHECK_MSG(a.find("tcUrl='rtmp://h.test:1935/" + app + "'") != std::string::npos || a.find("tcUrl='rtmp://h.test/" + app + "'") != std::string::npos, "connect: " << a);
                    say(5, 2, 0, be(2500000, 4)); say(6, 2, 0, be(2500000, 4) + Bytes(1, 2));
                    if (chunk) { say(1, 2, 0, be(chunk, 4)); w.chunk = chunk; }
                    if (extra & 1) say(20, 3, 0, str("onBWDone") + num(0) + null());
                    say(20, 3, 0, str("_result") + txn + o({{"fmsVer", str("FMS/3,5")}}) + o({{"level", str("status")}, {"code", str("NetConnection.Connect.Success")}}));
                } else if (fn == "'createStream'") {
                    say(20, 3, 0, str("_result") + txn + null() + num(1));
                } else if (fn == "'play'") {
                    size_t z = p; amf(m.body, z);
                    std::string nm = amf(m.body, z);
                    CHECK_MSG(m.sid == 1, "play on stream " << m.sid);
                    CHECK_MSG("/" + app + "/" == path.substr(0, app.size() + 2) && nm == "'" + path.substr(app.size() + 2) + "'", "the client plays " << nm << " of '" << app << "', the url is " << path);
                    CHECK_MSG(!played, "played twice");
                    played = true;
                    say(4, 2, 0, be(0, 2) + be(1, 4));
                    if (extra & 2) say(20, 5, 1, str("onStatus") + num(0) + null() + o({{"level", str("status")}, {"code", str("NetStream.Play.Reset")}}));
                    say(20, 5, 1, str("onStatus") + num(0) + null() + o({{"level", str("status")}, {"code", str("NetStream.Play.Start")}}));
                    (void) early;
                    send(nullptr, data);
                    out->closed = true;
                    st_cond_broadcast(out->cv);
                }
            }
        }
    }
};
static Bytes gen_url_path(Src& s) {
    Bytes p;
    size_t n = (size_t) s.range(2, s.chance(1, 4) ? 4 : 2);
    for (size_t i = 0; i < n; ++i) p += "/" + s.text((size_t) s.skew(1, 30), "abcxyz019_-");
    return p;
}

static void p43(Src& s, Ctx& c) {
    int mode = (int) s.weighted({4, 4, 3, 3, 2});
    auto a = std::make_shared<Pipe>(), b = std::make_shared<Pipe>();      // to and from the project's side
    auto io = std::make_shared<LiveIO>(a, b, gen_frag(s, 400), gen_frag(s, 400));
    int bad = 0;
    size_t many = 0;
    if (mode == 0 || mode == 3) {                                          // messages to packets
        Writer w; Plan p;
        gen_plan(s, c, w, p, mode == 0, true);
        a->buf = p.out; a->closed = true;
        auto hk = std::make_shared<RtmpHook>(io);
        if (mode == 0) check_demux(std::make_shared<RtmpUrlProtocol>(hk), p, bad);
        else check_flv(s, std::make_shared<FFmpegRtmpUrlProtocol>(hk), p);
        if (!bad) {
            Reader r; std::vector<Msg> ms;
            r.st[2].any = true;                     // the library opens it without a stream number
            r.read(b->buf.substr(b->off), ms);
            std::vector<uint32_t> pongs;
            for (auto& m : ms) if (m.type == 4 && m.body.size() == 6 && rd(m.body, 0, 2) == 7) pongs.push_back((uint32_t) rd(m.body, 2, 4));
            CHECK_MSG(r.err.empty() && pongs == p.pings, p.pings.size() << " pings, answered by " << pongs.size() << " messages" << r.err);
        }
        many = p.order.size();
        c.label(mode ? "to-flv" : "to-packets");
    } else if (mode == 1) {                                                // packets to messages
        auto hk = std::make_shared<RtmpHook>(io);
        bool larger = s.boolean();
        if (larger) CHECK_MSG(hk->send_set_chunked_size() == SUCCESS, "set chunk size");
        RtmpAVMuxer mux(std::make_shared<RtmpUrlProtocol>(hk));
        std::vector<Want> want;
        PAVPacket none;
        uint32_t ts = s.chance(1, 3) ? (uint32_t) s.draw(0xf0000000u) : (uint32_t) s.draw(1000);
        CHECK_MSG(mux.write_header(none) == SUCCESS, "write_header");
        while (s.more(10) && want.size() < 60) {
            Msg m = gen_msg(s, ts, false);
            Want w;
            if (decode(m, w) != 1 || w.data.empty()) continue;
            Bytes keep = w.data;
            auto pkt = sps::AVPacket::create(AV_MESSAGE_DATA, (AVStreamType) w.stream, AVPacketType{w.ptype}, (uint8_t*) w.data.data(), (int) w.data.size(), w.dts, (int64_t) w.dts + w.cts, w.flags, w.codec);
            c.mix(m.body); if (c.want_desc) c.desc << w.str() << " ";
            int times = s.chance(1, 6) ? 2 : 1;              // to a second player of the same packet
            for (int i = 0; i < times; ++i) { CHECK_MSG(mux.write_packet(pkt) == SUCCESS, "write_packet " << w.str()); want.push_back(w); }
            CHECK_MSG(Bytes((char*) pkt->buffer(), pkt->size()) == keep, "writing changes the packet");
        }
        Reader r; std::vector<Msg> all, ms;
        r.read(b->buf.substr(b->off), all);
        CHECK_MSG(r.err.empty(), r.err);
        for (auto& m : all) if (m.type != 1) ms.push_back(m);
        CHECK_MSG(ms.size() == want.size() && r.at == r.in.size(), want.size() << " packets are written as " << ms.size() << " messages");
        for (size_t i = 0; i < ms.size(); ++i) {
            const Want& w = want[i];
            Bytes body = w.data;
            int type = 18;
            if (w.stream == AV_STREAM_TYPE_VIDEO) { type = 9; body = Bytes(1, (char) w.flags) + ((w.flags & 0xf0) == 0x50 ? Bytes() : be((unsigned) w.ptype, 1) + be((unsigned) w.cts & 0xffffff, 3)) + w.data; }
            if (w.stream == AV_STREAM_TYPE_AUDIO) { type = 8; body = Bytes(1, (char) w.flags) + be((unsigned) w.ptype, 1) + w.data; }
            CHECK_MSG(ms[i].type == type && ms[i].ts == w.dts && ms[i].sid == 1 && ms[i].body == body, "packet " << w.str() << " is written as " << ms[i].str() << pbt::hex(ms[i].body, 8) << (ms[i].body.size() == body.size() ? ", other bytes" : ""));
        }
        many = want.size();
        c.label("to-messages");
    } else {                                                               // the client
        bool pull = mode == 4;
        auto o = std::make_shared<Origin>();
        o->in = b; o->out = a; o->path = gen_url_path(s);
        Writer w0, w;
        size_t chunk = s.chance(1, 4) ? 0 : s.chance(1, 4) ? (size_t) s.range(1, 127) : (size_t) s.skew(128, 70000);
        int extra = (int) s.draw(3);
        Bytes s1 = be((unsigned) s.draw(UINT32_MAX), 4) + be(0, 4) + s.blob(1528);
        w.chunk = chunk ? chunk : 128;
        FPub pub;
        if (pull) {
            pub.start(s);
            for (int i = 0; i < 130; ++i) pub.frame(s, true, c);
            while (s.more(20) && pub.made < 250) pub.frame(s, false, c);
            for (size_t p = 13; p < pub.pay.size();) {
                Msg m; size_t n = rd(pub.pay, p + 1, 3);
                m.type = pub.pay[p]; m.ts = (uint32_t) (rd(pub.pay, p + 4, 3) | rd(pub.pay, p + 7, 1) << 24); m.sid = 1; m.csid = m.type == 9 ? 6 : 4; m.body = pub.pay.substr(p + 11, n);
                for (auto& k : w.chunks(m, (int) s.draw(3))) o->plan.out += k;
                p += 15 + n;
            }
            many = pub.pkts.size();
        } else {
            gen_plan(s, c, w, o->plan, false, true);
            many = o->plan.order.size();
        }
        if (c.want_desc) c.desc << o->path << " chunk=" << chunk << " ";
        auto g = group();
        g->go([=]() mutable { o->run(s1, chunk, w0, o->plan.out, false, extra); });
        bool flv = s.boolean();
        if (!pull) {
            auto hk = std::make_shared<RtmpHook>(io);
            error_t r = hk->client_connect("rtmp://h.test" + o->path, "", false);
            if (g->failed) pbt::fail(g->msg);
            CHECK_MSG(r == SUCCESS && o->played, "client_connect fails: " << r);
            if (flv) check_flv(s, std::make_shared<FFmpegRtmpUrlProtocol>(hk), o->plan);
            else check_demux(std::make_shared<RtmpUrlProtocol>(hk), o->plan, bad);
            c.label("client");
        } else {
            int fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in sa{}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t sl = sizeof sa;
            if (fd < 0 || bind(fd, (sockaddr*) &sa, sl) || listen(fd, 4) || getsockname(fd, (sockaddr*) &sa, &sl)) throw pbt::Discard();
            st_netfd_t lf = st_netfd_open_socket(fd), cf = nullptr;
            auto in = o->in, out = o->out;
            auto done = std::make_shared<int>(0);
            auto pf = std::make_shared<st_netfd_t>(nullptr);
            g->go([=]() {
                *pf = st_accept(lf, nullptr, nullptr, ST_UTIME_NO_TIMEOUT);
                if (!*pf) { in->closed = true; st_cond_broadcast(in->cv); return; }
                auto other = group();
                other->go([=]() { char t[4096]; ssize_t n; while ((n = st_read(*pf, t, sizeof t, ST_UTIME_NO_TIMEOUT)) > 0) { in->buf.append(t, (size_t) n); st_cond_broadcast(in->cv); } in->closed = true; st_cond_broadcast(in->cv); });
                while (true) {
                    while (out->size() == 0 && !out->closed) st_cond_wait(out->cv);
                    if (out->size() == 0) break;
                    Bytes k = out->buf.substr(out->off, 30000);
                    out->off += k.size();
                    if (st_write(*pf, k.data(), k.size(), ST_UTIME_NO_TIMEOUT) < 0) break;
                }
                ::shutdown(st_netfd_fileno(*pf), SHUT_WR);
                while (other->live > 0) st_usleep(0);
                st_netfd_close(*pf);
            });
            (void) cf; (void) done;
            PRequestUrl url;
            CHECK_MSG(RequestUrl::from("rtmp://h.test" + o->path, url) == SUCCESS, "the url is refused");
            url->set_ip_port("127.0.0.1", ntohs(sa.sin_port));
            {
                auto u = SingleInstance<sps::UrlProtocol>::get_instance().create(url);
                CHECK_MSG(u, "no protocol for rtmp");
                error_t r = u->open(url, TCP);
                if (g->failed) pbt::fail(g->msg);
                CHECK_MSG(r == SUCCESS && o->played, "open fails: " << r);
                auto d = SingleInstance<AVDemuxerFactory>::get_instance().create(u, url);
                CHECK_MSG(d, "an RTMP source is not understood");
                size_t i = 0;
                while (true) {
                    PAVPacket pkt;
                    if (d->read_packet(pkt) != SUCCESS) break;
                    CHECK_MSG(i < pub.pkts.size(), "more frames than sent");
                    const MPkt& m = pub.pkts[i++];
                    auto ff = std::dynamic_pointer_cast<FFmpegPacket>(pkt);
                    CHECK_MSG(ff, "a packet not of FFmpeg");
                    Bytes data((char*) ff->packet()->data, (size_t) ff->packet()->size);
                    std::ostringstream got;
                    got << "type " << (pkt->is_video() ? 9 : 8) << " dts " << pkt->dts << " pts " << pkt->pts << " n " << data.size();
                    CHECK_MSG((pkt->is_video() ? 9 : 8) == m.type && pkt->dts == (int64_t) m.dts && pkt->pts == (int64_t) m.dts + m.cts && data == m.data, "frame " << i - 1 << " " << m.str() << " is read as " << got.str());
                }
                CHECK_MSG(i == pub.pkts.size(), i << " of " << pub.pkts.size() << " frames are read");
            }
            st_netfd_close(lf);
            c.label("pull");
        }
        io = nullptr;
        b->closed = true; st_cond_broadcast(b->cv);
        for (int i = 0; i < 200000 && g->live > 0 && !g->failed; ++i) st_usleep(0);
        g->join(0, "the server's side");
    }
    c.label_if(bad > 0, "malformed");
    c.nontrivial = many >= 3;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P43";
    a.rule = "generated sequences of RTMP messages and packets, chunk sizes, interleavings and fragmentations; non-trivial: at least three of them";
    a.body = p43; a.setup = setup; a.quick_cases = 10000; a.thorough_cases = 200000; a.case_timeout = 60;
    return pbt::run_main(argc, argv, {a});
}
