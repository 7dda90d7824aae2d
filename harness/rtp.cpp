// PROPERTIES: P20 P21 P39
// TECHNIQUE P20: property-based testing: an independent RTP packetiser (all RFC 6184 modes, RFC 3640 AAC, RFC 2250 TS, header options, RTCP, losses) generates datagrams; the packets that come out are compared with the units that went in
// TECHNIQUE P21: fuzzing with structured generators: damaged valid datagrams, crafted headers and arbitrary bytes under AddressSanitizer, with termination, memory and recovery oracles
// TECHNIQUE P39: property-based testing: RTP and RTCP headers, reports and descriptions rendered from generated fields (whole or cut short), the fields as oracle
#include "ts_model.hpp"
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
#include <sps_avcodec_parser.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace sps;
static void setup() { format_log(); }
static const int END = ERROR_SOCKET_TIMEOUT;

// delivers one datagram for each read, as a UDP socket does
class DgramIO : public ScriptIO {
 public:
    explicit DgramIO(const std::vector<Bytes>& d) : ScriptIO("", Frag()), d(d) {}
    error_t read(void* buf, size_t size, size_t& nread) override {
        if (at >= d.size()) return END;
        const Bytes& b = d[at++];
        nread = std::min(size, b.size());
        memcpy(buf, b.data(), nread);
        return SUCCESS;
    }
    std::vector<Bytes> d;
    size_t at = 0;
};

struct RtpGen {
    Src& s;
    uint16_t seq;
    uint32_t ssrc;
    int pt;
    bool rich;
    size_t max = 2900;
    std::vector<Bytes> out;
    RtpGen(Src& s, int pt) : s(s), pt(pt) {
        seq = (uint16_t) (s.boolean() ? s.draw(65535) : 65520 + s.draw(15));
        ssrc = (uint32_t) s.draw(0xffffffff);
        rich = s.boolean();
    }
    Bytes head(uint32_t ts, bool padding, size_t& used) {
        int cc = rich && s.chance(1, 4) ? (int) s.draw(15) : 0;
        bool ext = rich && s.chance(1, 4);
        Bytes h = be(0x80 | (padding ? 0x20 : 0) | (ext ? 0x10 : 0) | cc, 1) + be((s.boolean() ? 0x80 : 0) | (uint64_t) pt, 1) + be(seq++, 2) + be(ts, 4) + be(ssrc, 4);
        for (int i = 0; i < cc; ++i) h += be(s.draw(0xffffffff), 4);
        if (ext) { size_t w = (size_t) s.skew(0, 20); h += be(s.draw(0xffff), 2) + be(w, 2) + s.blob(w * 4); }
        used = h.size();
        return h;
    }
    Bytes packet(uint32_t ts, const Bytes& payload) {
        bool pad = rich && s.chance(1, 6);
        size_t used;
        Bytes b = head(ts, pad, used) + payload;
        if (pad) { size_t n = (size_t) s.skew(1, 32); b += Bytes(n - 1, (char) s.draw(255)) + be(n, 1); }
        return b;
    }
};

static Bytes gen_rtcp_one(Src& s, bool may_bye) {
    auto pkt = [](int count, int type, const Bytes& body) { return be(0x80 | count, 1) + be((uint64_t) type, 1) + be(body.size() / 4, 2) + body; };
    switch (s.draw(may_bye ? 4 : 3)) {
        case 0: { int n = (int) s.skew(0, 31); return pkt(n, 200, s.blob(24) + s.blob((size_t) n * 24)); }
        case 1: { int n = (int) s.skew(0, 31); return pkt(n, 201, s.blob(4) + s.blob((size_t) n * 24)); }
        case 2: {
            int n = (int) s.skew(0, 5);
            Bytes b;
            for (int i = 0; i < n; ++i) {
                Bytes c = be(s.draw(0xffffffff), 4);
                while (s.more(2)) { size_t k = (size_t) s.skew(0, 60); c += be(s.range(1, 8), 1) + be(k, 1) + s.blob(k); }
                c += Bytes(1, 0);
                while (c.size() % 4) c += Bytes(1, 0);
                b += c;
            }
            return pkt(n, 202, b);
        }
        case 3: { size_t w = (size_t) s.skew(0, 30); return pkt((int) s.draw(31), 204, s.blob(4) + "name" + s.blob(w * 4)); }
        default: { int n = (int) s.skew(1, 4); return pkt(n, 203, s.blob((size_t) n * 4) + (s.boolean() ? Bytes("\x03" "bye", 4) : Bytes())); }
    }
}
static Bytes gen_rtcp(Src& s) {
    Bytes b = gen_rtcp_one(s, true);
    while (s.chance(1, 3) && b.size() < 1500) b += gen_rtcp_one(s, true);
    return b;
}

struct RtpUnit { Bytes nal; uint32_t ts; int mode; };
struct RtpCase {
    std::vector<Bytes> dgrams;
    std::vector<RtpUnit> expect;
    bool lost = false, agg = false, frag = false, rtcp = false, big = false, given_up = false;
};

static RtpCase gen_h264(Src& s, size_t max_units, bool losses) {
    RtpCase r;
    RtpGen g(s, (int) s.range(96, 127));
    uint32_t ts = (uint32_t) (s.boolean() ? s.draw(0xffffffff) : 0xffffffff - s.draw(5000));
    std::vector<RtpUnit> us;
    size_t n = (size_t) s.skew(1, (int64_t) max_units);
    bool big = s.chance(1, 60);
    for (size_t i = 0; i < n; ++i) {
        RtpUnit u;
        int ty = gen_nal_type(s);
        if (ty < 1 || ty > 23) ty = (int) s.range(1, 23);
        size_t mx = big && s.chance(1, 3) ? 200000 : s.chance(1, 6) ? 9000 : s.chance(1, 3) ? 1500 : 100;
        if (ty != 1 && ty != 5 && ty != 6) mx = std::min<size_t>(mx, 400);
        u.nal = gen_nal(s, ty, false, mx).b;
        if (big && i == 0) { r.big = true; u.nal = Bytes("\x65", 1) + s.blob((size_t) s.pick<int>({200000, 1000000, 1048570})); }
        if (s.chance(1, 2)) ts += (uint32_t) s.draw(s.chance(1, 12) ? 400000 : 9000);
        u.ts = ts;
        us.push_back(u);
    }
    struct Out { Bytes b; std::vector<size_t> units; };
    std::vector<Out> outs;
    size_t i = 0;
    while (i < us.size()) {
        size_t room = (size_t) s.pick<int>({1400, 200, 60, 2700});
        int mode = (int) s.weighted({4, 2, 1, 1, 1, 4});
        auto& u = us[i];
        if (mode >= 1 && mode <= 4) {
            int tp = 23 + mode;     // 24 STAP-A, 25 STAP-B, 26 MTAP16, 27 MTAP24
            size_t per = tp <= 25 ? 2 : tp == 26 ? 5 : 6, head = tp == 24 ? 1 : 3;
            Bytes b = be((uint64_t) (s.draw(3) << 5 | tp), 1) + (tp == 24 ? "" : be(s.draw(0xffff), 2));
            std::vector<size_t> in;
            // smallest time of the group is the packet's
            uint32_t base = u.ts;
            size_t k = (size_t) s.range(1, 6);
            while (i < us.size() && in.size() < k) {
                auto& v = us[i];
                if (b.size() + per + v.nal.size() > 2700) break;
                if (tp <= 25 && v.ts != base) break;
                if (tp == 26 && (uint32_t) (v.ts - base) > 0xffff) break;
                if (tp == 27 && (uint32_t) (v.ts - base) > 0xffffff) break;
                b += be(v.nal.size(), 2);
                if (tp >= 26) b += be(s.draw(255), 1) + be((uint32_t) (v.ts - base), tp == 26 ? 2 : 3);
                b += v.nal;
                v.mode = mode;
                in.push_back(i++);
            }
            if (!in.empty()) { outs.push_back({g.packet(base, b), in}); r.agg = true; continue; }
            mode = 5;
        }
        if (mode == 0 && u.nal.size() <= 2700) { u.mode = 0; outs.push_back({g.packet(u.ts, u.nal), {i}}); ++i; continue; }
        // fragments
        if (u.nal.size() < 3) { outs.push_back({g.packet(u.ts, u.nal), {i}}); ++i; continue; }
        if (u.nal.size() > 50000) room = 2700;
        bool fub = s.chance(1, 4);
        size_t at = 1;
        r.frag = true;
        size_t lens = std::min<size_t>(room, u.nal.size() - 2);     // at least two fragments
        if (s.chance(1, 25)) {
            // a unit that its sender gave up
            int k = (int) s.range(1, 3), ty = (int) s.range(1, 12);
            for (int j = 0; j < k; ++j) outs.push_back({g.packet(u.ts, be(0x7c, 1) + be((uint64_t) ((j == 0 ? 0x80 : 0) | ty), 1) + s.blob((size_t) s.range(1, 60))), {}});
            r.given_up = true;
        }
        bool first = true;
        while (at < u.nal.size()) {
            size_t len = std::min(lens, u.nal.size() - at);
            if (!first && s.chance(1, 4)) len = (size_t) s.range(1, (int64_t) len);
            bool end = at + len == u.nal.size();
            int tp = fub && first ? 29 : 28;
            Bytes b = be((uint64_t) (((uint8_t) u.nal[0] & 0xe0) | tp), 1) + be((uint64_t) ((first ? 0x80 : 0) | (end ? 0x40 : 0) | ((uint8_t) u.nal[0] & 31)), 1);
            if (tp == 29) b += be(s.draw(0xffff), 2);
            b += u.nal.substr(at, len);
            outs.push_back({g.packet(u.ts, b), {i}});
            at += len;
            first = false;
        }
        u.mode = 5;
        ++i;
    }
    std::set<size_t> gone;
    bool rtcp = s.chance(1, 3);
    double p = losses && s.chance(1, 2) ? 1 : 0;
    int64_t every = s.range(2, 20);
    for (auto& o : outs) {
        if (p && s.chance(1, (int) every)) { for (size_t k : o.units) gone.insert(k); r.lost = true; }
        else r.dgrams.push_back(o.b);
        if (rtcp && s.chance(1, 4)) { r.dgrams.push_back(gen_rtcp(s)); r.rtcp = true; }
    }
    for (size_t k = 0; k < us.size(); ++k) if (!gone.count(k)) r.expect.push_back(us[k]);
    return r;
}

static RtpCase gen_aac(Src& s, size_t max_packets) {
    RtpCase r;
    RtpGen g(s, (int) s.range(96, 127));
    uint32_t ts = (uint32_t) (s.boolean() ? s.draw(0xffffffff) : 0xffffffff - s.draw(5000));
    size_t n = (size_t) s.skew(1, (int64_t) max_packets);
    bool rtcp = s.chance(1, 3);
    while (n--) {
        bool many = s.chance(1, 8);
        size_t k = (size_t) (many ? s.range(8, 60) : s.skew(1, 12));
        Bytes heads, data;
        while (k--) {
            Bytes au = s.blob((size_t) s.skew(1, many ? 30 : s.chance(1, 8) ? 2500 : 300));
            if (heads.size() + data.size() + au.size() > 2600) break;
            heads += be(au.size() << 3 | (r.expect.empty() ? 0 : 0), 2);
            data += au;
            r.expect.push_back({au, ts, 0});
        }
        if (heads.empty()) continue;
        r.dgrams.push_back(g.packet(ts, be(heads.size() * 8, 2) + heads + data));
        ts += (uint32_t) s.draw(4000);
        if (rtcp && s.chance(1, 3)) { r.dgrams.push_back(gen_rtcp(s)); r.rtcp = true; }
    }
    return r;
}

static std::list<PAVPacket> drain(Ctx& c, RtpDemuxer& d, const std::shared_ptr<DgramIO>& io) {
    std::list<PAVPacket> got;
    PAVPacket h;
    CHECK(d.read_header(h) == SUCCESS);
    while (true) {
        PAVPacket p;
        error_t e = d.read_packet(p);
        if (e == END && io->at == io->d.size()) break;
        CHECK_MSG(e == SUCCESS, "datagram " << io->at - 1 << " of " << io->d.size() << " (" << pbt::hex(io->d[io->at - 1], 60) << ") refused: " << e);
        CHECK_MSG(p, "null packet");
        got.push_back(p);
    }
    return got;
}

static void check_nals(const std::list<PAVPacket>& got, const RtpCase& r) {
    // pictures and SEI, in order; before each one the latest configuration packet has the latest parameter sets
    Bytes sps, pps, config;
    auto it = got.begin();
    size_t k = 0;
    for (auto& u : r.expect) {
        std::string w = "unit " + std::to_string(k++);
        int ty = (uint8_t) u.nal[0] & 31;
        if (ty == 7) sps = u.nal;
        if (ty == 8) pps = u.nal;
        if (ty != 1 && ty != 5 && ty != 6) continue;
        while (it != got.end() && (*it)->is_video_sequence_header()) { config = pkt_bytes(*it); ++it; }
        CHECK_MSG(it != got.end(), w << " (type " << ty << ", " << u.nal.size() << " bytes, mode " << u.mode << ") missing");
        if (!sps.empty()) {
            Bytes want = Bytes("\x01", 1) + sps.substr(1, 3) + "\xff\xe1" + be(sps.size(), 2) + sps + (pps.empty() ? Bytes(1, 0) : Bytes("\x01", 1) + be(pps.size(), 2) + pps);
            CHECK_MSG(config.size() == want.size() && config.substr(0, 4) == want.substr(0, 4) && config.substr(6) == want.substr(6),
                      w << ": configuration before it " << pbt::hex(config, 80) << " expected " << pbt::hex(want, 80));
        }
        auto& p = *it++;
        Bytes b = pkt_bytes(p), t = be(u.nal.size(), 4) + u.nal;
        CHECK_MSG(p->is_video(), w << " is not video");
        CHECK_MSG(b == t, w << " mode " << u.mode << ": " << pbt::hex(b, 60) << " (" << b.size() << ") expected " << pbt::hex(t, 60) << " (" << t.size() << ")");
        CHECK_MSG(p->is_keyframe() == (ty == 5), w << ": keyframe mark of type " << ty);
        CHECK_MSG(p->pts == (int64_t) u.ts / 90, w << " mode " << u.mode << ": time " << p->pts << " expected " << u.ts / 90);
    }
    while (it != got.end() && (*it)->is_video_sequence_header()) ++it;
    CHECK_MSG(it == got.end(), "packets beyond the units sent: " << std::distance(it, got.end()) << ", first " << pbt::hex(pkt_bytes(*it), 40));
}

static void describe(Ctx& c, const char* kind, const RtpCase& r) {
    if (!c.want_desc) return;
    c.desc << kind << ": " << r.expect.size() << " units expected";
    size_t n = 0;
    for (auto& u : r.expect) { if (n++ > 12) break; c.desc << " [type " << ((uint8_t) u.nal[0] & 31) << " " << u.nal.size() << " bytes ts " << u.ts << " mode " << u.mode << "]"; }
    c.desc << "; " << r.dgrams.size() << " datagrams:";
    n = 0;
    for (auto& d : r.dgrams) { if (n++ > 12) break; c.desc << " " << d.size() << ":" << pbt::hex(d, 24); }
}

static void p20(Src& s, Ctx& c) {
    int kind = (int) s.weighted({5, 2, 2});
    RtpCase r;
    if (kind == 2) {
        TsStream t = gen_ts(s, 8);
        Bytes all = ts_bytes(t);
        RtpGen g(s, 33);
        size_t at = 0;
        bool rtcp = s.chance(1, 3);
        while (at < all.size()) {
            size_t k = std::min((size_t) s.range(1, 7) * 188, all.size() - at);
            r.dgrams.push_back(g.packet((uint32_t) s.draw(0xffffffff), all.substr(at, k)));
            at += k;
            if (rtcp && s.chance(1, 5)) r.dgrams.push_back(gen_rtcp(s));
        }
        describe(c, "ts", r);
        for (auto& d : r.dgrams) c.mix(d);
        auto io = std::make_shared<DgramIO>(r.dgrams);
        RtpDemuxer d(io);
        check_ts(drain(c, d, io), t);
        c.label("ts");
        c.nontrivial = t.done.size() > 1;
        return;
    }
    r = kind == 0 ? gen_h264(s, 12, true) : gen_aac(s, 10);
    describe(c, kind == 0 ? "h264" : "aac", r);
    for (auto& d : r.dgrams) c.mix(d);
    auto io = std::make_shared<DgramIO>(r.dgrams);
    RtpDemuxer d(io);
    CHECK_MSG(d.init_codec(kind == 0 ? AVCODEC_H264 : AVCODEC_AAC) == SUCCESS, "codec refused");
    auto got = drain(c, d, io);
    if (kind == 0) check_nals(got, r);
    else {
        auto it = got.begin();
        size_t k = 0;
        for (auto& u : r.expect) {
            CHECK_MSG(it != got.end(), "frame " << k << " missing");
            auto& p = *it++;
            CHECK_MSG(p->is_audio() && !p->is_audio_sequence_header(), "frame " << k << " is not an audio frame");
            CHECK_MSG(pkt_bytes(p) == u.nal, "frame " << k << ": " << pbt::hex(pkt_bytes(p), 60) << " (" << p->size() << ") expected " << pbt::hex(u.nal, 60) << " (" << u.nal.size() << ")");
            CHECK_MSG(p->dts == (int64_t) u.ts / 90 && p->pts == (int64_t) u.ts / 90, "frame " << k << ": times " << p->dts << "/" << p->pts << " expected " << u.ts / 90);
            ++k;
        }
        CHECK_MSG(it == got.end(), "packets beyond the frames sent");
    }
    c.label(kind == 0 ? "h264" : "aac");
    c.label_if(r.lost, "losses");
    c.label_if(r.agg, "aggregated");
    c.label_if(r.frag, "fragmented");
    c.label_if(r.rtcp, "rtcp");
    c.label_if(r.big, "big");
    c.label_if(r.given_up, "unit-given-up");
    c.nontrivial = r.expect.size() > 1;
}

static void mutate(Src& s, Bytes& b) {
    if (b.empty()) return;
    switch (s.draw(7)) {
        case 0: b.resize((size_t) s.draw(b.size())); break;
        case 1: b[(size_t) s.skew(0, (int64_t) b.size() - 1)] = (char) s.draw(255); break;
        case 2: b[s.draw(b.size() - 1)] ^= (char) (1 << s.draw(7)); break;
        case 3: if (b.size() > 12) b[12 + (size_t) s.skew(0, (int64_t) b.size() - 13)] = (char) s.pick<int>({0, 1, 0xff, 0x7f, 0x80, 24, 25, 26, 27, 28, 29, 30, 0x5c, 0x7c}); break;
        case 4: if (b.size() > 14) b[13] = (char) s.draw(255); break;
        case 5: b[0] = (char) s.draw(255); break;
        case 6: if (b.size() > 12) b.resize(12 + (size_t) s.skew(0, std::min<int64_t>(6, (int64_t) b.size() - 12))); break;
        default: b += s.blob((size_t) s.skew(1, 20)); break;
    }
}

static void p21(Src& s, Ctx& c) {
    int codec = (int) s.draw(2);      // h264, aac, ts
    std::vector<Bytes> ds;
    bool rtcp_only = s.chance(1, 5), huge = codec == 0 && s.chance(1, 400);
    if (huge) {
        RtpGen g(s, 96);
        size_t n = (size_t) s.range(380, 420);
        for (size_t i = 0; i < n; ++i) ds.push_back(g.packet(9, be(0x7c, 1) + be(i == 0 ? 0x85 : i + 1 == n ? 0x45 : 5, 1) + Bytes(2800, (char) i)));
    } else if (rtcp_only) {
        size_t n = (size_t) s.skew(1, 12);
        while (n--) {
            Bytes b = gen_rtcp(s);
            int k = (int) s.draw(3);
            while (k--) mutate(s, b);
            if (s.chance(1, 4) && b.size() > 1) b[1] = (char) s.range(199, 206);
            if (s.chance(1, 4) && b.size() > 3) { b[2] = (char) s.draw(255); b[3] = (char) s.draw(255); }
            ds.push_back(b);
        }
    } else if (s.chance(1, 6)) {
        size_t n = (size_t) s.skew(1, 12);
        while (n--) {
            Bytes b = s.blob((size_t) s.skew(0, 60));
            if (b.size() > 1 && s.boolean()) { b[0] = (char) 0x80; b[1] = (char) s.pick<int>({33, 161, 96, 127, 224, 200, 202, 204}); }
            ds.push_back(b);
        }
    } else {
        if (codec == 2) {
            Bytes all = ts_bytes(gen_ts(s, 4));
            RtpGen g(s, 33);
            for (size_t at = 0; at < all.size() && ds.size() < 60;) { size_t k = std::min((size_t) s.range(1, 4) * 188, all.size() - at); ds.push_back(g.packet(7, all.substr(at, k))); at += k; }
        } else ds = (codec == 0 ? gen_h264(s, 8, true) : gen_aac(s, 6)).dgrams;
        int k = (int) s.range(1, 10);
        while (k-- && !ds.empty()) {
            size_t i = s.draw(ds.size() - 1);
            switch (s.draw(8)) {
                case 0: ds.insert(ds.begin() + (long) i, ds[s.draw(ds.size() - 1)]); break;      // repeated or late
                case 1: ds.erase(ds.begin() + (long) i); break;
                case 2: ds.insert(ds.begin() + (long) i, gen_rtcp(s)); mutate(s, ds[i]); break;
                default: mutate(s, ds[i]);
            }
        }
    }
    for (auto& d : ds) c.mix(d);
    if (c.want_desc) {
        c.desc << (codec == 0 ? "h264" : codec == 1 ? "aac" : "ts") << " receiver, " << ds.size() << " datagrams:";
        size_t n = 0;
        for (auto& d : ds) { if (n++ > 10) break; c.desc << " " << d.size() << ":" << pbt::hex(d, 48); }
    }
    size_t before = __sanitizer_get_current_allocated_bytes();
    size_t total = 0;
    for (auto& d : ds) total += d.size();
    size_t packets = 0, oks = 0;
    if (s.boolean()) {
        // each datagram in a heap block of its own size
        PIRtpDecoder rtcp = std::make_shared<RtcpRtpDecoder>(), d;
        if (codec == 0) d = std::make_shared<H264RtpDecoder>();
        else if (codec == 1) d = std::make_shared<AacRtpDecoder>();
        else d = std::make_shared<MpegtsRtpDecodder>();
        std::list<PAVPacket> pkts;
        for (auto& b : ds) {
            Heap h(b);
            bool r = h.n > 1 && is_rtcp(h.p[1]);
            if ((r ? rtcp : d)->decode(h.p, (int) h.n, pkts) == SUCCESS) ++oks;
            packets += pkts.size();
            CHECK_MSG(pkts.size() <= 3000, "a datagram of " << h.n << " bytes gave " << pkts.size() << " packets");
            pkts.clear();
        }
        size_t now = __sanitizer_get_current_allocated_bytes();
        CHECK_MSG(now < before + (24u << 20) + 8 * total, "memory grew by " << now - before << " after " << total << " bytes");
    } else {
        Bytes nal;
        std::vector<Bytes> all = ds;
        RtpGen g(s, 96);
        g.rich = false;
        if (codec == 0) { nal = Bytes("\x41", 1) + "after the storm"; all.push_back(g.packet(900, nal)); }
        if (codec == 1) { nal = "after the storm"; all.push_back(g.packet(900, be(16, 2) + be(nal.size() << 3, 2) + nal)); }
        auto io = std::make_shared<DgramIO>(all);
        RtpDemuxer d(io);
        if (codec < 2) d.init_codec(codec == 0 ? AVCODEC_H264 : AVCODEC_AAC);
        size_t calls = 0;
        PAVPacket last;
        while (true) {
            PAVPacket p;
            error_t e = d.read_packet(p);
            if (e == SUCCESS) { CHECK_MSG(p, "null packet"); ++packets; ++oks; last = p; }
            else if (e == END && io->at == all.size()) break;
            CHECK_MSG(++calls < 4 * all.size() + packets + 10, "no progress");
        }
        if (codec < 2) {
            CHECK_MSG(last, "a valid packet after bad ones gave nothing");
            Bytes want = codec == 0 ? be(nal.size(), 4) + nal : nal;
            CHECK_MSG(pkt_bytes(last) == want, "a valid packet after bad ones came out as " << pbt::hex(pkt_bytes(last), 60));
        }
    }
    c.label_if(rtcp_only, "rtcp");
    c.label_if(huge, "huge");
    c.label_if(packets > 0, "packets-out");
    c.nontrivial = ds.size() > 1 && oks > 0;
}

// ---------------------------------------------------------------- P39
static void p39(Src& s, Ctx& c) {
    int kind = (int) s.draw(3);
    struct Block { uint64_t v[7]; };                 // source, fraction, lost, highest, jitter, last report, delay
    struct Desc { uint32_t ssrc; std::vector<std::pair<int, Bytes>> items; };
    auto word = [&] { return (uint32_t) (s.chance(1, 4) ? s.pick<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xffffffff}) : s.draw(0xffffffff)); };
    Bytes wire;
    std::vector<size_t> need;                        // sizes at which a cut leaves a whole number of fields
    bool pad = s.boolean();
    Bytes rest = s.chance(1, 2) ? s.blob((size_t) s.skew(0, 40)) : Bytes();   // what follows in the datagram
    static const char* names[] = {"rtp", "sender-report", "receiver-report", "descriptions"};
    c.label(names[kind]);
    if (kind == 0) {
        uint64_t ver = s.draw(3), mark = s.draw(1), pt = s.draw(127), seq = s.draw(65535);
        uint32_t ts = word(), ssrc = word();
        std::vector<uint32_t> cs;
        int cc = (int) s.draw(15);
        for (int i = 0; i < cc; ++i) cs.push_back(word());
        bool ext = s.boolean();
        uint32_t prof = (uint32_t) s.draw(0xffff);
        Bytes eb = ext ? s.blob((size_t) s.skew(0, 40) * 4) : Bytes();
        wire = be(ver << 6 | (pad ? 0x20 : 0) | (ext ? 0x10 : 0) | (uint64_t) cc, 1) + be(mark << 7 | pt, 1) + be(seq, 2) + be(ts, 4) + be(ssrc, 4);
        for (auto x : cs) wire += be(x, 4);
        if (ext) wire += be(prof, 2) + be(eb.size() / 4, 2) + eb;
        size_t cut = s.chance(1, 4) ? (size_t) s.draw(wire.size() - 1) : wire.size();
        c.mix(wire); c.mix(&cut, sizeof cut);
        if (c.want_desc) c.desc << "RTP header " << pbt::hex(wire, 80) << " cut at " << cut;
        Heap h(cut < wire.size() ? wire.substr(0, cut) : wire + rest);
        BitContext bc(h.p, h.n);
        RtpPayloadHeader r;
        error_t e = r.decode(bc);
        c.nontrivial = true;
        if (cut < wire.size()) { CHECK_MSG(e != SUCCESS, "a header cut at " << cut << " of " << wire.size() << " is accepted"); c.label("cut"); return; }
        CHECK_EQ(e, SUCCESS);
        auto& f = r.fix_header;
        CHECK_EQ((uint64_t) f.version, ver); CHECK_EQ((bool) f.padding, pad); CHECK_EQ((bool) f.extension, ext); CHECK_EQ((int) f.cc, cc);
        CHECK_EQ((uint64_t) f.mark, mark); CHECK_EQ((uint64_t) f.payload_type, pt); CHECK_EQ((uint64_t) f.sequence_num, seq);
        CHECK_EQ(f.timestamp, ts); CHECK_EQ(f.ssrc, ssrc);
        CHECK_MSG(r.csrc == cs, "contributing sources differ");
        if (ext) {
            CHECK_EQ((uint32_t) r.extension_info.define_by_profile, prof);
            CHECK_EQ((size_t) r.extension_info.length * 4, eb.size());
            if (!eb.empty()) CHECK_MSG(Bytes((const char*) r.extension_info.header_extension.get(), eb.size()) == eb, "the extension differs");
        }
        CHECK_EQ((size_t) bc.size(), rest.size());
        return;
    }
    int type = kind == 1 ? 200 : kind == 2 ? 201 : 202;
    int n = (int) s.skew(0, kind == 3 ? 6 : 31);
    uint32_t info[6];
    for (auto& x : info) x = word();
    std::vector<Block> bl;
    std::vector<Desc> ds;
    Bytes body;
    if (kind < 3) {
        for (int i = 0; i < (kind == 1 ? 6 : 1); ++i) body += be(info[i], 4);
        for (int i = 0; i < n; ++i) {
            Block b{{word(), s.draw(255), s.draw(0xffffff), word(), word(), word(), word()}};
            body += be(b.v[0], 4) + be(b.v[1], 1) + be(b.v[2], 3) + be(b.v[3], 4) + be(b.v[4], 4) + be(b.v[5], 4) + be(b.v[6], 4);
            bl.push_back(b);
        }
    } else {
        for (int i = 0; i < n; ++i) {
            Desc d;
            d.ssrc = word();
            Bytes k = be(d.ssrc, 4);
            do { d.items.push_back({(int) s.range(1, 8), s.blob((size_t) s.skew(0, 255))}); k += be((uint64_t) d.items.back().first, 1) + be(d.items.back().second.size(), 1) + d.items.back().second; } while (s.more(1));
            k += Bytes(1, 0);
            while (k.size() % 4) k += Bytes(1, 0);
            body += k;
            ds.push_back(d);
        }
    }
    wire = be(0x80 | (pad ? 0x20 : 0) | (uint64_t) n, 1) + be((uint64_t) type, 1) + be(body.size() / 4, 2) + body;
    size_t cut = s.chance(1, 4) ? (size_t) s.draw(wire.size() - 1) : wire.size();
    c.mix(wire); c.mix(&cut, sizeof cut);
    if (c.want_desc) c.desc << names[kind] << " with " << n << " entries " << pbt::hex(wire, 80) << " cut at " << cut;
    c.nontrivial = n > 0;
    Heap h(cut < wire.size() ? wire.substr(0, cut) : wire + rest);
    {   // as one datagram
        RtcpRtpDecoder d;
        std::list<PAVPacket> pkts;
        error_t e = d.decode(h.p, (int) h.n, pkts);
        CHECK_MSG((e == SUCCESS) == (cut == wire.size()), "a packet of " << cut << " of " << wire.size() << " bytes: " << e);
        CHECK(pkts.empty());
    }
    BitContext bc(h.p, h.n);
    RtcpHeadDecoder hd;
    error_t e = hd.decode(bc);
    if (cut < 4) { CHECK_MSG(e != SUCCESS, "a head of " << cut << " bytes is accepted"); c.label("cut"); return; }
    CHECK_EQ(e, SUCCESS);
    CHECK_EQ((int) hd.header.version, 2); CHECK_EQ((bool) hd.header.padding, pad); CHECK_EQ((int) hd.header.cflag, n);
    CHECK_EQ((int) hd.header.payload_type, type); CHECK_EQ((size_t) hd.header.length * 4, body.size());
    auto blocks = [&](const std::list<RtcpSRReportBlock>& got) {
        CHECK_EQ(got.size(), bl.size());
        auto it = bl.begin();
        for (auto& g : got) {
            uint64_t v[7] = {g.ssrc, g.fraction_lost, g.cum_number_pkt_lost, g.extend_high_seq_num_recv, g.inter_arrival_jitter, g.last_sr, g.delay_since_last_sr};
            for (int i = 0; i < 7; ++i) CHECK_MSG(v[i] == it->v[i], "field " << i << " of block " << (it - bl.begin()) << " is " << v[i] << " instead of " << it->v[i]);
            ++it;
        }
    };
    RtcpSRDecoder sr; RtcpRRDecoder rr; RtcpSDESDecoder sd;
    IRtcpDecoder& d = kind == 1 ? (IRtcpDecoder&) sr : kind == 2 ? (IRtcpDecoder&) rr : (IRtcpDecoder&) sd;
    e = d.decode(hd.header, bc);
    if (cut < wire.size()) { CHECK_MSG(e != SUCCESS, "a packet cut at " << cut << " of " << wire.size() << " is accepted"); c.label("cut"); return; }
    CHECK_EQ(e, SUCCESS);
    CHECK_EQ((size_t) bc.size(), rest.size());
    if (kind == 1) {
        uint32_t v[6] = {sr.ssrc, sr.ntp_ts_msw, sr.ntp_ts_lsw, sr.rtp_ts, sr.send_pkt_count, sr.send_oct_count};
        for (int i = 0; i < 6; ++i) CHECK_MSG(v[i] == info[i], "field " << i << " is " << v[i] << " instead of " << info[i]);
        blocks(sr.report_blocks);
    } else if (kind == 2) {
        CHECK_EQ(rr.ssrc, info[0]);
        blocks(rr.report_blocks);
    } else {
        CHECK_EQ(sd.sdes.size(), ds.size());
        auto it = ds.begin();
        for (auto& g : sd.sdes) {
            auto& last = it->items.back();
            CHECK_EQ(g.ssrc, it->ssrc);
            CHECK_EQ((int) g.item_type, last.first);
            CHECK_EQ((size_t) g.item_length, last.second.size());
            CHECK_MSG(g.item_value && Bytes((const char*) g.item_value->buffer(), g.item_value->size()) == last.second, "the text of source " << it - ds.begin() << " differs");
            ++it;
        }
    }
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P20";
    a.rule = "datagrams of an independent packetiser: single, STAP-A/B, MTAP16/24, FU-A/B with random cuts, AAC with 1-12 access units, TS in groups of 1-7; random extensions, contributing sources, padding, markers, sequence wrap, interleaved RTCP, losses; non-trivial: at least two units must come out; distinct by datagrams";
    a.body = p20; a.setup = setup; a.quick_cases = 60000; a.thorough_cases = 2000000;
    pbt::Property b;
    b.id = "P21";
    b.rule = "damaged valid datagrams (cut, changed, repeated, dropped), RTCP with wrong counts and lengths, arbitrary bytes, units beyond 1 MiB; each datagram in a heap block of its own or through the demuxer followed by a valid one; non-trivial: some datagram was accepted; distinct by datagrams";
    b.body = p21; b.setup = setup; b.quick_cases = 150000; b.thorough_cases = 4000000;
    pbt::Property d;
    d.id = "P39";
    d.rule = "RTP headers (any version, marks, 0-15 contributing sources, extension of 0-40 words), sender and receiver reports with 0-31 blocks, descriptions of 0-6 sources with one or more items, whole (with anything after them) or cut at any byte; non-trivial: an RTP header, or at least one entry; distinct by bytes";
    d.body = p39; d.setup = setup; d.quick_cases = 600000; d.thorough_cases = 10000000;
    d.assumptions = {"of several items of a source only the last is kept by the decoder", "one RTCP packet of a compound datagram"};
    return pbt::run_main(argc, argv, {a, b, d});
}
