// PROPERTIES: P23
// TECHNIQUE P23: property-based testing: commands from an independent AMF0 encoder (fields in any order, decoys, missing or mistyped fields) must decode to the values sent or be refused; mutated and arbitrary messages under AddressSanitizer
#include "common.hpp"
#include <sps_avformat_librtmp_packet.hpp>
#include <math.h>
#include <string.h>

using namespace sps;
static void setup() { format_log(); }

static Bytes amf_num(double d) { uint64_t v; memcpy(&v, &d, 8); return Bytes(1, 0) + be(v, 8); }
static Bytes amf_str(const Bytes& b) { return Bytes("\x02", 1) + be(b.size(), 2) + b; }
static Bytes amf_null() { return Bytes("\x05", 1); }
static Bytes amf_name(const Bytes& b) { return be(b.size(), 2) + b; }
static Bytes gen_text(Src& s, size_t max = 60) {
    Bytes b;
    size_t n = (size_t) s.skew(0, (int64_t) max);
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789/._-?=&:%";
    bool any = s.chance(1, 6);
    for (size_t i = 0; i < n; ++i) b += any ? (char) s.draw(255) : al[s.draw(sizeof al - 2)];
    return b;
}
static double gen_num(Src& s) {
    switch (s.draw(4)) {
        case 0: return (double) s.draw(10);
        case 1: return -(double) s.draw(100000);
        case 2: return s.pick<double>({0.0, 1.0, 0.5, 1e300, -1e-300, 4294967296.0, 9007199254740993.0, -0.0});
        default: return (double) s.draw(0xffffffff) / 7.0;
    }
}
static Bytes gen_object(Src& s, int depth);
static Bytes gen_value(Src& s, int depth) {
    switch (s.draw(depth > 0 ? 7 : 5)) {
        case 0: return amf_num(gen_num(s));
        case 1: return amf_str(gen_text(s));
        case 2: return Bytes("\x01", 1) + be(s.draw(1), 1);
        case 3: return amf_null();
        case 4: return Bytes("\x06", 1);
        case 5: { Bytes t = gen_text(s, 300); return Bytes("\x0c", 1) + be(t.size(), 4) + t; }
        case 6: return gen_object(s, depth - 1);
        default: { Bytes o = gen_object(s, depth - 1); return Bytes("\x08", 1) + be(s.draw(9), 4) + o.substr(1); }   // ECMA array
    }
}
static Bytes gen_prop_name(Src& s) {
    return s.pick<Bytes>({"flashVer", "App", "apps", "ap", "tcUrl2", "tcurl", "capabilities", "audioCodecs", "objectEncoding", "swfUrl", "x", "type", "name"});
}
static Bytes gen_object(Src& s, int depth) {
    Bytes o = "\x03";
    while (s.more(2)) {
        Bytes n = s.boolean() ? gen_prop_name(s) : s.pick<Bytes>({"app", "tcUrl"});
        o += amf_name(n) + gen_value(s, depth);
    }
    return o + Bytes("\0\0\x09", 3);
}

struct Msg {
    Bytes body;
    int type = 20;
    Bytes name;
    double txn = 0;
    Bytes app, url, stream, mode;
    bool has_mode = false;
    int defect = 0;        // 0: complete
    bool known = true;
};
static const char* NAMES[] = {"connect", "createStream", "play", "publish", "releaseStream", "FCPublish"};

static Msg gen_msg(Src& s) {
    Msg m;
    int k = (int) s.draw(5);
    m.name = NAMES[k];
    m.defect = s.chance(1, 3) ? (int) s.range(1, 5) : 0;
    if (s.chance(1, 12)) {
        m.known = false;
        m.defect = 0;
        m.name = s.pick<Bytes>({"Connect", "connec", "connectx", "PLAY", "play2", "pause", "seek", "", "publis", "FCUnpublish", "deleteStream", "_result", "fcpublish", Bytes("play\0", 5)});
    }
    m.txn = gen_num(s);
    Bytes b = m.defect == 1 ? s.pick<Bytes>({amf_num(3), amf_null(), Bytes("\x01\x01", 2)}) : amf_str(m.name);
    Bytes txn = m.defect == 2 ? s.pick<Bytes>({amf_str("1"), amf_null(), Bytes("\x01\x01", 2)}) : amf_num(m.txn);
    Bytes third;
    if (k == 0) {
        m.app = gen_text(s, s.chance(1, 10) ? 2000 : 40);
        m.url = gen_text(s, s.chance(1, 10) ? 2000 : 60);
        std::vector<Bytes> props;
        Bytes appv = amf_str(m.app), urlv = amf_str(m.url);
        if (m.defect == 4) { Bytes bad = s.pick<Bytes>({amf_num(2), amf_null(), Bytes("\x01\x01", 2), gen_object(s, 0)}); if (s.boolean()) appv = bad; else urlv = bad; }
        int missing = m.defect == 5 ? (int) s.draw(1) : -1;
        if (missing != 0) props.push_back(amf_name("app") + appv);
        if (missing != 1) props.push_back(amf_name("tcUrl") + urlv);
        while (s.more(4)) props.push_back(amf_name(gen_prop_name(s)) + gen_value(s, 2));
        for (size_t i = props.size(); i > 1; --i) std::swap(props[i - 1], props[s.draw(i - 1)]);
        third = "\x03";
        for (auto& p : props) third += p;
        third += Bytes("\0\0\x09", 3);
        if (m.defect == 3) third = s.pick<Bytes>({amf_null(), amf_str("x"), amf_num(1)});
    } else {
        third = s.chance(1, 4) ? gen_object(s, 1) : amf_null();
        if (m.defect == 3) third = s.pick<Bytes>({amf_str("x"), amf_num(1), Bytes("\x01\x01", 2)});
    }
    b += txn + third;
    if (k == 1 && m.defect > 3) m.defect = 0;
    if (k == 1 && s.chance(1, 10)) b += gen_value(s, 1);
    if (k >= 2) {
        m.stream = gen_text(s, s.chance(1, 10) ? 3000 : 60);
        if (m.defect == 5) {}       // missing
        else if (m.defect == 4) b += s.pick<Bytes>({amf_num(2), amf_null(), gen_object(s, 0)});
        else b += amf_str(m.stream);
        if (m.defect == 0) {
            if (k == 3 && s.chance(3, 4)) { m.mode = s.pick<Bytes>({"live", "record", "append", "", "x"}); m.has_mode = true; b += amf_str(m.mode); if (s.chance(1, 5)) b += gen_value(s, 1); }
            if (k == 2) while (s.more(2)) b += gen_value(s, 1);
        }
    } else if (k == 0) while (s.chance(1, 4)) b += gen_value(s, 1);       // optional arguments
    if (s.chance(1, 6)) { m.type = 17; b = Bytes(1, 0) + b; }
    m.body = b;
    return m;
}

struct Pkt {        // a message in a block of its exact size
    Heap h;
    WrapRtmpPacket w;
    explicit Pkt(const Bytes& b, int type) : h(b), w(false) {
        w.packet.m_body = (char*) h.p;
        w.packet.m_nBodySize = (uint32_t) h.n;
        w.packet.m_packetType = (uint8_t) type;
    }
};
static Bytes str(const AVal& v) { return v.av_len ? Bytes(v.av_val, (size_t) v.av_len) : Bytes(); }

static void p23(Src& s, Ctx& c) {
    if (s.chance(1, 3)) {
        Msg m = gen_msg(s);
        Bytes b = m.body;
        int kind = (int) s.draw(4);
        switch (kind) {
            case 0: b.resize((size_t) s.draw(b.size())); break;
            case 1: { int k = (int) s.range(1, 4); while (k--) b[s.draw(b.size() - 1)] = (char) s.pick<int>({0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 0xff, 0x7f}); break; }
            case 2: b = s.blob((size_t) s.skew(0, 40)); break;
            case 3: if (b.size() > 3) { b[1] = (char) s.draw(255); b[2] = (char) s.draw(255); } break;
            default: b[s.draw(b.size() - 1)] ^= (char) (1 << s.draw(7)); break;
        }
        // the AMF parser is the system's librtmp, not this project's; its AMF3 part, reached through marker 0x11, crashes on damaged values
        for (auto& ch : b) if (ch == 0x11) ch = 0x10;
        int type = s.chance(1, 2) ? m.type : (int) s.draw(30);
        c.mix(b); c.mix(Bytes(1, (char) type));
        if (c.want_desc) c.desc << "damaged message type " << type << ": " << pbt::hex(b, 200);
        Pkt p(b, type);
        PIRTMPPacket r;
        error_t e = RtmpPacketDecoder::decode(p.w, r);
        bool amf = type == 15 || type == 17 || type == 18 || type == 20;
        if (e == SUCCESS && r && amf) {
            // what was understood lies inside the message
            auto* cmd = dynamic_cast<CommandRtmpPacket*>(r.get());
            CHECK_MSG(cmd, "not a command");
            auto inside = [&](const AVal& v) { return v.av_len == 0 || (v.av_val >= (char*) p.h.p && v.av_val + v.av_len <= (char*) p.h.p + p.h.n); };
            CHECK_MSG(inside(cmd->name), "name outside the message");
            if (auto* k = dynamic_cast<ConnectRtmpPacket*>(r.get())) CHECK_MSG(inside(k->app) && inside(k->tc_url), "value outside the message");
            if (auto* k = dynamic_cast<NetStreamRtmpPacket*>(r.get())) CHECK_MSG(k->stream_params.size() <= p.h.n, "stream longer than the message");
            c.label("understood");
        }
        c.label("damaged");
        c.nontrivial = b.size() > 2;
        return;
    }
    Msg m = gen_msg(s);
    c.mix(m.body); c.mix(Bytes(1, (char) m.type));
    if (c.want_desc) c.desc << "type " << m.type << " " << m.name << " txn " << m.txn << " defect " << m.defect << " app '" << m.app << "' url '" << m.url << "' stream '" << m.stream << "' mode '" << m.mode << "': " << pbt::hex(m.body, 300);
    Pkt p(m.body, m.type);
    PIRTMPPacket r;
    error_t e = RtmpPacketDecoder::decode(p.w, r);
    if (m.defect || !m.known) {
        CHECK_MSG(e != SUCCESS || !r, "a command " << (m.known ? "with a missing or mistyped field" : "of another name") << " was accepted");
        c.label(m.known ? "refused" : "unknown");
        c.nontrivial = true;
        return;
    }
    CHECK_MSG(e == SUCCESS && r, m.name << " refused: " << e);
    auto* cmd = dynamic_cast<CommandRtmpPacket*>(r.get());
    CHECK_MSG(cmd, "not a command");
    CHECK_MSG(str(cmd->name) == m.name, "name " << str(cmd->name) << " expected " << m.name);
    CHECK_MSG(memcmp(&cmd->transaction_id, &m.txn, 8) == 0, "transaction " << cmd->transaction_id << " expected " << m.txn);
    auto* net = dynamic_cast<NetStreamRtmpPacket*>(r.get());
    if (m.name == "connect") {
        auto* k = dynamic_cast<ConnectRtmpPacket*>(r.get());
        CHECK_MSG(k, "not a connect");
        CHECK_MSG(str(k->app) == m.app, "app '" << str(k->app) << "' expected '" << m.app << "'");
        CHECK_MSG(str(k->tc_url) == m.url, "tcUrl '" << str(k->tc_url) << "' expected '" << m.url << "'");
    } else if (m.name == "createStream") CHECK_MSG(dynamic_cast<CreateStreamRtmpPacket*>(r.get()), "not a createStream");
    else {
        CHECK_MSG(net, "not a stream command");
        CHECK_MSG(net->stream_params == m.stream, "stream '" << net->stream_params << "' expected '" << m.stream << "'");
        if (m.name == "play") CHECK_MSG(dynamic_cast<PlayRtmpPacket*>(r.get()), "not a play");
        if (m.name == "publish") {
            auto* k = dynamic_cast<PublishRtmpPacket*>(r.get());
            CHECK_MSG(k, "not a publish");
            CHECK_MSG(k->publish_type == m.mode, "mode '" << k->publish_type << "' expected '" << m.mode << "'");
        }
        if (m.name == "releaseStream") CHECK_MSG(dynamic_cast<ReleaseStreamRtmpPacket*>(r.get()), "not a releaseStream");
        if (m.name == "FCPublish") CHECK_MSG(dynamic_cast<FCPublishRtmpPacket*>(r.get()), "not an FCPublish");
    }
    c.label(m.name);
    c.label_if(m.type == 17, "type-17");
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P23";
    a.rule = "two thirds commands from an independent AMF0 encoder (six commands, properties in any order with decoy names and nested objects, a third with a missing or mistyped field, some of other names, message types 17 and 20), one third damaged or arbitrary messages of any type (without the AMF3 marker 0x11, whose parser in the system librtmp is not memory safe); every message in a heap block of its own; non-trivial: a message of more than two bytes; distinct by message";
    a.body = p23; a.setup = setup; a.quick_cases = 2500000; a.thorough_cases = 60000000;
    return pbt::run_main(argc, argv, {a});
}
