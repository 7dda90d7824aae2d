// H.264 and ADTS material shared by the codec, TS and RTP harnesses.
#pragma once
#include "common.hpp"
#include <sps_avformat_packet.hpp>

struct Nal { Bytes b; int type() const { return (uint8_t) b[0] & 31; } };

// emulation prevention, as an encoder does it; the result never ends with 00
inline Bytes escape_rbsp(const Bytes& in) {
    Bytes o;
    int z = 0;
    for (char ch : in) {
        uint8_t c = (uint8_t) ch;
        if (z >= 2 && c <= 3) { o += '\x03'; z = 0; }
        o += ch;
        z = c == 0 ? z + 1 : 0;
    }
    if (!o.empty() && o.back() == 0) o += '\x80';
    return o;
}
// annexb: content must be free of start codes; otherwise any bytes
inline Nal gen_nal(Src& s, int type, bool annexb, size_t max = 3000) {
    Nal n;
    int ref = (int) s.draw(3);
    n.b = Bytes(1, (char) (ref << 5 | type));
    size_t len = (size_t) s.skew(type == 7 ? 3 : type == 10 || type == 11 ? 0 : 1, (int64_t) max);
    Bytes body = s.blob(len);
    if (annexb) { n.b = escape_rbsp(n.b + body); }
    else n.b += body;
    return n;
}
inline int gen_nal_type(Src& s) {
    switch (s.weighted({6, 4, 2, 2, 2, 1, 1})) {
        case 0: return 1;
        case 1: return 5;
        case 2: return 6;
        case 3: return 7;
        case 4: return 8;
        case 5: return 9;
        default: return s.pick<int>({12, 10, 11, 2, 14, 20, 0, 31});
    }
}
struct H264Expect {      // what must come out, in order
    bool config;
    Bytes sps, pps;      // config
    Bytes nal;           // picture or SEI
    int64_t dts, pts;
};
// reference converter: remembers the latest parameter sets
struct H264Ref {
    Bytes sps, pps;
    bool refuse = false;
    std::vector<H264Expect> unit(const std::vector<Nal>& nals, int64_t dts, int64_t pts) {
        std::vector<H264Expect> o;
        bool found = false;
        for (auto& n : nals) {
            if (n.type() == 7) { sps = n.b; found = true; }
            if (n.type() == 8) { pps = n.b; found = true; }
        }
        if (found && !sps.empty()) o.push_back({true, sps, pps, "", 0, 0});
        for (auto& n : nals) if (n.type() == 1 || n.type() == 5 || n.type() == 6) o.push_back({false, "", "", n.b, dts, pts});
        return o;
    }
};
inline Bytes pkt_bytes(const sps::PAVPacket& p) { return Bytes((char*) p->buffer(), (size_t) p->size()); }

inline void check_h264(const std::list<sps::PAVPacket>& got, const std::vector<H264Expect>& want, const std::string& where) {
    size_t i = 0;
    for (auto& p : got) {
        CHECK_MSG(i < want.size(), where << ": more packets than expected, " << got.size() << " instead of " << want.size());
        auto& w = want[i];
        Bytes b = pkt_bytes(p);
        std::string at = where + " packet " + std::to_string(i);
        CHECK_MSG(p->is_video() && p->codecid == sps::H264 && (p->flags & 15) == 7, at << ": not an H.264 video packet");
        if (w.config) {
            CHECK_MSG(p->is_video_sequence_header(), at << ": expected a configuration packet");
            Bytes a = Bytes("\x01", 1) + w.sps.substr(1, 3);
            CHECK_MSG(b.size() >= 8 && b.substr(0, 4) == a, at << ": configuration profile " << pbt::hex(b.substr(0, 4)) << " expected " << pbt::hex(a));
            CHECK_MSG(((uint8_t) b[4] & 3) == 3 && ((uint8_t) b[5] & 31) == 1, at << ": length size or sps count");
            Bytes tail = be(w.sps.size(), 2) + w.sps + (w.pps.empty() ? Bytes(1, 0) : Bytes("\x01", 1) + be(w.pps.size(), 2) + w.pps);
            CHECK_MSG(b.substr(6) == tail, at << ": parameter sets " << pbt::hex(b.substr(6)) << " expected " << pbt::hex(tail));
            CHECK_MSG(p->is_keyframe(), at << ": configuration not marked key");
        } else {
            CHECK_MSG(!p->is_video_sequence_header(), at << ": unexpected configuration packet");
            Bytes t = be(w.nal.size(), 4) + w.nal;
            CHECK_MSG(b == t, at << ": nal " << pbt::hex(b) << " (" << b.size() << ") expected " << pbt::hex(t) << " (" << t.size() << ")");
            int ty = (uint8_t) w.nal[0] & 31;
            CHECK_MSG(p->is_keyframe() == (ty == 5), at << ": keyframe mark of nal type " << ty);
            if (ty == 1) CHECK_MSG((p->flags >> 4) == 2, at << ": frame type of a slice " << (p->flags >> 4));
            CHECK_MSG(p->dts == w.dts && p->pts == w.pts, at << ": times " << p->dts << "/" << p->pts << " expected " << w.dts << "/" << w.pts);
        }
        ++i;
    }
    CHECK_MSG(i == want.size(), where << ": " << i << " packets, expected " << want.size());
}

// ADTS
struct Adts { int profile = 1, rate = 4, chan = 2, crc = 0, id = 0, orig = 0, home = 0, priv = 0, fullness = 0x7ff; Bytes raw;
    Bytes wire() const {
        uint64_t len = raw.size() + 7 + (crc ? 2 : 0);
        uint64_t h = 0xfff;
        h = h << 1 | id; h = h << 2; h = h << 1 | (crc ? 0 : 1);
        h = h << 2 | profile; h = h << 4 | rate; h = h << 1 | priv; h = h << 3 | chan; h = h << 1 | orig; h = h << 1 | home;
        h = h << 2; h = h << 13 | len; h = h << 11 | fullness; h = h << 2;
        return be(h, 7) + (crc ? be(0xabcd, 2) : "") + raw;
    }
    bool same_format(const Adts& o) const { return profile == o.profile && rate == o.rate && chan == o.chan; }
    bool same_header(const Adts& o) const { return same_format(o) && crc == o.crc && orig == o.orig && home == o.home; }
    Bytes config() const { return be((uint64_t) (profile + 1) << 11 | rate << 7 | chan << 3, 2); }
};
inline Adts gen_adts(Src& s, const Adts* prev, size_t max = 2000) {
    Adts a;
    if (prev && !s.chance(1, 5)) a = *prev;
    else {
        a.profile = (int) s.range(0, 3); a.rate = (int) s.range(0, 12); a.chan = (int) s.range(0, 7);
        a.crc = (int) s.draw(1); a.id = (int) s.draw(1); a.orig = (int) s.draw(1); a.home = (int) s.draw(1);
    }
    a.priv = (int) s.draw(1);
    a.fullness = s.boolean() ? 0x7ff : (int) s.draw(0x7ff);
    a.raw = s.blob((size_t) s.skew(1, (int64_t) std::min<size_t>(max, 8191 - 9)));
    return a;
}
struct AacRef { bool have = false; Adts last; };
// walks the packets of the given frames; an extra configuration is allowed when only other header bits changed
inline void check_aac(std::list<sps::PAVPacket>::const_iterator& it, std::list<sps::PAVPacket>::const_iterator end, AacRef& ref,
                      const Adts& f, int64_t dts, int64_t pts, const std::string& where) {
    bool must = !ref.have || !ref.last.same_format(f), may = must || !ref.last.same_header(f);
    auto next = [&]() { CHECK_MSG(it != end, where << ": packet missing"); return *it++; };
    sps::PAVPacket p = next();
    CHECK_MSG(p->is_audio() && p->codecid == sps::AAC && ((p->flags >> 4) & 15) == 10, where << ": not an AAC packet");
    if (p->is_audio_sequence_header()) {
        CHECK_MSG(may, where << ": configuration repeated without a change");
        CHECK_MSG(pkt_bytes(p) == f.config(), where << ": configuration " << pbt::hex(pkt_bytes(p)) << " expected " << pbt::hex(f.config()));
        p = next();
        CHECK_MSG(p->is_audio() && !p->is_audio_sequence_header(), where << ": frame missing after its configuration");
    } else CHECK_MSG(!must, where << ": configuration missing");
    CHECK_MSG(pkt_bytes(p) == f.raw, where << ": frame " << pbt::hex(pkt_bytes(p)) << " (" << p->size() << ") expected " << pbt::hex(f.raw) << " (" << f.raw.size() << ")");
    CHECK_MSG(p->dts == dts && p->pts == pts, where << ": times " << p->dts << "/" << p->pts << " expected " << dts << "/" << pts);
    ref.have = true; ref.last = f;
}
