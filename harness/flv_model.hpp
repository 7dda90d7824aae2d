// Independent FLV writer and parser used as oracle.
#pragma once
#include "common.hpp"

struct MPkt {
    int type = 9;           // 8 audio, 9 video, 18 script
    uint32_t dts = 0;
    int32_t cts = 0;        // video frames other than info frames
    uint8_t flags = 0;      // first payload byte (audio, video)
    uint8_t ptype = 1;      // packet type byte (audio, video other than info frames)
    Bytes data;
    bool info() const { return type == 9 && (flags & 0xf0) == 0x50; }
    bool key() const { return type == 9 && (flags & 0xf0) == 0x10; }
    size_t head() const { return type == 18 ? 0 : type == 8 ? 2 : info() ? 1 : 5; }
    std::string str() const {
        std::ostringstream o;
        o << (type == 8 ? "A" : type == 9 ? "V" : "S") << "(f=" << std::hex << (int) flags << std::dec << " t=" << (int) ptype
          << " dts=" << dts << " cts=" << cts << " n=" << data.size() << ")";
        return o.str();
    }
    Bytes body() const {
        Bytes b;
        if (type == 8) { b += (char) flags; b += (char) ptype; }
        if (type == 9) { b += (char) flags; if (!info()) { b += (char) ptype; b += be((uint32_t) cts & 0xffffff, 3); } }
        return b + data;
    }
};
inline bool operator==(const MPkt& a, const MPkt& b) {
    if (a.type != b.type || a.dts != b.dts || a.data != b.data) return false;
    if (a.type == 18) return true;
    if (a.flags != b.flags) return false;
    if (a.info()) return true;
    return a.ptype == b.ptype && (a.type == 8 || a.cts == b.cts);
}

static const size_t kFlvMaxTag = 1 << 20;

inline Bytes flv_header(uint8_t flags = 5) { return Bytes("FLV\x01", 4) + (char) flags + be(9, 4); }
// appends one back-pointer and tag
inline void flv_tag(Bytes& out, const MPkt& p, uint32_t& prev) {
    Bytes b = p.body();
    out += be(prev, 4);
    out += (char) p.type;
    out += be(b.size(), 3);
    out += be(p.dts & 0xffffff, 3);
    out += (char) (p.dts >> 24);
    out += be(0, 3);
    out += b;
    prev = 11 + (uint32_t) b.size();
}
// parses tags from `at`; returns false at the first damaged or incomplete tag, true at a clean end.
// strict: back-pointers and stream ids must be right as well
inline bool flv_parse(const Bytes& d, size_t& at, std::vector<MPkt>& out, bool strict, std::string* why = nullptr) {
    uint32_t prev = 0;
    auto bad = [&](const char* m) { if (why) *why = std::string(m) + " at " + std::to_string(at); return false; };
    while (at < d.size()) {
        if (d.size() - at < 15) return bad("incomplete tag head");
        MPkt p;
        size_t n = rd(d, at + 5, 3);
        if (strict && rd(d, at, 4) != prev) return bad("wrong back-pointer");
        if (strict && rd(d, at + 12, 3) != 0) return bad("stream id not zero");
        p.type = (uint8_t) d[at + 4];
        p.dts = (uint32_t) (rd(d, at + 8, 3) | rd(d, at + 11, 1) << 24);
        if (n > kFlvMaxTag) return bad("tag too large");
        if (d.size() - at - 15 < n) return bad("incomplete tag");
        size_t q = at + 15, e = q + n;
        if (p.type == 8) {
            if (n < 3) return bad("audio tag too short");
            p.flags = (uint8_t) d[q]; p.ptype = (uint8_t) d[q + 1]; q += 2;
            if ((p.flags >> 4) != 10) return bad("audio codec");
        } else if (p.type == 9) {
            if (n < 2) return bad("video tag too short");
            p.flags = (uint8_t) d[q];
            if ((p.flags & 15) != 7 && (p.flags & 15) != 12) return bad("video codec");
            if (!p.info()) {
                if (n < 6) return bad("video tag too short");
                p.ptype = (uint8_t) d[q + 1];
                int32_t c = (int32_t) rd(d, q + 2, 3);
                p.cts = c & 0x800000 ? c - 0x1000000 : c;
                q += 5;
            } else q += 1;
        } else if (p.type == 18) {
            if (n < 1) return bad("empty script");
        } else return bad("unknown tag type");
        p.data = d.substr(q, e - q);
        out.push_back(p);
        prev = 11 + (uint32_t) n;
        at = e;
    }
    return true;
}

inline uint32_t gen_dts(Src& s) {
    switch (s.weighted({4, 2, 2, 2})) {
        case 0: return (uint32_t) s.skew(0, 100000);
        case 1: return (uint32_t) (0xffffff + s.range(-2, 2));
        case 2: return (uint32_t) s.draw(UINT32_MAX);
        default: return (uint32_t) (s.pick<int64_t>({0x7fffffffll, 0xffffffffll, 0x80000000ll, 0x1000000ll, 0xff000000ll}) - (int64_t) s.draw(2));
    }
}
inline MPkt gen_mpkt(Src& s, size_t maxlen = 300) {
    MPkt p;
    switch (s.weighted({5, 4, 1})) {
        case 0:
            p.type = 9;
            p.flags = (uint8_t) (s.pick<int>({0x20, 0x10, 0x50, 0x30, 0x40, 0x00, 0xf0}) | s.pick<int>({7, 7, 12}));
            p.ptype = (uint8_t) s.pick<int>({1, 0, 2});
            p.cts = (int32_t) (s.boolean() ? s.skew(0, 500) : s.range(-0x800000, 0x7fffff));
            break;
        case 1:
            p.type = 8;
            p.flags = (uint8_t) (0xa0 | s.draw(15));
            p.ptype = (uint8_t) s.pick<int>({1, 0});
            break;
        default: p.type = 18; p.ptype = 0;
    }
    if (p.type == 9 && p.info()) { p.cts = 0; p.ptype = 0; }
    p.dts = gen_dts(s);
    p.data = s.blob((size_t) s.skew(1, (int64_t) maxlen));
    return p;
}
