// Independent RTMP peer: handshake, chunk streams and AMF0, on byte strings.
#pragma once
#include <map>
#include <math.h>
#include <string.h>
#include "common.hpp"

namespace rtmpm {
inline Bytes num(double d) { uint64_t v; memcpy(&v, &d, 8); return Bytes(1, 0) + be(v, 8); }
inline Bytes str(const Bytes& b) { return Bytes("\x02", 1) + be(b.size(), 2) + b; }
inline Bytes null() { return Bytes("\x05", 1); }
inline Bytes name(const Bytes& b) { return be(b.size(), 2) + b; }
inline Bytes end() { return Bytes("\0\0\x09", 3); }

struct Msg {
    int type = 0; uint32_t ts = 0; uint32_t sid = 0; Bytes body;
    int csid = 3;
    std::string str() const { std::ostringstream o; o << "(type=" << type << " ts=" << ts << " sid=" << sid << " n=" << body.size() << ")"; return o.str(); }
};

// writes messages as chunks
struct Writer {
    size_t chunk = 128;
    struct State { bool any = false; uint32_t ts = 0, delta = 0; size_t len = 0; int type = 0; uint32_t sid = 0; };
    std::map<int, State> st;
    static Bytes basic(int fmt, int csid) {
        if (csid < 64) return be((unsigned) (fmt << 6 | csid), 1);
        if (csid < 320) return be((unsigned) (fmt << 6), 1) + be((unsigned) (csid - 64), 1);
        return be((unsigned) (fmt << 6 | 1), 1) + be((unsigned) ((csid - 64) & 255), 1) + be((unsigned) ((csid - 64) >> 8), 1);
    }
    // the chunks of a message; `fmt` is a wish, used where the history of the chunk stream allows it
    std::vector<Bytes> chunks(const Msg& m, int fmt) {
        State& s = st[m.csid];
        uint32_t d = m.ts - s.ts;
        if (!s.any || m.ts < s.ts || m.sid != s.sid) fmt = 0;
        if (fmt == 3 && (d != s.delta || m.body.size() != s.len || m.type != s.type)) fmt = 2;
        if (fmt == 2 && (m.body.size() != s.len || m.type != s.type)) fmt = 1;
        uint32_t t = fmt == 0 ? m.ts : d;
        bool ext = t >= 0xffffff;
        if (fmt == 3 && ext) fmt = 2;
        Bytes h = basic(fmt, m.csid);
        if (fmt < 3) h += be(ext ? 0xffffff : t, 3);
        if (fmt < 2) h += be(m.body.size(), 3) + be((unsigned) m.type, 1);
        if (fmt == 0) for (int i = 0; i < 4; ++i) h += (char) (m.sid >> (8 * i));
        if (fmt < 3 && ext) h += be(t, 4);
        std::vector<Bytes> o;
        size_t at = 0;
        do {
            size_t n = std::min(chunk, m.body.size() - at);
            o.push_back((at ? basic(3, m.csid) + (ext ? be(t, 4) : Bytes()) : h) + m.body.substr(at, n));
            at += n;
        } while (at < m.body.size());
        s.any = true; s.ts = m.ts; s.delta = t; s.len = m.body.size(); s.type = m.type; s.sid = m.sid;
        return o;
    }
};

// reads messages from chunks
struct Reader {
    size_t chunk = 128;
    Bytes in;
    size_t at = 0;
    struct State { bool any = false, ext = false; uint32_t ts = 0, delta = 0, sid = 0; size_t len = 0; int type = 0; Bytes buf; };
    std::map<int, State> st;
    std::string err;
    // appends the complete messages
    void read(const Bytes& more, std::vector<Msg>& out) {
        in += more;
        while (err.empty() && one(out)) {}
        if (at > 65536) { in.erase(0, at); at = 0; }
    }
    bool one(std::vector<Msg>& out) {
        size_t p = at;
        auto need = [&](size_t n) { return in.size() - p >= n; };
        if (!need(1)) return false;
        int b = (int) rd(in, p++, 1), fmt = b >> 6, cs = b & 63;
        if (cs == 0) { if (!need(1)) return false; cs = 64 + (int) rd(in, p++, 1); }
        else if (cs == 1) { if (!need(2)) return false; cs = 64 + (int) rd(in, p, 1) + 256 * (int) rd(in, p + 1, 1); p += 2; }
        State n = st[cs];
        static const size_t hs[] = {11, 7, 3, 0};
        if (!need(hs[fmt])) return false;
        if (fmt && !n.any) { err = "chunk type " + std::to_string(fmt) + " opens chunk stream " + std::to_string(cs); return false; }
        bool fresh = n.buf.empty();
        if (fmt < 3 && !fresh) { err = "a message starts inside another on chunk stream " + std::to_string(cs); return false; }
        uint32_t t = n.delta;
        if (fmt < 3) { t = (uint32_t) rd(in, p, 3); n.ext = t == 0xffffff; }
        if (fmt < 2) { n.len = rd(in, p + 3, 3); n.type = (int) rd(in, p + 6, 1); }
        if (fmt == 0) { n.sid = 0; for (int i = 0; i < 4; ++i) n.sid |= (uint32_t) rd(in, p + 7 + (size_t) i, 1) << (8 * i); }
        p += hs[fmt];
        if (n.ext) { if (!need(4)) return false; uint32_t e = (uint32_t) rd(in, p, 4); p += 4; if (fmt < 3) t = e; }
        if (fresh) { n.ts = fmt == 0 ? t : n.ts + t; n.delta = t; }
        n.any = true;
        size_t k = std::min(chunk, n.len - n.buf.size());
        if (!need(k)) return false;
        n.buf += in.substr(p, k);
        at = p + k;
        if (n.buf.size() == n.len) {
            Msg m; m.type = n.type; m.ts = n.ts; m.sid = n.sid; m.body = n.buf; m.csid = cs;
            n.buf.clear();
            if (m.type == 1 && m.body.size() >= 4) chunk = rd(m.body, 0, 4);
            out.push_back(m);
        }
        st[cs] = n;
        return true;
    }
};

// a decoded AMF0 value as text, for comparison; advances `at`
inline std::string amf(const Bytes& b, size_t& at) {
    if (at >= b.size()) { at = Bytes::npos; return "?"; }
    auto props = [&]() {
        std::string o = "{";
        while (true) {
            if (at == Bytes::npos || at + 2 > b.size()) { at = Bytes::npos; return std::string("?"); }
            size_t n = rd(b, at, 2);
            if (at + 2 + n > b.size()) { at = Bytes::npos; return std::string("?"); }
            Bytes k = b.substr(at + 2, n);
            at += 2 + n;
            if (n == 0 && at < b.size() && b[at] == 9) { ++at; return o + "}"; }
            o += k + "=" + amf(b, at) + ";";
            if (at == Bytes::npos) return std::string("?");
        }
    };
    int t = b[at++];
    switch (t) {
        case 0: { if (at + 8 > b.size()) break; uint64_t v = rd(b, at, 8); double d; memcpy(&d, &v, 8); at += 8; std::ostringstream o; o.precision(17); o << d; return o.str(); }
        case 1: { if (at >= b.size()) break; return b[at++] ? "true" : "false"; }
        case 2: { if (at + 2 > b.size()) break; size_t n = rd(b, at, 2); if (at + 2 + n > b.size()) break; Bytes v = b.substr(at + 2, n); at += 2 + n; return "'" + v + "'"; }
        case 3: return props();
        case 5: return "null";
        case 6: return "undefined";
        case 8: at += 4; return props();
        default: break;
    }
    at = Bytes::npos;
    return "?";
}
inline std::string amf_all(const Bytes& b) {
    std::string o;
    for (size_t at = 0; at < b.size();) { o += amf(b, at) + " "; if (at == Bytes::npos) break; }
    return o;
}
}  // namespace rtmpm
