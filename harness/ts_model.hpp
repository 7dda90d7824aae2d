// An independent MPEG-TS multiplexer: generated tables, PES headers, adaptation fields, packetisation, interleaving.
#pragma once
#include "h264_model.hpp"
#include <map>
#include <set>
#include <deque>

inline uint32_t mpeg_crc(const Bytes& b) {
    uint32_t c = 0xffffffff;
    for (char ch : b) {
        c ^= (uint32_t) (uint8_t) ch << 24;
        for (int i = 0; i < 8; ++i) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1;
    }
    return c;
}
inline Bytes psi_section(int table, int ext, int version, int current, const Bytes& body, int number = 0, int last = 0) {
    Bytes b = be((uint64_t) table, 1) + be(0xb000 | (5 + body.size() + 4), 2) + be((uint64_t) ext, 2) + be(0xc0 | version << 1 | current, 1) + be((uint64_t) number, 1) + be((uint64_t) last, 1) + body;
    return b + be(mpeg_crc(b), 4);
}
inline Bytes ts_time(int prefix, uint64_t t) {
    return be((uint64_t) prefix << 4 | (t >> 30 & 7) << 1 | 1, 1) + be((t >> 15 & 0x7fff) << 1 | 1, 2) + be((t & 0x7fff) << 1 | 1, 2);
}

struct TsPkt {
    Bytes b;
    int pid;
    bool start = false;     // first packet of a unit or section
    int unit = -1;          // index of the unit (PES) it carries
    bool payload = true, dup = false, jump = false;
    bool pat_done = false;  // last packet of the program association section that names the program
    bool pmt_start = false, pmt_done = false;   // first and last packet of the program map section
    bool broken = false;    // packets of the section were lost
};

// the content of an adaptation field (after its length byte) of at least `min` bytes and at most `max`
inline Bytes gen_adaptation(Src& s, size_t min, size_t max, bool discont = false) {
    // a length byte only
    if (max == 0) return "";
    Bytes f, body;
    int flags = discont ? 0x80 : 0;
    if (s.chance(1, 4)) flags |= 0x40;
    if (s.chance(1, 8)) flags |= 0x20;
    auto fits = [&](size_t n) { return 1 + body.size() + n <= max; };
    if (s.chance(1, 3) && fits(6)) { flags |= 0x10; body += s.blob(6); }
    if (s.chance(1, 8) && fits(6)) { flags |= 0x08; body += s.blob(6); }
    if (s.chance(1, 8) && fits(1)) { flags |= 0x04; body += s.blob(1); }
    if (s.chance(1, 6)) { size_t n = (size_t) s.skew(0, 40); if (fits(1 + n)) { flags |= 0x02; body += be(n, 1) + s.blob(n); } }
    if (s.chance(1, 6)) {
        int ef = (int) s.draw(7);
        Bytes e = be((uint64_t) ef << 5 | 0x1f, 1);
        if (ef & 4) e += s.blob(2);
        if (ef & 2) e += s.blob(3);
        if (ef & 1) e += s.blob(5);
        if (fits(1 + e.size())) { flags |= 0x01; body += be(e.size(), 1) + e; }
    }
    f = be((uint64_t) flags, 1) + body;
    if (f.size() < min) f += Bytes(min - f.size(), '\xff');
    return f;
}

struct TsMux {
    std::map<int, int> cc;
    Src& s;
    bool jumps = true, simple = false;      // simple: tables of one packet each
    bool plain;     // adaptation fields only where needed
    explicit TsMux(Src& s) : s(s) { plain = s.chance(1, 3); }
    int& counter(int pid) {
        auto it = cc.find(pid);
        if (it == cc.end()) it = cc.emplace(pid, (int) s.draw(15)).first;
        return it->second;
    }
    // one packet carrying a prefix of payload[at...]; at least `need` bytes of it
    TsPkt one(int pid, bool start, const Bytes& payload, size_t& at, size_t need, bool psi) {
        size_t left = payload.size() - at;
        TsPkt p;
        p.pid = pid; p.start = start;
        size_t room = 184;
        Bytes af;
        bool has_af = false;
        if (!psi) {
            if (left < 184) has_af = true;                      // stuffing
            else if (!plain && s.chance(1, 4)) has_af = true;
        }
        size_t take;
        if (has_af) {
            size_t maxtake = std::min<size_t>(left, 183);       // one byte for the length
            size_t lo = std::min(std::max<size_t>(need, 1), maxtake);
            take = plain || s.chance(3, 4) ? maxtake : (size_t) s.range((int64_t) lo, (int64_t) maxtake);
            size_t aflen = 183 - take;                           // adaptation_field_length
            if (!plain && left >= 184 && s.boolean()) { take = std::max<size_t>(lo, maxtake - std::min<size_t>(maxtake - lo, 20)); aflen = 183 - take; }
            bool jump = aflen && !plain && jumps && s.chance(1, 40);      // the counter may jump where the indicator says so
            if (jump) { counter(pid) = (int) s.draw(15); p.jump = true; }
            af = be(aflen, 1) + (aflen ? gen_adaptation(s, aflen, aflen, jump) : "");
        } else take = std::min(room, left);
        Bytes pl = payload.substr(at, take);
        if (psi) pl += Bytes(184 - take, '\xff');
        at += take;
        int& k = counter(pid);
        p.b = header(pid, start, (has_af ? 2 : 0) | 1, k) + af + pl;
        k = (k + 1) & 15;
        if (p.b.size() != 188) { fprintf(stderr, "ts model: packet of %zu\n", p.b.size()); abort(); }
        return p;
    }
    Bytes header(int pid, bool start, int afc, int k) {
        int prio = s.chance(1, 20) ? 1 : 0;
        return be(0x47, 1) + be((uint64_t) (start ? 0x4000 : 0) | prio << 13 | pid, 2) + be((uint64_t) afc << 4 | (k & 15), 1);
    }
    // adaptation field only; the counter does not advance
    TsPkt empty(int pid) {
        TsPkt p;
        p.pid = pid; p.payload = false;
        p.b = header(pid, false, 2, counter(pid) + 15) + be(183, 1) + gen_adaptation(s, 183, 183);
        return p;
    }
    std::vector<TsPkt> pes(int pid, const Bytes& unit, size_t head, int index) {
        std::vector<TsPkt> o;
        size_t at = 0;
        while (at < unit.size()) {
            if (!o.empty() && !plain && s.chance(1, 12)) { o.push_back(empty(pid)); o.back().unit = index; }
            TsPkt p = one(pid, at == 0, unit, at, at == 0 ? head : 1, false);
            p.unit = index;
            o.push_back(p);
            if (!plain && !p.jump && s.chance(1, 25)) { p.dup = true; o.push_back(p); }
        }
        return o;
    }
    std::vector<TsPkt> section(int pid, const Bytes& sec) {
        std::vector<TsPkt> o;
        size_t ptr = !plain && !simple && s.chance(1, 6) ? (size_t) s.skew(0, 100) : 0;
        Bytes u = be(ptr, 1) + Bytes(ptr, '\xff') + sec;
        size_t at = 0;
        while (at < u.size()) o.push_back(one(pid, at == 0, u, at, 1, true));
        return o;
    }
    // sections back to back: a packet may hold the end of one, others and the start of another; ends[i] and
    // starts[i] are the packets with the last and the first byte of section i
    std::vector<TsPkt> sections(int pid, const std::vector<Bytes>& secs, std::vector<size_t>& starts, std::vector<size_t>& ends) {
        std::vector<TsPkt> o;
        std::vector<size_t> begin;
        Bytes u;
        for (auto& x : secs) { begin.push_back(u.size()); u += x; }
        starts.assign(secs.size(), 0); ends.assign(secs.size(), 0);
        size_t at = 0;
        while (at < u.size()) {
            size_t next = u.size();
            for (size_t k : begin) if (k >= at) { next = k; break; }
            bool start = next < u.size() && next - at < 183;
            bool shrink = next < u.size() && next - at == 183;          // the start would be at the last byte
            size_t room = start || shrink ? 183 : 184, take = std::min(room, u.size() - at);
            Bytes pl = (start ? be(next - at, 1) : "") + u.substr(at, take);
            pl += Bytes((shrink ? 183 : 184) - pl.size(), '\xff');
            TsPkt p;
            p.pid = pid; p.start = start;
            int& k = counter(pid);
            p.b = header(pid, start, shrink ? 3 : 1, k) + (shrink ? be(0, 1) : Bytes()) + pl;
            k = (k + 1) & 15;
            if (p.b.size() != 188) { fprintf(stderr, "ts model: packet of %zu\n", p.b.size()); abort(); }
            for (size_t i = 0; i < secs.size(); ++i) {
                if (begin[i] >= at && begin[i] < at + take) starts[i] = o.size();
                size_t last = begin[i] + secs[i].size() - 1;
                if (last >= at && last < at + take) ends[i] = o.size();
            }
            at += take;
            o.push_back(p);
        }
        return o;
    }
};

// PES header and payload; head is the size of the header
inline Bytes gen_pes(Src& s, int stream_id, const Bytes& es, uint64_t pts, uint64_t dts, bool bounded, size_t& head, size_t maxhead = 150) {
    bool two = dts != pts || s.chance(1, 3);
    Bytes opt = two ? ts_time(3, pts) + ts_time(1, dts) : ts_time(2, pts);
    int f2 = two ? 0xc0 : 0x80;
    bool rich = s.chance(1, 6);
    if (rich) {
        auto fits = [&](size_t n) { return 9 + opt.size() + n <= maxhead; };
        if (s.chance(1, 3) && fits(6)) { f2 |= 0x20; opt += s.blob(6); }
        if (s.chance(1, 3) && fits(3)) { f2 |= 0x10; opt += s.blob(3); }
        if (s.chance(1, 4) && fits(1)) { f2 |= 0x08; opt += s.blob(1); }
        if (s.chance(1, 4) && fits(1)) { f2 |= 0x04; opt += s.blob(1); }
        if (s.chance(1, 4) && fits(2)) { f2 |= 0x02; opt += s.blob(2); }
        if (s.chance(1, 3)) {
            int ef = 0x0e; Bytes e;
            if (s.chance(1, 3)) { ef |= 0x80; e += s.blob(16); }
            if (s.chance(1, 3)) { size_t n = (size_t) s.skew(0, 30); ef |= 0x40; e += be(n, 1) + s.blob(n); }
            if (s.chance(1, 3)) { ef |= 0x20; e += s.blob(2); }
            if (s.chance(1, 3)) { ef |= 0x10; e += s.blob(2); }
            if (s.chance(1, 3)) { size_t n = (size_t) s.skew(0, 30); ef |= 0x01; e += be(0x80 | n, 1) + s.blob(n); }
            if (fits(1 + e.size())) { f2 |= 0x01; opt += be((uint64_t) ef, 1) + e; }
        }
    }
    if (s.chance(1, 5)) { size_t n = (size_t) s.skew(0, 32); if (9 + opt.size() + n <= maxhead) opt += Bytes(n, '\xff'); }
    size_t plen = 3 + opt.size() + es.size();
    if (plen > 65535) bounded = false;
    head = 9 + opt.size();
    return be(1, 3) + be((uint64_t) stream_id, 1) + be(bounded ? plen : 0, 2) + be(0x80 | (s.chance(1, 3) ? 4 : 0), 1) + be((uint64_t) f2, 1) + be(opt.size(), 1) + opt + es;
}

struct TsUnit {
    bool video = false, ignored = false;
    std::vector<Nal> nals;
    std::vector<Adts> frames;
    uint64_t dts = 0, pts = 0;
    size_t size = 0;
    bool bounded = false;
    bool lost = false;               // packets of it were lost
};
struct TsStream {
    std::vector<TsUnit> units;
    std::vector<TsPkt> pkts;         // in transmission order
    int vpid = 0, apid = 0, pmt = 0;
    std::vector<int> done;           // units expected to come out, in order
    bool junk = false, big = false, split_pmt = false, dups = false, losses = false, packed = false, psi_losses = false;
};

inline Bytes annexb(Src& s, const std::vector<Nal>& ns) {
    Bytes o;
    for (auto& n : ns) o += s.pick<Bytes>({Bytes("\0\0\0\1", 4), Bytes("\0\0\1", 3), Bytes("\0\0\0\1", 4)}) + n.b;
    if (s.chance(1, 10)) o += Bytes((size_t) s.range(1, 3), '\0');
    return o;
}

inline TsStream gen_ts(Src& s, size_t max_units = 12, bool simple = false) {
    TsStream t;
    TsMux m(s);
    m.simple = simple;
    std::set<int> used = {0, 1, 2, 0x10, 0x11, 0x12, 0x14, 0x1fff};
    for (int i = 0; i < 50; ++i) used.insert(0x1f00 + i);       // programs of a long PAT
    auto pid = [&]() {
        int p = s.boolean() ? 0x100 + (int) s.draw(3) : (int) s.range(0x20, 0x1ffa);
        while (used.count(p)) p = p >= 0x1ffa ? 0x20 : p + 1;
        used.insert(p);
        return p;
    };
    t.pmt = pid(); t.vpid = pid(); t.apid = pid();
    int other = pid(), nit = pid(), pmt2 = pid();
    bool has_v = !s.chance(1, 8), has_a = !has_v || !s.chance(1, 4), has_o = s.chance(1, 4), other_first = s.boolean();
    // tables
    Bytes pat_body;
    if (!simple && s.chance(1, 4)) pat_body += be(0, 2) + be(0xe000 | nit, 2);            // network information
    pat_body += be((uint64_t) s.range(1, 0xffff), 2) + be(0xe000 | t.pmt, 2);
    bool second = !simple && s.chance(1, 5);
    if (second) pat_body += be(77, 2) + be(0xe000 | pmt2, 2);
    bool long_pat = !simple && s.chance(1, 30);
    if (long_pat) for (int i = 0; i < 50; ++i) pat_body += be(100 + i, 2) + be(0xe000 | (0x1f00 + i), 2);
    auto desc = [&](size_t max) { Bytes d; if (s.chance(1, 3)) { size_t n = (size_t) s.skew(0, (int64_t) max); while (d.size() < n) { size_t k = std::min<size_t>(n - d.size(), 60); d += be(s.draw(255), 1) + be(k, 1) + s.blob(k); } } return d; };
    bool hard = !simple && s.chance(1, 3);        // tables packed, repeated, lost
    bool psi_losses = hard && s.chance(1, 2);
    size_t dmax = !simple && s.chance(hard ? 3 : 1, 6) ? 250 : 20;
    Bytes pinfo = desc(dmax);
    int pcr = s.boolean() ? t.vpid : s.boolean() ? t.apid : 0x1fff;
    Bytes pmt_body = be(0xe000 | pcr, 2) + be(0xf000 | pinfo.size(), 2) + pinfo;
    auto es = [&](int type, int p) { Bytes d = desc(dmax); pmt_body += be((uint64_t) type, 1) + be(0xe000 | p, 2) + be(0xf000 | d.size(), 2) + d; };
    int other_type = s.pick<int>({0x06, simple ? 0x06 : 0x24, 0x03, 0x15, 0x81});
    if (has_o && other_first) es(other_type, other);
    if (has_v) es(0x1b, t.vpid);
    if (has_a) es(0x0f, t.apid);
    if (has_o && !other_first) es(other_type, other);
    int ver = (int) s.draw(31);
    Bytes pat = psi_section(0, 1, ver, 1, pat_body), pmt = psi_section(2, 1, ver, 1, pmt_body);
    // not applicable yet: other streams, or the same with other contents
    Bytes next_body = be(0xffff, 2) + be(0xf000, 2);
    if (s.boolean()) for (int p : {other, t.vpid, t.apid}) next_body += be(p == t.vpid ? 0x0f : 0x1b, 1) + be(0xe000 | p, 2) + be(0xf000, 2);
    Bytes pmt_next = psi_section(2, 1, (ver + 1) & 31, 0, next_body);
    // pids of programs of other tables
    Bytes sdt = psi_section(0x42, 1, 0, 1, be(1, 2) + be(0xff, 1) + s.blob((size_t) s.skew(0, 60)));

    // units
    std::deque<TsPkt> v, a, o;
    Adts last; bool have_last = false;
    size_t nu = (size_t) s.skew(2, (int64_t) max_units);
    uint64_t now = s.chance(1, 4) ? (1ull << 33) - 1 - s.draw(200000) - 1000000 : s.chance(1, 4) ? s.draw((1ull << 33) - 1000000) : s.draw(100000);
    bool losses = s.chance(1, 6);
    if (losses) m.jumps = false;                // a jump would hide the loss
    size_t bigleft = !simple && s.chance(1, 12) ? 1 : 0;
    for (size_t i = 0; i < nu; ++i) {
        TsUnit u;
        u.video = has_v && (!has_a || s.boolean());
        if (has_o && s.chance(1, 5)) { u.ignored = true; u.video = false; }
        now += s.draw(9000);
        u.dts = u.pts = now;
        if (u.video && s.chance(1, 3)) u.pts = u.dts + s.draw(20000);
        Bytes esb;
        size_t head = 0;
        if (u.ignored) {
            esb = s.blob((size_t) s.skew(1, 600));
        } else if (u.video) {
            size_t max = bigleft && s.chance(1, 2) ? (size_t) s.pick<int>({40000, 65535, 66000, 90000, 400000, 1000000}) : s.chance(1, 4) ? 3000 : 300;
            if (max > 30000) { bigleft = 0; t.big = true; }
            do {
                int ty = gen_nal_type(s);
                if (max > 30000 && u.nals.empty()) {        // really big
                    Nal n; n.b = escape_rbsp(Bytes("\x65", 1) + s.blob(max)); if (n.b.size() > max) { n.b.resize(max - 1); n.b += (char) 0x80; } u.nals.push_back(n);
                } else u.nals.push_back(gen_nal(s, ty, true, std::min<size_t>(max, 3000)));
            } while (s.more(2) && u.nals.size() < 6);
            esb = annexb(s, u.nals);
        } else {
            do { last = gen_adts(s, have_last ? &last : nullptr, s.chance(1, 6) ? 2000 : 200); have_last = true; u.frames.push_back(last); } while (s.more(1) && u.frames.size() < 5);
            for (auto& f : u.frames) esb += f.wire();
        }
        u.bounded = u.video ? s.boolean() : true;
        u.size = esb.size();
        int sid = u.ignored ? 0xbd : u.video ? 0xe0 + (int) s.skew(0, 15) : 0xc0 + (int) s.skew(0, 31);
        Bytes p = gen_pes(s, sid, esb, u.pts, u.dts, u.bounded, head);
        if (rd(p, 4, 2) == 0) u.bounded = false;
        auto pk = m.pes(u.ignored ? other : u.video ? t.vpid : t.apid, p, head, (int) t.units.size());
        if (losses && s.chance(1, 4)) {         // packets after the first are lost
            std::vector<TsPkt> kept;
            size_t first = (size_t) s.skew(1, 8), k = 0, n = (size_t) s.skew(1, 14);
            bool dropping = false;
            for (auto& x : pk) {
                if (x.payload && !x.dup) { dropping = k >= first && k < first + n; ++k; }
                if (x.payload && dropping) { u.lost = true; continue; }
                kept.push_back(x);
            }
            pk.swap(kept);
            if (u.lost) t.losses = true;
        }
        auto& q = u.ignored ? o : u.video ? v : a;
        q.insert(q.end(), pk.begin(), pk.end());
        t.units.push_back(u);
    }
    // transmission: tables first (possibly after packets that cannot be used yet), then an interleaving with repeated tables
    std::deque<TsPkt> psi;
    // the section that matters is in packets first..last
    auto damage = [&](std::vector<TsPkt>& x, size_t first, size_t last) {
        if (!hard) return;
        std::vector<TsPkt> y;
        bool lost = false;
        size_t dropped = 0;
        for (size_t i = 0; i < x.size(); ++i) {
            // never many: sixteen in a row could not be told from none
            if (psi_losses && x.size() > 1 && dropped < 12 && s.chance(1, 6)) { lost |= i >= first && i <= last; ++dropped; t.psi_losses = true; continue; }
            y.push_back(x[i]);
            if (s.chance(1, 8)) { TsPkt d = x[i]; d.dup = true; y.push_back(d); }
        }
        if (lost) for (auto& p : y) p.broken = true;
        x.swap(y);
    };
    auto put = [&](std::vector<TsPkt>& x) { psi.insert(psi.end(), x.begin(), x.end()); };
    bool two_pats = hard && s.chance(1, 4);
    auto pat_packets = [&]() {
        std::vector<TsPkt> x;
        std::vector<size_t> b, e;
        size_t at = 0;
        if (two_pats) {         // the association takes two sections
            bool first = s.boolean();
            Bytes far = be(555, 2) + be(0xe000 | nit, 2);
            x = m.sections(0, {psi_section(0, 1, ver, 1, first ? pat_body : far, 0, 1), psi_section(0, 1, ver, 1, first ? far : pat_body, 1, 1)}, b, e);
            at = first ? 0 : 1;
            t.packed = true;
        } else if (hard && s.chance(1, 4)) {        // after a section of another table
            x = m.sections(0, {psi_section(0xc0, 1, 0, 1, s.blob((size_t) s.skew(0, 200))), pat}, b, e);
            at = 1;
            t.packed = true;
        } else { x = m.section(0, pat); b = {0}; e = {x.size() - 1}; }
        x[e[at]].pat_done = true;
        damage(x, b[at], e[at]);
        return x;
    };
    auto tables = [&]() {
        auto x = pat_packets();
        put(x);
        if (!simple && s.chance(1, 8)) { auto z = m.section(0x11, sdt); put(z); }
        if (!simple && s.chance(1, 12)) { auto z = m.section(t.pmt, pmt_next); put(z); }
        std::vector<TsPkt> y;
        std::vector<size_t> b, e;
        size_t at = 0;
        if (hard && s.chance(1, 3)) {       // the map among other sections of its pid
            std::vector<Bytes> secs;
            auto others = [&] { for (int i = (int) s.draw(2); i > 0; --i) secs.push_back(s.chance(1, 3) ? pmt_next : psi_section(0xc0 + (int) s.draw(2), 7, 0, 1, s.blob((size_t) (s.chance(1, 3) ? s.range(150, 190) : s.skew(0, 400))))); };
            others();
            at = secs.size();
            secs.push_back(pmt);
            others();
            y = m.sections(t.pmt, secs, b, e);
            if (secs.size() > 1) t.packed = true;
        } else { y = m.section(t.pmt, pmt); b = {0}; e = {y.size() - 1}; }
        if (b[at] != e[at]) t.split_pmt = true;
        y[b[at]].pmt_start = true;
        y[e[at]].pmt_done = true;
        damage(y, b[at], e[at]);
        if (hard && y.size() > 1 && s.chance(1, 2)) {       // the association once more while the map is under way
            auto z = pat_packets();
            y.insert(y.begin() + (long) s.range(1, (int64_t) y.size() - 1), z.begin(), z.end());
        }
        put(y);
        if (second && s.boolean()) { auto z = m.section(pmt2, psi_section(2, 77, 0, 1, be(0xffff, 2) + be(0xf000, 2))); put(z); }
        if (!simple && s.chance(1, 10)) { auto z = m.section(nit, psi_section(0x40, 1, 0, 1, s.blob(20))); put(z); }
    };
    tables();
    std::vector<TsPkt>& out = t.pkts;
    auto take = [&](std::deque<TsPkt>& q) { out.push_back(q.front()); q.pop_front(); };
    if (!simple && s.chance(1, 6)) {           // media before the tables: the unit under way is lost, nothing else
        t.junk = true;
        size_t k = (size_t) s.skew(1, 6);
        while (k--) { auto& q = v.empty() || (s.boolean() && !a.empty()) ? a : v; if (!q.empty()) take(q); }
    }
    bool tables_whole = simple || !s.chance(1, 6);
    if (tables_whole) while (!psi.empty()) take(psi);
    size_t period = (size_t) s.range(psi_losses ? 2 : 5, psi_losses ? 15 : 60), n = 0;
    while (!v.empty() || !a.empty() || !o.empty() || !psi.empty()) {
        if (psi.empty() && ++n % period == 0) tables();
        if (s.chance(1, 40)) { TsPkt z; z.pid = 0x1fff; z.payload = false; z.b = m.header(0x1fff, false, 1, 0) + s.blob(184); out.push_back(z); }
        std::vector<std::deque<TsPkt>*> qs;
        for (auto* q : {&v, &a, &o, &psi}) if (!q->empty()) qs.push_back(q);
        auto* q = qs[s.draw(qs.size() - 1)];
        size_t run = (size_t) s.skew(1, 12);
        while (run-- && !q->empty()) take(*q);
    }
    // what comes out: a unit is complete when the next one of its stream starts
    // (a table with packets lost says nothing for sure: later whole ones count)
    bool pat_known = false, pmt_begun = false, known = false;
    std::map<int, int> pending;
    for (auto& p : out) {
        if (p.pmt_start) pmt_begun = pat_known && !p.broken;
        if (p.pmt_done && pmt_begun && !p.broken) known = true;
        if (p.pat_done && !p.broken) pat_known = true;
        if (p.dup) t.dups = true;
        if (p.unit < 0 || !p.payload || !known || !p.start) continue;
        if (t.units[p.unit].ignored) continue;
        auto it = pending.find(p.pid);
        if (it != pending.end() && it->second == p.unit) continue;     // a duplicate of the start
        if (it != pending.end() && !t.units[it->second].lost) t.done.push_back(it->second);
        pending[p.pid] = p.unit;
    }
    return t;
}
inline Bytes ts_bytes(const TsStream& t) { Bytes b; for (auto& p : t.pkts) b += p.b; return b; }

// compares the packets that came out with the expected units
inline void check_ts(const std::list<sps::PAVPacket>& got, const TsStream& t, int64_t div = 90) {
    H264Ref hr; AacRef ar;
    auto it = got.begin();
    auto end = got.end();
    std::list<sps::PAVPacket>::const_iterator ci = it, ce = end;
    for (size_t k = 0; k < t.done.size(); ++k) {
        const TsUnit& u = t.units[t.done[k]];
        std::string w = "unit " + std::to_string(t.done[k]) + (u.video ? " (video)" : " (audio)");
        if (u.video) {
            auto want = hr.unit(u.nals, (int64_t) u.dts / div, (int64_t) u.pts / div);
            std::list<sps::PAVPacket> part;
            for (size_t i = 0; i < want.size() && ci != ce; ++i) part.push_back(*ci++);
            check_h264(part, want, w);
        } else {
            for (auto& f : u.frames) check_aac(ci, ce, ar, f, (int64_t) u.dts / div, (int64_t) u.pts / div, w);
        }
    }
    CHECK_MSG(ci == ce, "packets beyond the expected units: " << std::distance(ci, ce));
}
