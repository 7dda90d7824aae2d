// PROPERTIES: P18 P19
// TECHNIQUE P18: property-based testing: an independent multiplexer generates transport streams (tables, PES headers, adaptation fields, splitting, interleaving); the demuxed packets are compared with the frames that went in
// TECHNIQUE P19: fuzzing with structured generators: mutated valid transport streams and crafted headers under AddressSanitizer, with memory-growth and termination oracles
#include "ts_model.hpp"
#include <sps_avformat_tsdec.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();


using namespace sps;
static void setup() { format_log(); }

static void describe(Ctx& c, const TsStream& t) {
    if (!c.want_desc) return;
    c.desc << "pmt " << t.pmt << " video " << t.vpid << " audio " << t.apid << "; units";
    for (auto& u : t.units) {
        c.desc << " [" << (u.ignored ? "other" : u.video ? "video" : "audio") << " " << u.size << (u.bounded ? "" : " unbounded") << (u.lost ? " lost" : "") << " pts " << u.pts << " dts " << u.dts << "]";
    }
    c.desc << "; packets";
    size_t n = 0;
    for (auto& p : t.pkts) { if (n++ > 60) { c.desc << " ..."; break; } c.desc << " " << p.pid << (p.start ? "*" : "") << (p.dup ? "d" : "") << (p.payload ? "" : "e"); }
}

static void p18(Src& s, Ctx& c) {
    TsStream t = gen_ts(s);
    describe(c, t);
    Bytes all = ts_bytes(t);
    c.mix(all);
    std::list<PAVPacket> got;
    if (s.boolean()) {
        auto io = script_io(all, gen_frag(s, 400));
        TsDemuxer d(io);
        PAVPacket h;
        CHECK(d.read_header(h) == SUCCESS);
        error_t e;
        while (true) {
            PAVPacket p;
            if ((e = d.read_packet(p)) != SUCCESS) break;
            CHECK_MSG(p, "null packet");
            got.push_back(p);
        }
        CHECK_MSG(io->left() == 0, "demuxing stopped with error " << e << " after " << io->taken / 188 << " of " << t.pkts.size() << " packets");
        CHECK_MSG(e == ERROR_SOCKET_CLOSED, "last packet refused: " << e);
        c.label("read");
    } else {
        TsDemuxer d(nullptr);
        size_t at = 0;
        while (at < t.pkts.size()) {
            size_t k = std::min((size_t) s.range(1, 7), t.pkts.size() - at);
            Heap h(all.substr(at * 188, k * 188));
            error_t e = d.decode_packet(h.p, h.n);
            CHECK_MSG(e == SUCCESS, "packets from " << at << " refused: " << e);
            PAVPacket p;
            while (d.pop(p)) got.push_back(p);
            at += k;
        }
    }
    check_ts(got, t);
    c.label_if(t.big, ">64K");
    c.label_if(t.split_pmt, "split-pmt");
    c.label_if(t.dups, "duplicates");
    c.label_if(t.losses, "losses");
    c.label_if(t.packed, "sections-packed");
    c.label_if(t.psi_losses, "table-losses");
    c.label_if(t.junk, "media-before-tables");
    c.nontrivial = t.done.size() > 1;
}

static void p19(Src& s, Ctx& c) {
    // valid stream, then damage; or crafted packets
    Bytes all;
    TsStream t;
    int kind = s.chance(1, 1500) ? 3 : (int) s.weighted({5, 3, 2});
    if (kind == 3) {
        // a unit without a stated size that goes on until no receiver can hold it, in small steps near 1 MiB
        TsMux m(s);
        m.plain = true; m.simple = true;
        auto put = [&](const std::vector<TsPkt>& v) { for (auto& p : v) all += p.b; };
        put(m.section(0, psi_section(0, 1, 0, 1, be(1, 2) + be(0xe100, 2))));
        put(m.section(0x100, psi_section(2, 1, 0, 1, be(0xe101, 2) + be(0xf000, 2) + be(0x1b, 1) + be(0xe101, 2) + be(0xf000, 2))));
        size_t head = 0, total = 0, most = 5;
        Bytes first = gen_pes(s, 0xe0, Bytes("\0\0\1\x65", 4), 900, 900, false, head);
        put(m.pes(0x101, first, head, 0));
        total = first.size();
        auto step = [&](size_t n) {
            Bytes pl((n), (char) 0x55);
            size_t at = 0;
            all += m.one(0x101, false, pl, at, n, false).b;
            total += n;
        };
        size_t near = (1u << 20) - (size_t) s.range(50, 400);
        while (total + 184 < near) step(184);
        while (total < (1u << 20) + 600) step((size_t) s.range(1, (int64_t) most));
        put(m.pes(0x101, first, head, 1));
        c.label("endless-unit");
    } else if (kind == 0) {
        t = gen_ts(s, 5);
        all = ts_bytes(t);
        if (all.size() > 188 * 300) all.resize(188 * 300);
        size_t np = all.size() / 188;
        int k = (int) s.range(1, 12);
        while (k--) {
            size_t p = s.draw(np - 1) * 188;
            switch (s.draw(6)) {
                case 0: all[p + 4 + s.skew(0, 183)] = (char) s.draw(255); break;        // near the headers
                case 1: all[p + s.draw(187)] = (char) s.draw(255); break;
                case 2: all[p + 4] = (char) s.pick<int>({0, 1, 2, 7, 182, 183, 184, 200, 255}); break;   // adaptation length
                case 3: all[p + 3] ^= (char) (1 << s.draw(7)); break;
                case 4: all[p + 1] ^= (char) (1 << s.draw(7)); break;
                case 5: for (int i = 0, n = (int) s.range(1, 20); i < n; ++i) all[p + 4 + s.draw(40)] = (char) s.pick<int>({0, 0xff, 1, 0x80, 0x7f}); break;
                default: all.replace(p, 188, Bytes("\x47", 1) + s.blob(187)); break;
            }
        }
    } else if (kind == 1) {
        // crafted: tables that declare random streams, then random payloads with right framing
        TsMux m(s);
        int pids[4] = {0, 0x100, 0x101, 0x102};
        size_t n = (size_t) s.skew(1, 40);
        while (n--) {
            int pid = pids[s.draw(3)];
            bool start = s.boolean();
            Bytes pl;
            if (pid == 0) {
                size_t k = (size_t) s.skew(0, 43);
                for (size_t i = 0; i < k; ++i) pl += be(s.draw(3), 2) + be(0xe000 | pids[s.draw(3)], 2);
                Bytes sec = psi_section((int) s.pick<int>({0, 0, 0, 2, 66}), 1, 0, 1, pl);
                if (s.chance(1, 3)) { sec[1] = (char) s.draw(255); sec[2] = (char) s.draw(255); }
                pl = be(s.chance(1, 4) ? s.draw(255) : 0, 1) + sec;
            } else if (pid == 0x100) {
                pl = be(s.draw(0xffff), 2) + be(s.chance(1, 3) ? s.draw(0xffff) : 0xf000, 2);
                while (s.more(3)) pl += be((uint64_t) s.pick<int>({0x1b, 0x0f, 0x24, 6}), 1) + be(0xe000 | (uint64_t) s.pick<int>({0x101, 0x102, 0x100, 0}), 2) + be(s.chance(1, 4) ? s.draw(0xffff) : 0xf000, 2);
                Bytes sec = psi_section(2, 1, 0, 1, pl);
                if (s.chance(1, 3)) { sec[1] = (char) s.draw(255); sec[2] = (char) s.draw(255); }
                pl = be(s.chance(1, 4) ? s.draw(255) : 0, 1) + sec;
            } else if (start) {
                size_t head;
                Bytes es = s.boolean() ? Bytes("\0\0\1", 3) + s.blob((size_t) s.skew(0, 100)) : gen_adts(s, nullptr, 60).wire();
                pl = gen_pes(s, (int) s.pick<int>({0xe0, 0xc0, 0xbe, 0xbc, 0xbf, 0xff, 0}), es, s.draw(1ull << 33), s.draw(1ull << 33), s.boolean(), head);
                if (s.chance(1, 2)) pl[s.draw(std::min<size_t>(pl.size(), 40) - 1)] = (char) s.draw(255);
                if (s.chance(1, 3)) pl[7] = (char) s.draw(255);
                if (s.chance(1, 3)) pl[8] = (char) s.draw(255);
            } else pl = s.blob((size_t) s.skew(0, 184));
            if (pl.size() > 184) pl.resize(184);
            int afc = (int) s.weighted({0, 4, 1, 2});
            Bytes b = m.header(pid, start, afc, m.counter(pid)++);
            if (afc & 2) { size_t al = s.chance(1, 3) ? s.draw(255) : 183 - std::min<size_t>(pl.size(), 183); b += be(al, 1) + gen_adaptation(s, std::min<size_t>(al, 183), 200); if (s.chance(1, 3) && b.size() > 5) b[5] = (char) s.draw(255); }
            b += pl;
            b.resize(188, (char) 0xff);
            all += b;
        }
    } else {
        all = s.blob((size_t) s.skew(0, 188 * 6));
        for (size_t i = 0; i < all.size(); i += 188) if (s.chance(9, 10)) all[i] = 0x47;
        for (size_t i = 0; i + 3 < all.size(); i += 188) if (s.boolean()) { all[i + 1] = (char) (0x40 & s.draw(255)); all[i + 2] = (char) s.pick<int>({0, 0, 17}); }
    }
    c.mix(all);
    if (c.want_desc) c.desc << (kind == 0 ? "damaged stream " : kind == 1 ? "crafted packets " : kind == 3 ? "endless unit " : "arbitrary bytes ") << all.size() << " bytes: " << pbt::hex(all, 400);
    size_t packets = 0, oks = 0;
    size_t before = __sanitizer_get_current_allocated_bytes();
    auto handler = s.boolean() ? std::make_shared<TsCache>(std::make_shared<MepegtsCacheStream>()) : nullptr;
    if (s.boolean()) {
        // the receiver goes on after each refused packet, as the RTP receiver does
        TsDemuxer d(nullptr, handler);
        for (size_t at = 0; at < all.size(); at += 188) {
            Heap h(all.substr(at, 188));
            if (d.decode_packet(h.p, h.n) == SUCCESS) ++oks;
            PAVPacket p;
            while (d.pop(p)) { ++packets; CHECK_MSG(p->size() >= 0 && p->size() < 3 << 20, "absurd packet size " << p->size()); }
        }
        size_t now = __sanitizer_get_current_allocated_bytes();
        // at most a unit buffer for each declared stream (few pids here), plus what the relay keeps
        CHECK_MSG(now < before + (64u << 20) + all.size() * 8, "memory grew by " << now - before << " for " << all.size() << " bytes of input");
    } else {
        auto io = script_io(all, gen_frag(s, 400));
        TsDemuxer d(io, handler);
        while (true) {
            PAVPacket p;
            if (d.read_packet(p) != SUCCESS) break;
            CHECK_MSG(p, "null packet");
            ++packets;
            CHECK_MSG(packets < 100000, "packets without end");
        }
        oks = io->taken / 188;
    }
    c.label_if(packets > 0, "packets-out");
    c.nontrivial = oks > 2;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P18";
    a.rule = "streams of an independent multiplexer: random pids, program tables (descriptors, several programs, split sections, repeats), PES units of whole H.264 access units or ADTS frames with random PES headers, sizes up to 400 KB, bounded and unbounded, random adaptation fields, empty and duplicate packets, lost packets (that unit is dropped), tables packed with other sections, in two sections, with duplicate or lost packets, counter jumps with the discontinuity indicator, interleaving, read in random fragments or packet groups; non-trivial: at least two units must come out; distinct by stream bytes";
    a.body = p18; a.setup = setup; a.quick_cases = 60000; a.thorough_cases = 2000000;
    pbt::Property b;
    b.id = "P19";
    b.rule = "damaged valid streams, crafted packets with correct framing and hostile tables and headers, arbitrary bytes, units that outgrow the receiver in small steps; every packet in its own heap block; non-trivial: more than two packets were accepted; distinct by bytes";
    b.body = p19; b.setup = setup; b.quick_cases = 200000; b.thorough_cases = 5000000;
    return pbt::run_main(argc, argv, {a, b});
}
