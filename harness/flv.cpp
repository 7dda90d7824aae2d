// PROPERTIES: P03 P04
// TECHNIQUE P03: property-based testing: generated packet sequences, independent FLV parser and mux/demux round trip as oracle
// TECHNIQUE P04: structured mutation fuzzing under AddressSanitizer with an independent FLV parser as oracle
#include "flv_model.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>

using namespace sps;

static PAVPacket to_av(const MPkt& p) {
    Heap h(p.data);
    return AVPacket::create(AV_MESSAGE_DATA,
        p.type == 8 ? AV_STREAM_TYPE_AUDIO : p.type == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE,
        AVPacketType{(int) p.ptype}, h.p, (int) h.n, p.dts, (int64_t) p.dts + p.cts, p.flags,
        p.type == 9 ? (p.flags & 15) : (p.flags >> 4));
}

static void expect_pkt(const PAVPacket& g, const MPkt& p, size_t i) {
    CHECK(g);
    AVStreamType st = p.type == 8 ? AV_STREAM_TYPE_AUDIO : p.type == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE;
    CHECK_MSG(g->stream_type == st, "packet " << i << " kind");
    CHECK_MSG(g->msg_type == AV_MESSAGE_DATA, "packet " << i);
    CHECK_MSG(Bytes((char*) g->buffer(), g->size()) == p.data, "packet " << i << " payload " << pbt::hex(g->buffer(), g->size()) << " expected " << pbt::hex(p.data));
    CHECK_MSG(g->dts == (int64_t) p.dts, "packet " << i << " dts " << g->dts << " expected " << p.dts);
    if (p.type == 18) return;
    CHECK_MSG((g->flags & 0xff) == p.flags, "packet " << i << " flags");
    CHECK_MSG(g->codecid == (p.type == 9 ? (p.flags & 15) : (p.flags >> 4)), "packet " << i << " codec");
    if (p.info()) return;
    CHECK_MSG(g->pkt_type.pkt_type == p.ptype, "packet " << i << " packet type");
    CHECK_MSG(g->pts == (int64_t) p.dts + (p.type == 9 ? p.cts : 0), "packet " << i << " pts " << g->pts << " dts " << p.dts << " cts " << p.cts);
}

// reads everything, returns number of packets and the final error
static error_t demux(const Bytes& d, const Frag& f, std::vector<PAVPacket>& out, size_t limit, PAVPacket* header = nullptr) {
    auto io = script_io(d, f);
    FlvDemuxer dm(io);
    PAVPacket h;
    error_t ret = dm.read_header(h);
    if (ret != SUCCESS) return ret;
    if (header) *header = h;
    while (out.size() <= limit) {
        PAVPacket p;
        ret = dm.read_packet(p);
        if (ret != SUCCESS) return ret;
        out.push_back(p);
    }
    return SUCCESS;
}

static void p03(Src& s, Ctx& c) {
    std::vector<MPkt> pkts;
    while (s.more(7)) {
        size_t maxlen = s.chance(1, 60) ? (s.chance(1, 6) ? kFlvMaxTag - 8 : 70000) : 300;
        MPkt p = gen_mpkt(s, maxlen);
        if (c.want_desc) c.desc << p.str() << " ";
        c.mix(p.body()); c.mix(&p.dts, 4);
        pkts.push_back(p);
        c.label_if(p.dts > 0xffffff, "extended-timestamp");
        c.label_if(p.cts < 0, "negative-cts");
        c.label_if(p.data.size() > 65535, "payload>64K");
    }
    auto w = script_io("", Frag());
    FlvAVMuxer mux(w);
    int filters = s.chance(1, 4) ? (int) s.range(1, 7) : 0;
    mux.filter_video = filters & 1; mux.filter_audio = filters & 2; mux.filter_metadata = filters & 4;
    if (c.want_desc && filters) c.desc << "filters=" << filters << " ";
    PAVPacket h;
    Bytes hdr = flv_header();
    if (s.boolean()) {   // relayed header
        hdr = flv_header((uint8_t) s.pick<int>({5, 1, 4}));
        h = AVPacket::create(AV_MESSAGE_HEADER, AV_STREAM_TYPE_NB, AVPacketType{}, (uint8_t*) hdr.data(), 9, 0, 0);
    }
    CHECK(mux.write_header(h) == SUCCESS);
    std::vector<MPkt> kept;
    for (auto& p : pkts) {
        auto a = to_av(p);
        CHECK(mux.write_packet(a) == SUCCESS);
        CHECK_MSG(Bytes((char*) a->buffer(), a->size()) == p.data, "packet altered by writing it");
        int bit = p.type == 9 ? 1 : p.type == 8 ? 2 : 4;
        if (!(filters & bit)) kept.push_back(p);
    }
    PAVPacket t;
    CHECK(mux.write_tail(t) == SUCCESS);
    const Bytes& o = w->out;
    CHECK_MSG(o.substr(0, 9) == hdr, "header " << pbt::hex(o.substr(0, 9)));
    std::vector<MPkt> got; size_t at = 9; std::string why;
    CHECK_MSG(flv_parse(o, at, got, true, &why), "output is not FLV: " << why << " after " << got.size() << " tags");
    CHECK_EQ(got.size(), kept.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK_MSG(got[i] == kept[i], "tag " << i << " is " << got[i].str() << " expected " << kept[i].str());
    // and back
    Frag f = gen_frag(s, 200);
    std::vector<PAVPacket> back; PAVPacket rh;
    error_t ret = demux(o, f, back, kept.size(), &rh);
    CHECK(ret != SUCCESS);   // end of data
    CHECK(rh && rh->size() == 9 && memcmp(rh->buffer(), hdr.data(), 9) == 0);
    CHECK_EQ(back.size(), kept.size());
    for (size_t i = 0; i < back.size(); ++i) expect_pkt(back[i], kept[i], i);
    // a writer that fails makes the muxer fail
    if (!kept.empty() && s.chance(1, 4)) {
        auto w2 = script_io("", Frag());
        w2->write_err = ERROR_SOCKET_WRITE;
        w2->write_limit = (size_t) s.range(0, (int64_t) o.size() - 1);
        FlvAVMuxer m2(w2);
        m2.filter_video = filters & 1; m2.filter_audio = filters & 2; m2.filter_metadata = filters & 4;
        error_t r = m2.write_header(h);
        size_t i = 0;
        for (; r == SUCCESS && i < pkts.size(); ++i) { auto a = to_av(pkts[i]); r = m2.write_packet(a); }
        CHECK_MSG(r != SUCCESS, "write error lost");
        c.label("write-fault");
    }
    c.nontrivial = kept.size() >= 2;
}

static void p04(Src& s, Ctx& c) {
    // a valid stream, then damage
    Bytes d = flv_header((uint8_t) s.pick<int>({5, 1, 4, 0}));
    std::vector<size_t> starts;
    uint32_t prev = 0;
    while (s.more(5)) {
        starts.push_back(d.size());
        MPkt p = gen_mpkt(s, s.chance(1, 100) ? 5000 : 120);
        if (s.chance(1, 8)) p.data.resize((size_t) s.draw(2));     // tiny or empty tags
        flv_tag(d, p, prev);
    }
    if (s.chance(1, 4)) d += be(prev, 4);   // trailing back-pointer, as real files have
    int muts = 0;
    while (s.more(2) && muts < 6) {
        ++muts;
        size_t base = starts.empty() ? 0 : s.pick(starts);
        switch (s.weighted({4, 3, 3, 2, 2, 2, 1, 2})) {
            case 0: {  // tag size
                if (starts.empty() || base + 8 > d.size()) break;
                uint32_t n = (uint32_t) rd(d, base + 5, 3);
                uint32_t v = s.boolean() ? (uint32_t) s.range(0, 8) : s.pick<uint32_t>({n + 1, n - 1, n + 11, 0xffffff, 0x100000, 0xfffff, 0x100001, n / 2});
                d.replace(base + 5, 3, be(v & 0xffffff, 3));
                break;
            }
            case 1: d.resize((size_t) s.range(0, (int64_t) d.size())); break;              // truncate
            case 2: if (!d.empty()) { size_t i = (size_t) s.range(0, (int64_t) d.size() - 1); d[i] = (char) s.draw(255); } break;
            case 3: { size_t i = (size_t) s.range(0, (int64_t) d.size()); d.insert(i, s.blob((size_t) s.range(1, 20))); break; }
            case 4: if (!d.empty()) { size_t i = (size_t) s.range(0, (int64_t) d.size() - 1); d.erase(i, (size_t) s.range(1, 20)); } break;
            case 5: if (base + 4 < d.size()) d[base + 4] = (char) s.pick<int>({8, 9, 18, 0, 10, 255}); break;
            case 6: d += s.blob((size_t) s.skew(0, 300)); break;
            default: if (base + 15 < d.size()) d[base + 15] = (char) s.draw(255); break;   // codec byte
        }
    }
    if (s.chance(1, 250)) {
        // the data received fills the reader's buffer (1 MiB) exactly and ends in a tag shorter than its own sub-header
        size_t tail = 15 + (size_t) s.draw(4);
        MPkt pad; pad.type = 18; pad.data = s.blob(1);
        size_t at = d.size() + 15;
        if (at + 1 < kFlvMaxTag - tail) {
            pad.data = Bytes(kFlvMaxTag - tail - at, (char) 0x17);
            flv_tag(d, pad, prev);
            d += be(prev, 4) + (char) s.pick<int>({8, 9}) + be(tail - 15, 3) + be(0, 7);
            d += Bytes(tail - 15, (char) s.pick<int>({0xaf, 0x17, 0x57}));
            if (s.boolean()) d += s.blob(40);
            muts++;
            c.label("buffer-exactly-full");
        }
    }
    if (s.chance(1, 12)) d = s.blob((size_t) s.skew(0, 600));
    c.mix(d);
    if (c.want_desc) c.desc << muts << " mutations: " << pbt::hex(d, 120);
    // reference
    std::vector<MPkt> want; size_t at = 9; bool clean = false;
    bool head = d.size() >= 9 && d.compare(0, 3, "FLV") == 0;
    if (head) clean = flv_parse(d, at, want, false);
    for (int k = 0; k < 2; ++k) {
        Frag f = gen_frag(s, 100);
        std::vector<PAVPacket> got;
        error_t ret = demux(d, f, got, want.size());
        CHECK_MSG(ret != SUCCESS, "more packets than tags: " << got.size() << " of " << want.size() << " (" << f.str() << ")");
        CHECK_MSG(got.size() == want.size(), got.size() << " packets, expected " << want.size() << ", error " << ret << " (" << f.str() << ")");
        for (size_t i = 0; i < got.size(); ++i) expect_pkt(got[i], want[i], i);
    }
    c.label_if(!clean, "damaged");
    c.label_if(!clean && !want.empty(), "damaged-after-good-tags");
    c.label_if(!head, "bad-header");
    c.nontrivial = head && (muts > 0 || want.size() >= 2);
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P03";
    a.rule = "random audio/video/script packet sequences (timestamps over 32 bits, composition offsets over 24, payloads 1 B..1 MiB), output filters, header relays, write faults, read fragmentations; output parsed by an independent parser and demuxed back; non-trivial: two or more packets written; distinct by content";
    a.body = p03; a.setup = quiet_log; a.quick_cases = 180000; a.thorough_cases = 2000000;
    pbt::Property b;
    b.id = "P04";
    b.rule = "valid FLV streams damaged by size edits, truncation, insertion, deletion, byte edits (or arbitrary bytes), each read twice with different fragmentations under ASan and compared with an independent parser; non-trivial: FLV signature present and damaged or at least two tags; distinct by byte string";
    b.body = p04; b.setup = format_log; b.quick_cases = 120000; b.thorough_cases = 2000000;
    return pbt::run_main(argc, argv, {a, b});
}
