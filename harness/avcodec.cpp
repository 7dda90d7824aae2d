// PROPERTIES: P16 P17
// TECHNIQUE P16: property-based testing: generated NAL sequences framed in every supported way against a reference converter; mutated and arbitrary bytes under AddressSanitizer
// TECHNIQUE P17: property-based testing: generated ADTS frame sequences against a reference converter; mutated and arbitrary bytes under AddressSanitizer
#include "h264_model.hpp"
#include <sps_avcodec_h264_parser.hpp>
#include <sps_avcodec_aac_parser.hpp>

using namespace sps;
static void setup() { format_log(); }

static Bytes mutate(Src& s, Bytes b) {
    int k = (int) s.range(1, 4);
    while (k--) {
        switch (s.draw(4)) {
            case 0: if (!b.empty()) b[s.draw(b.size() - 1)] = (char) s.draw(255); break;
            case 1: if (!b.empty()) b.resize(s.draw(b.size() - 1)); break;
            case 2: if (!b.empty()) b[s.draw(b.size() - 1)] ^= (char) (1 << s.draw(7)); break;
            case 3: { size_t at = s.draw(b.size()); b.insert(at, s.pick<Bytes>({Bytes("\0\0\1", 3), Bytes("\0\0\0\1", 4), Bytes("\0", 1), Bytes("\xff\xff", 2), Bytes("\0\0\0\0\0", 5)})); break; }
            default: if (!b.empty()) { size_t at = s.draw(b.size() - 1); b.erase(at, s.draw(8)); }
        }
    }
    return b;
}

// 0 start codes, 1 length delimited, 2 raw single units
struct Unit { std::vector<Nal> nals; int64_t dts, pts; Bytes wire; };
static void p16(Src& s, Ctx& c) {
    int mode = (int) s.weighted({5, 3, 2});
    bool hostile = s.chance(1, 4);
    int lsz = mode == 1 ? (int) s.pick<int>({4, 4, 2, 1}) : 4;
    int tb = s.pick<int>({1, 90});
    std::vector<Unit> us;
    size_t nu = (size_t) s.skew(1, 8);
    size_t maxnal = lsz == 1 ? 250 : (s.chance(1, 20) ? 70000 : 1500);
    if (lsz == 2) maxnal = std::min<size_t>(maxnal, 40000);
    Bytes avcc;
    bool header = mode == 1 && s.chance(1, 2);
    std::vector<Nal> hs, hp;
    for (size_t i = 0; i < nu; ++i) {
        Unit u;
        u.dts = (int64_t) s.skew(0, 1ll << 33);
        u.pts = u.dts + s.skew(0, 100000);
        do {
            int ty = mode == 2 && u.nals.size() ? 1 : gen_nal_type(s);
            Nal n = gen_nal(s, ty, mode == 0, ty == 7 || ty == 8 ? std::min<size_t>(maxnal, 40000) : maxnal);
            u.nals.push_back(n);
        } while (mode != 2 && s.more(3) && u.nals.size() < 12);
        for (auto& n : u.nals) {
            if (mode == 0) {
                u.wire += s.pick<Bytes>({Bytes("\0\0\1", 3), Bytes("\0\0\0\1", 4), Bytes("\0\0\0\1", 4), Bytes("\0\0\0\0\0\1", 6)}) + n.b;
            } else if (mode == 1) u.wire += be(n.b.size(), lsz) + n.b;
            else u.wire += n.b;
        }
        if (mode == 0 && s.chance(1, 8)) u.wire += Bytes((size_t) s.range(1, 6), '\0');
        us.push_back(u);
    }
    if (header) {
        for (int k = (int) s.range(1, 2); k; --k) hs.push_back(gen_nal(s, 7, false, std::min<size_t>(maxnal, 300)));
        for (int k = (int) s.range(0, 2); k; --k) hp.push_back(gen_nal(s, 8, false, std::min<size_t>(maxnal, 300)));
        avcc = Bytes("\x01", 1) + hs.back().b.substr(1, 3) + be(0xfc | (lsz - 1), 1) + be(0xe0 | hs.size(), 1);
        for (auto& n : hs) avcc += be(n.b.size(), 2) + n.b;
        avcc += be(hp.size(), 1);
        for (auto& n : hp) avcc += be(n.b.size(), 2) + n.b;
    }
    if (hostile) {
        for (auto& u : us) if (s.boolean()) u.wire = s.chance(1, 4) ? s.blob((size_t) s.skew(0, 40)) : mutate(s, u.wire);
        if (header && s.boolean()) avcc = mutate(s, avcc);
    }
    c.mix(&mode, 4); c.mix(avcc);
    size_t nals = 0;
    for (auto& u : us) { c.mix(u.wire); nals += u.nals.size(); }
    if (c.want_desc) {
        c.desc << (mode == 0 ? "start codes" : mode == 1 ? "lengths of " + std::to_string(lsz) : "raw nalus") << (header ? ", avcC " + pbt::hex(avcc, 24) : "") << (hostile ? ", damaged" : "") << ";";
        for (auto& u : us) { c.desc << " [dts " << u.dts << " pts " << u.pts << " types"; for (auto& n : u.nals) c.desc << " " << n.type() << "/" << n.b.size(); c.desc << " wire " << pbt::hex(u.wire, 40) << "]"; }
    }
    H264AVCodecParser full;
    NALUParser np(true, header ? 3 : lsz - 1);
    H264Ref ref;
    if (header) {
        Heap h(avcc);
        NALUContext nc(0, 0, 1);
        error_t e = np.decode(h.p, h.n, &nc, true);
        std::list<PAVPacket> pk;
        if (e == SUCCESS) e = np.encode_avc(&nc, pk);
        if (!hostile) {
            CHECK_MSG(e == SUCCESS, "configuration record refused: " << e);
            std::vector<Nal> all = hs; all.insert(all.end(), hp.begin(), hp.end());
            check_h264(pk, ref.unit(all, 0, 0), "avcC");
        }
    }
    size_t ui = 0;
    for (auto& u : us) {
        Heap h(u.wire);
        std::list<PAVPacket> pk;
        error_t e;
        if (mode == 1) {
            NALUContext nc(u.dts, u.pts, tb);
            e = np.decode(h.p, h.n, &nc, false);
            if (e == SUCCESS) e = np.encode_avc(&nc, pk);
        } else {
            sps::AVCodecContext ctx(u.dts, u.pts, tb);
            e = mode == 0 ? full.encode_avc(&ctx, h.p, (int) h.n, pk) : full.encode_raw_nalu(&ctx, h.p, (int) h.n, pk);
        }
        if (hostile) {
            for (auto& p : pk) CHECK_MSG(p->size() >= 0 && (size_t) p->size() <= u.wire.size() + 200000, "absurd packet size");
            continue;
        }
        CHECK_MSG(e == SUCCESS, "unit " << ui << " refused: " << e);
        check_h264(pk, ref.unit(u.nals, u.dts / tb, u.pts / tb), "unit " + std::to_string(ui));
        ++ui;
    }
    c.label(mode == 0 ? "start-codes" : mode == 1 ? "lengths" : "raw");
    c.label_if(hostile, "hostile");
    c.label_if(header, "avcC");
    c.nontrivial = nals >= 2 || hostile;
}

static void p17(Src& s, Ctx& c) {
    bool hostile = s.chance(1, 4);
    AacAVCodecParser parser;
    AacRef ref;
    size_t nu = (size_t) s.skew(1, 6);
    int tb = s.pick<int>({1, 90});
    Adts prev; bool have = false;
    size_t frames = 0;
    for (size_t i = 0; i < nu; ++i) {
        std::vector<Adts> fs;
        Bytes wire;
        do {
            prev = gen_adts(s, have ? &prev : nullptr, s.chance(1, 10) ? 8182 : 600);
            have = true;
            fs.push_back(prev);
            wire += prev.wire();
        } while (s.more(2) && fs.size() < 10);
        if (hostile && s.boolean()) wire = s.chance(1, 4) ? "\xff" + s.blob((size_t) s.skew(0, 30)) : mutate(s, wire);
        int64_t dts = (int64_t) s.skew(0, 1ll << 33);
        Heap h(wire);
        sps::AVCodecContext ctx(dts, dts, tb);
        std::list<PAVPacket> pk;
        c.mix(wire);
        if (c.want_desc) { c.desc << "unit dts " << dts << ":"; for (auto& f : fs) c.desc << " p" << f.profile << " r" << f.rate << " c" << f.chan << " crc" << f.crc << " " << f.raw.size() << "B"; c.desc << (hostile ? " damaged " : " ") << pbt::hex(wire, 24) << "; "; }
        error_t e = parser.encode_avc(&ctx, h.p, (int) h.n, pk);
        if (hostile) {
            for (auto& p : pk) CHECK_MSG(p->size() >= 0 && (size_t) p->size() <= 8192, "absurd packet size");
            continue;
        }
        CHECK_MSG(e == SUCCESS, "unit " << i << " refused: " << e);
        std::list<PAVPacket>::const_iterator it = pk.begin();
        for (size_t k = 0; k < fs.size(); ++k) check_aac(it, pk.end(), ref, fs[k], dts / tb, dts / tb, "unit " + std::to_string(i) + " frame " + std::to_string(k));
        CHECK_MSG(it == pk.end(), "unit " << i << ": surplus packets");
        frames += fs.size();
    }
    // a frame that is cut short must be refused, with nothing of it passed on
    if (!hostile && s.chance(1, 3)) {
        Adts f = gen_adts(s, &prev, 600);
        Bytes w = f.wire();
        w.resize(s.draw(w.size() - 2) + 1);
        Heap h(w);
        std::list<PAVPacket> pk;
        sps::AVCodecContext ctx(0, 0, 1);
        error_t e = parser.encode_avc(&ctx, h.p, (int) h.n, pk);
        CHECK_MSG(e != SUCCESS, "frame cut to " << w.size() << " bytes accepted");
        for (auto& p : pk) CHECK_MSG(p->is_audio_sequence_header(), "part of a cut frame passed on");
        c.label("cut");
    }
    c.label_if(hostile, "hostile");
    c.nontrivial = frames >= 2 || hostile;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P16";
    a.rule = "streams of one to eight access units of NAL units of all types, framed by 3 to 6 byte start codes, by 1, 2 or 4 byte lengths (with or without a configuration record), or singly, with times, compared packet by packet with a reference converter; one in four is damaged and only has to be handled without memory errors; non-trivial: two or more NAL units or damaged; distinct by wire bytes";
    a.body = p16; a.setup = setup; a.quick_cases = 600000; a.thorough_cases = 5000000;
    pbt::Property b;
    b.id = "P17";
    b.rule = "streams of units of one or more ADTS frames with random and changing profile, rate, channels, CRC and flag bits, compared packet by packet with a reference converter; cut frames must be refused; one in four is damaged and only has to be handled without memory errors; non-trivial: two or more frames or damaged; distinct by wire bytes";
    b.body = p17; b.setup = setup; b.quick_cases = 600000; b.thorough_cases = 5000000;
    return pbt::run_main(argc, argv, {a, b});
}
