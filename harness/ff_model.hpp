// Frames of real encoders, and FLV publications made of them.
#pragma once
#include <sps_avformat_ffmpeg.hpp>
#include <sps_avformat_ffmpeg_dec.hpp>
#include <sps_avformat_ffmpeg_enc.hpp>

#include "live_model.hpp"

// ---- frames of real encoders
struct Frame { bool key; int cts; Bytes data; };
static std::vector<Frame> vpool, apool;
static Bytes vconf, aconf;

static void encode_pool() {
    auto drain = [](::AVCodecContext* x, std::vector<Frame>& out, bool video) {
        ::AVPacket* p = av_packet_alloc();
        while (avcodec_receive_packet(x, p) == 0) {
            out.push_back({(p->flags & AV_PKT_FLAG_KEY) != 0, video ? (int) (p->pts - p->dts) : 0, Bytes((char*) p->data, (size_t) p->size)});
            av_packet_unref(p);
        }
        av_packet_free(&p);
    };
    {
        const AVCodec* k = avcodec_find_encoder_by_name("libx264");
        if (!k) { fprintf(stderr, "no H.264 encoder\n"); _exit(3); }
        ::AVCodecContext* x = avcodec_alloc_context3(k);
        x->width = 64; x->height = 48; x->pix_fmt = AV_PIX_FMT_YUV420P; x->time_base = {1, 25}; x->gop_size = 8; x->max_b_frames = 0; x->thread_count = 1;
        x->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
        AVDictionary* o = nullptr;
        av_dict_set(&o, "preset", "ultrafast", 0);
        av_dict_set(&o, "x264-params", "log-level=none:annexb=0:threads=1", 0);
        if (avcodec_open2(x, k, &o) < 0) { fprintf(stderr, "encoder\n"); _exit(3); }
        av_dict_free(&o);
        Bytes e((char*) x->extradata, (size_t) x->extradata_size);       // two NAL units with lengths
        size_t n = rd(e, 0, 4), k2 = rd(e, 4 + n, 4);
        Bytes sps = e.substr(4, n), pps = e.substr(8 + n, k2);
        vconf = Bytes("\x01", 1) + sps.substr(1, 3) + Bytes("\xff\xe1", 2) + be(sps.size(), 2) + sps + be(1, 1) + be(pps.size(), 2) + pps;
        AVFrame* f = av_frame_alloc();
        f->format = x->pix_fmt; f->width = x->width; f->height = x->height;
        av_frame_get_buffer(f, 0);
        for (int i = 0; i < 24; ++i) {
            av_frame_make_writable(f);
            for (int p = 0; p < 3; ++p) for (int y = 0; y < (p ? 24 : 48); ++y) for (int z = 0; z < (p ? 32 : 64); ++z) f->data[p][y * f->linesize[p] + z] = (uint8_t) (z * 3 + y * 5 + i * 11 + p * 40);
            f->pts = i;
            avcodec_send_frame(x, f);
            drain(x, vpool, true);
        }
        avcodec_send_frame(x, nullptr);
        drain(x, vpool, true);
        av_frame_free(&f);
        avcodec_free_context(&x);
    }
    {
        const AVCodec* k = avcodec_find_encoder_by_name("aac");
        ::AVCodecContext* x = avcodec_alloc_context3(k);
        x->sample_rate = 44100; x->sample_fmt = AV_SAMPLE_FMT_FLTP; x->bit_rate = 64000; x->time_base = {1, 44100};
        av_channel_layout_default(&x->ch_layout, 2);
        x->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
        if (avcodec_open2(x, k, nullptr) < 0) { fprintf(stderr, "encoder\n"); _exit(3); }
        aconf = Bytes((char*) x->extradata, (size_t) x->extradata_size);
        AVFrame* f = av_frame_alloc();
        f->format = x->sample_fmt; f->nb_samples = x->frame_size; f->sample_rate = 44100;
        av_channel_layout_copy(&f->ch_layout, &x->ch_layout);
        av_frame_get_buffer(f, 0);
        for (int i = 0; i < 20; ++i) {
            av_frame_make_writable(f);
            for (int c = 0; c < 2; ++c) for (int j = 0; j < x->frame_size; ++j) ((float*) f->data[c])[j] = (float) ((j * (c + 3) + i * 77) % 200 - 100) / 400;
            f->pts = i * x->frame_size;
            avcodec_send_frame(x, f);
            drain(x, apool, false);
        }
        avcodec_send_frame(x, nullptr);
        drain(x, apool, false);
        av_frame_free(&f);
        avcodec_free_context(&x);
    }
    if (vpool.size() < 10 || apool.size() < 10 || vconf.empty() || aconf.empty()) { fprintf(stderr, "encoders failed\n"); _exit(3); }
}
// ---- a published stream
struct FPub {
    int id;
    std::string key;
    Conn conn;
    int kind = 3;                 // 1 video, 2 audio, 3 both
    std::vector<MPkt> pkts;       // frames
    std::vector<size_t> ends;     // including the back-pointer after it
    Bytes pay;
    uint32_t prev = 0;
    uint32_t now = 0;
    size_t sent = 0, made = 0;
    bool live = false, over = false;
    size_t p0 = 0;
    size_t npkts() const { size_t k = 0; while (k < ends.size() && ends[k] <= sent) ++k; return k; }
    // tags with the back-pointer behind, as in a file
    void tag(const MPkt& m) {
        uint32_t z = 0;
        Bytes b;
        flv_tag(b, m, z);
        pay += b.substr(4) + be(z, 4);
    }
    void start(Src& s) {
        pay = flv_header((uint8_t) ((kind & 1) | (kind & 2 ? 4 : 0))) + be(0, 4);
        MPkt v; v.type = 9; v.flags = 0x17; v.ptype = 0; v.data = vconf;
        MPkt a; a.type = 8; a.flags = 0xaf; a.ptype = 0; a.data = aconf;
        bool swap = s.boolean();
        if (kind == 3 && swap) tag(a);
        if (kind & 1) tag(v);
        if (kind == 2 || (kind == 3 && !swap)) tag(a);
        now = s.chance(1, 4) ? (uint32_t) s.draw(0x7f000000) : (uint32_t) s.draw(3000);
    }
    void frame(Src& s, bool probing, Ctx& c) {
        MPkt m;
        bool video = kind == 1 || (kind == 3 && s.boolean());
        if (probing && kind == 3) video = made % 2 == 0;
        m.type = video ? 9 : 8;
        now += probing ? 40 : s.chance(1, 30) ? (uint32_t) s.range(1000, 20000) : (uint32_t) s.range(s.chance(1, 4) ? 0 : 1, 60);
        m.dts = now;
        const Frame& f = video ? vpool[(probing ? made / (kind == 3 ? 2 : 1) : s.draw(100)) % vpool.size()] : apool[(probing ? made : s.draw(100)) % apool.size()];
        bool key = f.key;
        m.data = f.data;
        if (!probing && s.boolean()) {        // longer ones: behind the headers, which FFmpeg parses
            Bytes more = s.blob((size_t) s.skew(1, s.chance(1, 20) ? 40000 : 200));
            for (auto& x : more) if (!x) x = 1;
            if (video) {
                size_t at = 0;
                while (at + 4 + rd(m.data, at, 4) < m.data.size()) at += 4 + rd(m.data, at, 4);
                m.data.replace(at, 4, be(rd(m.data, at, 4) + more.size(), 4));
            }
            m.data += more;
        }
        if (video) { m.flags = key ? 0x17 : 0x27; if (s.chance(1, 4)) m.cts = (int32_t) s.range(0, 200); }
        else m.flags = 0xaf;
        pkts.push_back(m);
        tag(m);
        ends.push_back(pay.size());
        ++made;
        c.mix(m.body());
        if (c.want_desc && !probing) c.desc << m.str();
    }
};
typedef std::shared_ptr<FPub> PFPub;
struct FView {
    int id;
    std::string key;
    Conn conn;
    PFPub p;
    std::vector<size_t> joins;
    Bytes in;
    bool stalled = false, gone = false, over = false, may_end = false;
    double idle = 0;
    size_t last = 0;
};
typedef std::shared_ptr<FView> PFView;

static std::string show_frames(const std::vector<MPkt>& v) { std::string o; for (auto& p : v) o += p.str(); return o.empty() ? "nothing" : o; }

static std::string frame_diff(const std::vector<MPkt>& got, const std::vector<MPkt>& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    return std::to_string(got.size()) + " frames instead of " + std::to_string(want.size()) + ", after " + std::to_string(i) + " got " +
        (i < got.size() ? got[i].str() : std::string("nothing")) + " expected " + (i < want.size() ? want[i].str() : std::string("nothing"));
}

