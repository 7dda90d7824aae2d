// PROPERTIES: P34 P35 P36
// TECHNIQUE P34: stateful property-based testing: generated histories of publishers, frames, viewers and endings on the real HTTP pipeline with the FFmpeg-backed formats, against a reference model of the frames each viewer must get
// TECHNIQUE P35: fuzzing with structured generators: mutated streams, playlists and session descriptions published, and viewers asking for every output format, with file, socket and process monitors
// TECHNIQUE P36: property-based testing with a round-trip oracle: generated streams through every pair of container formats, read back with the FFmpeg demuxers and compared frame by frame with what was published
#include "ff_model.hpp"
#include "ts_model.hpp"

#include <fcntl.h>
#include <netdb.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/syscall.h>

static void setup() {
    live_setup(false);
    av_log_set_level(AV_LOG_QUIET);
    encode_pool();
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FFmpegAVInputFormat>());
    SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FFmpegAVOutputFormat>());
    auto router = std::make_shared<HostModulesRouter>();
    if (router->register_host(mkhost("f.test", "type stream;\nrole source;\npub_avformat all;\nedge_avformat all;\n")) != SUCCESS) _exit(3);
    make_server(router);
}

static void p34(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "/f" + std::to_string(++cases) + "-";
    auto bg = group();
    std::vector<PFPub> pubs;
    std::vector<PFView> views, fresh;
    std::map<std::string, PFPub> owner;
    double batch_time = 0;
    int late = 0, delivered = 0, rejected = 0, again = 0;
    auto names = name_family(s);
    auto path_of = [&](int n) { return tok + names[(size_t) n]; };
    auto key_of = [&](int n) { return "f.test" + path_of(n); };
    auto send = [&](FPub& p, size_t to) {
        if (to <= p.sent) return;
        p.conn.send(p.pay.substr(p.sent, to - p.sent));
        p.sent = to;
    };
    auto pick_pub = [&]() -> PFPub { std::vector<PFPub> o; for (auto& k : owner) if (!k.second->over) o.push_back(k.second); return o.empty() ? nullptr : s.pick(o); };
    auto pick_view = [&]() -> PFView { std::vector<PFView> o; for (auto& v : views) if (!v->gone && !v->over && v->p) o.push_back(v); return o.empty() ? nullptr : s.pick(o); };
    auto publish = [&]() {
        auto p = std::make_shared<FPub>();
        p->id = (int) pubs.size();
        int n = s.chance(1, 4) ? 1 : 0;
        p->key = key_of(n);
        p->kind = (int) s.weighted({0, 1, 1, 4});
        if (c.want_desc) c.desc << "publish#" << p->id << " " << p->key << " kind " << p->kind << " ";
        c.mix(&p->kind, sizeof p->kind);
        p->conn = open_conn(bg, gen_frag(s, 400), Frag(), 0);
        p->conn.send("POST " + path_of(n) + ".flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        p->start(s);
        for (int i = 0; i < 40; ++i) p->frame(s, true, c);
        size_t cut = (size_t) s.range(1, (int64_t) p->pay.size());
        send(*p, cut);
        settle();
        auto o = owner.find(p->key);
        if (o != owner.end()) {
            send(*p, p->pay.size());
            settle();
            while (!*p->conn.ended && p->made < 600) {
                for (int i = 0; i < 10; ++i) p->frame(s, true, c);
                send(*p, p->pay.size());
                settle();
            }
            CHECK_MSG(*p->conn.ended, "publisher #" << p->id << " of " << p->key << " is accepted while #" << o->second->id << " publishes");
            ++rejected;
            pubs.push_back(p);
            p->over = true;
            p->conn.close_all();
            return;
        }
        CHECK_MSG(!*p->conn.ended, "the name " << p->key << " is free but its publisher is rejected");
        send(*p, p->pay.size());
        settle();
        while (!StreamCache::get_streamcache(p->key) && !*p->conn.ended && p->made < 600) {
            for (int i = 0; i < 10; ++i) p->frame(s, true, c);
            send(*p, p->pay.size());
            settle();
        }
        CHECK_MSG(!*p->conn.ended, "publisher #" << p->id << " of " << p->key << " is cut off");
        CHECK_MSG(StreamCache::get_streamcache(p->key), "the stream " << p->key << " is not available after " << p->made << " frames");
        for (auto& q : pubs) if (q->key == p->key) ++again;
        p->live = true;
        owner[p->key] = p;
        p->p0 = p->npkts();
        pubs.push_back(p);
    };
    auto feed = [&]() {
        PFPub p = pick_pub();
        if (!p) return;
        if (c.want_desc) c.desc << "frames#" << p->id << " ";
        size_t k = (size_t) s.skew(1, 12);
        while (k--) p->frame(s, false, c);
        send(*p, s.chance(1, 5) ? (size_t) s.range((int64_t) p->sent, (int64_t) p->pay.size()) : p->pay.size());
    };
    auto join = [&]() {
        auto v = std::make_shared<FView>();
        v->id = (int) views.size();
        int n = s.chance(1, 4) ? 1 : 0;
        v->key = key_of(n);
        v->stalled = s.chance(1, 10);
        if (c.want_desc) c.desc << "join#" << v->id << " " << v->key << (v->stalled ? " stalled " : " ");
        v->conn = open_conn(bg, gen_frag(s, 200), gen_frag(s, 400), v->stalled ? (size_t) s.skew(1, 2000) : 0);
        v->conn.send("GET " + path_of(n) + ".flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        views.push_back(v); fresh.push_back(v);
    };
    auto check_view = [&](FView& v) {
        std::string who = "viewer #" + std::to_string(v.id) + " of " + v.key + ": ";
        v.in += v.conn.from->buf.substr(v.conn.from->off);
        v.conn.from->buf.clear(); v.conn.from->off = 0;
        st_cond_broadcast(v.conn.from->cv);
        Rsp r = parse_response(v.in, 0);
        if (v.stalled && !r.err.empty()) return;
        CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response: " << r.err << " " << pbt::quote(v.in, 100));
        Bytes b = r.body;
        if (b.size() < 13) { CHECK_MSG(v.stalled, who << "no FLV header"); return; }
        CHECK_MSG(b.substr(0, 4) == Bytes("FLV\x01", 4) && rd(b, 5, 4) == 9, who << "no FLV header: " << pbt::quote(b.substr(0, 13)));
        b.erase(0, 9);
        if (!v.stalled) b.resize(b.size() - 4);           // the back-pointer of the last tag
        std::vector<MPkt> tags, frames;
        size_t at = 0;
        std::string why;
        bool whole = flv_parse(b, at, tags, true, &why);
        CHECK_MSG(whole || (v.stalled && why.find("incomplete") == 0), who << why);
        bool vc = false, ac = false;
        for (auto& t : tags) {
            if (t.type == 18) continue;
            if (t.type == 9 && t.ptype == 0) { CHECK_MSG(t.data == vconf, who << "another video configuration"); vc = true; continue; }
            if (t.type == 8 && t.ptype == 0) { CHECK_MSG(t.data == aconf, who << "another audio configuration"); ac = true; continue; }
            if (t.type == 9 && t.ptype == 2) continue;
            CHECK_MSG(t.type == 9 ? vc : ac, who << "a frame without its configuration: " << t.str());
            frames.push_back(t);
        }
        std::vector<size_t> left;
        std::vector<MPkt> want;
        // FFmpeg hands on the part of a frame with which a publication breaks off
        if (v.p->over && !frames.empty() && v.p->npkts() < v.p->pkts.size()) {
            MPkt part = v.p->pkts[v.p->npkts()];
            const MPkt& l = frames.back();
            if (l.dts == part.dts && l.type == part.type && l.data.size() <= part.data.size() && part.data.compare(0, l.data.size(), l.data) == 0) frames.pop_back();
        }
        for (size_t j : v.joins) {
            want.clear();
            for (auto q : at_join(v.p->pkts, j)) want.push_back(*q);
            for (size_t i = j; i < v.p->npkts(); ++i) want.push_back(v.p->pkts[i]);
            if (v.stalled ? frames.size() <= want.size() && std::equal(frames.begin(), frames.end(), want.begin()) : frames == want) left.push_back(j);
        }
        CHECK_MSG(!left.empty(), who << frame_diff(frames, want));
        v.joins = left;
        if (r.body.size() != v.last) { v.idle = batch_time; ++delivered; }
        v.last = r.body.size();
    };
    auto resolve = [&]() {
        if (bg->failed) pbt::fail(bg->msg);
        for (auto& v : fresh) {
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            auto o = owner.find(v->key);
            if (o == owner.end()) {
                if (v->stalled) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); settle(); }
                Bytes b = v->conn.from->buf.substr(v->conn.from->off);
                CHECK_MSG(b.compare(0, 12, "HTTP/1.1 404") == 0, who << "no source, answered with " << pbt::quote(b, 60));
                v->over = true; v->conn.close_all();
                continue;
            }
            CHECK_MSG(!*v->conn.ended, who << "refused although the stream is there: " << pbt::quote(v->conn.from->buf, 60));
            v->p = o->second;
            for (size_t j = v->p->p0; j <= v->p->npkts(); ++j) { v->joins.push_back(j); if (j) ++late; }
        }
        fresh.clear();
        for (auto it = owner.begin(); it != owner.end();) {
            PFPub p = it->second;
            CHECK_MSG(*p->conn.ended == p->over, "publisher #" << p->id << " of " << p->key << (p->over ? " has ended but is still served" : " was disturbed: its connection is closed"));
            if (p->over) { CHECK_MSG(!StreamCache::get_streamcache(p->key), "the name " << p->key << " is still taken"); it = owner.erase(it); } else ++it;
        }
        for (auto& v : views) {
            if (v->gone || v->over || !v->p) continue;
            bool ended = *v->conn.ended;
            if (ended) { CHECK_MSG(v->may_end, "viewer #" << v->id << " of " << v->key << ": its connection is closed"); v->over = true; }
            if (!ended || v->p->npkts() == v->p->p0) check_view(*v);
        }
        for (auto& p : pubs) p->p0 = p->npkts();
    };
    size_t ops = 0;
    publish();
    while (s.more(16) && ops++ < 40) {
        size_t k = s.weighted({1, 8, 5, 2, 2, 1, 1});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: publish(); break;
            case 1: feed(); break;
            case 2: { size_t n = s.chance(1, 3) ? (size_t) s.range(2, 3) : 1; for (size_t i = 0; i < n; ++i) { join(); if (n > 1 && s.chance(1, 3)) st_usleep(0); if (n > 1 && s.chance(1, 2)) feed(); } break; }
            case 3: { PFView v = pick_view(); if (!v) break; if (c.want_desc) c.desc << "leave#" << v->id << " "; v->gone = true; v->conn.close_all(); break; }
            case 4: { PFPub p = pick_pub(); if (!p || s.chance(1, 2)) break; if (c.want_desc) c.desc << "end#" << p->id << " "; p->over = true; p->conn.close_write(); break; }
            case 5: { PFView v = pick_view(); if (!v) break; v->stalled = !v->stalled; v->conn.from->cap = v->stalled ? (size_t) s.skew(1, 500) : 0; st_cond_broadcast(v->conn.from->cv); if (c.want_desc) c.desc << (v->stalled ? "stall#" : "resume#") << v->id << " "; break; }
            default: {
                st_utime_t d = (st_utime_t) s.range(1, s.chance(1, 4) ? 12000000 : 6000000);
                if (c.want_desc) c.desc << "time+" << d << " ";
                ahead += d; batch_time += d * 1e-6;
                for (auto& v : views) { v->idle += d * 1e-6; if (v->idle > 9.5) v->may_end = true; }
            }
        }
        settle();
        resolve();
        batch_time = 0;
        if (c.want_desc) c.desc << "| ";
    }
    for (auto& v : views) if (v->stalled && !v->over && !v->gone) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); }
    settle(); resolve();
    for (auto& k : owner) { k.second->over = true; k.second->conn.close_write(); }
    settle(); resolve();
    for (int i = 0; i < 3; ++i) {
        ahead += 11000000;
        for (auto& v : views) { v->idle = 11; v->may_end = true; }
        settle();
    }
    resolve();
    for (auto& v : views) CHECK_MSG(*v->conn.ended || v->over, "viewer #" << v->id << " of " << v->key << " is still connected after its source ended");
    for (auto& p : pubs) p->conn.close_all();
    for (auto& v : views) v->conn.close_all();
    settle();
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label_if(rejected > 0, "rejected"); c.label_if(again > 0, "name-reused"); c.label_if(late > 0, "late-join"); c.label_if(delivered > 0, "delivered");
    c.nontrivial = late > 0 && delivered > 0;
}


// ---- what the server may not do for a publisher or a viewer: open files or sockets, or end the process
static bool watching = false;
static std::string opened;
static int saw(const char* what, const char* name) { if (opened.size() < 300) opened += std::string(what) + " " + (name ? name : "") + "; "; errno = EACCES; return -1; }
static void at_exit() { if (watching) { fprintf(stderr, "the server ended the process\n"); abort(); } }
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" {
int open(const char* p, int fl, ...) {
    if (watching && strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) return saw("open", p);
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
    if (watching && strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) return saw("open", p);
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int socket(int d, int t, int p) { return watching ? saw("socket", nullptr) : (int) syscall(SYS_socket, d, t, p); }
int getaddrinfo(const char* h, const char*, const struct addrinfo*, struct addrinfo**) { saw("look up", h); return EAI_FAIL; }   // not used by the harness
int unlink(const char* p) { return watching ? saw("unlink", p) : (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rename(const char* a, const char* b) { return watching ? saw("rename", a) : (int) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int mkdir(const char* p, mode_t m) { return watching ? saw("mkdir", p) : (int) syscall(SYS_mkdirat, AT_FDCWD, p, m); }
}
struct Watch { Watch() { opened.clear(); watching = true; } ~Watch() { watching = false; } };

static Bytes annexb_of(const Bytes& avcc) {
    Bytes o;
    for (size_t at = 0; at + 4 <= avcc.size();) { size_t n = rd(avcc, at, 4); o += Bytes("\0\0\0\1", 4) + avcc.substr(at + 4, n); at += 4 + n; }
    return o;
}
static Bytes vheaders() {
    size_t n = rd(vconf, 6, 2), k = rd(vconf, 9 + n, 2);
    return Bytes("\0\0\0\1", 4) + vconf.substr(8, n) + Bytes("\0\0\0\1", 4) + vconf.substr(11 + n, k);
}
static Bytes adts_of(const Bytes& f) {
    size_t n = f.size() + 7;
    Bytes h("\xff\xf1\x50\x80\x00\x1f\xfc", 7);
    h[3] = (char) (0x80 | (n >> 11)); h[4] = (char) (n >> 3); h[5] = (char) ((n & 7) << 5 | 0x1f);
    return h + f;
}
static Bytes flv_file(Src& s, int kind, size_t frames, bool odd, Ctx& c) {
    FPub p; p.kind = kind;
    p.start(s);
    if (s.boolean()) p.now = 0;
    bool d = c.want_desc; c.want_desc = false;
    for (size_t i = 0; i < frames; ++i) p.frame(s, true, c);
    c.want_desc = d;
    if (!odd) return p.pay;
    // times that a player cannot use as they are
    FPub q; q.kind = kind; q.pay = p.pay.substr(0, p.ends[0] - p.pkts[0].body().size() - 15);
    for (auto m : p.pkts) {
        switch (s.weighted({6, 1, 1, 1})) {
            case 1: m.cts = (int32_t) s.range(-0x7fffff, -1); break;
            case 2: m.dts = (uint32_t) s.draw(0xffffffff); break;
            case 3: m.cts = (int32_t) s.range(0, 0x7fffff); break;
            default: break;
        }
        if (m.type == 8) m.cts = 0;
        q.tag(m);
    }
    return q.pay;
}
static Bytes ts_of(Src& s, size_t frames) {       // written by FFmpeg's own muxer
    AVFormatContext* x = nullptr;
    avformat_alloc_output_context2(&x, nullptr, "mpegts", nullptr);
    AVStream* v = avformat_new_stream(x, nullptr);
    AVStream* a = avformat_new_stream(x, nullptr);
    v->codecpar->codec_type = AVMEDIA_TYPE_VIDEO; v->codecpar->codec_id = AV_CODEC_ID_H264; v->codecpar->width = 64; v->codecpar->height = 48;
    a->codecpar->codec_type = AVMEDIA_TYPE_AUDIO; a->codecpar->codec_id = AV_CODEC_ID_AAC; a->codecpar->sample_rate = 44100; av_channel_layout_default(&a->codecpar->ch_layout, 2);
    avio_open_dyn_buf(&x->pb);
    avformat_write_header(x, nullptr);
    int64_t t = (int64_t) s.draw(5000) * 90;
    for (size_t i = 0; i < frames; ++i, t += 40 * 90) {
        bool vid = i % 2 == 0;
        const Frame& f = vid ? vpool[i / 2 % vpool.size()] : apool[i % apool.size()];
        Bytes b = vid ? (f.key ? vheaders() : Bytes()) + annexb_of(f.data) : adts_of(f.data);
        ::AVPacket* k = av_packet_alloc();
        av_new_packet(k, (int) b.size());
        memcpy(k->data, b.data(), b.size());
        k->stream_index = vid ? 0 : 1; k->pts = k->dts = t; if (f.key) k->flags |= AV_PKT_FLAG_KEY;
        av_write_frame(x, k);
        av_packet_free(&k);
    }
    av_write_trailer(x);
    uint8_t* p = nullptr;
    int n = avio_close_dyn_buf(x->pb, &p);
    Bytes o((char*) p, (size_t) n);
    av_free(p);
    avformat_free_context(x);
    return o;
}
static Bytes mutate(Src& s, Bytes b) {
    size_t n = (size_t) s.skew(1, 30);
    while (n-- && !b.empty()) {
        size_t at = (size_t) s.draw(b.size() - 1), len = std::min((size_t) s.skew(1, 400), b.size() - at);
        switch (s.draw(4)) {
            case 0: b[at] ^= (char) (1 << s.draw(7)); break;
            case 1: b[at] = (char) s.draw(255); break;
            case 2: b.erase(at, len); break;
            case 3: b.insert(at, b.substr(at, len)); break;
            default: b.insert(at, s.blob((size_t) s.skew(1, 20))); break;
        }
    }
    return b;
}
static std::string gen_target(Src& s) {
    return s.pick(std::vector<std::string>{"/etc/passwd", "file:///etc/hostname", "http://127.0.0.1:1/x.ts", "tcp://127.0.0.1:2", "udp://127.0.0.1:5004", "../a.flv", "data:,x", "concat:/etc/passwd|/etc/group", "rtp://127.0.0.1:5006", "crypto:/etc/passwd", "async:/etc/passwd", "cache:/etc/passwd", "subfile,,start,0,end,9,,:/etc/passwd", "x.ts"});
}
static Bytes gen_hostile(Src& s, Ctx& c, std::string& name, bool& valid) {
    size_t k = s.weighted({3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2});
    Bytes b;
    size_t frames = (size_t) s.range(1, 130);
    valid = false;
    switch (k) {
        case 0: name = "odd times"; b = flv_file(s, (int) s.range(1, 3), frames, true, c); break;
        case 1: name = "damaged flv"; b = mutate(s, flv_file(s, 3, frames, s.chance(1, 3), c)); break;
        case 2: name = "damaged ts"; b = mutate(s, ts_of(s, frames)); break;
        case 3: name = "h264"; valid = true; for (size_t i = 0; i < frames; ++i) { auto& f = vpool[i % vpool.size()]; b += (f.key ? vheaders() : Bytes()) + annexb_of(f.data); } break;
        case 4: name = "aac"; valid = true; for (size_t i = 0; i < frames; ++i) b += adts_of(apool[i % apool.size()].data); break;
        case 5: { name = "concat"; b = "ffconcat version 1.0\n"; bool plain = s.boolean(); do b += "file '" + (plain ? s.pick(std::vector<std::string>{"x.ts", "sub/y.flv", "a.mp4"}) : gen_target(s)) + "'\n"; while (s.more(3)); break; }
        case 6: name = "sdp"; b = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\nm=video " + std::to_string(s.range(1024, 65000)) + " RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n"; break;
        case 7: { name = "playlist"; b = "#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-TARGETDURATION:4\n"; if (s.boolean()) b += "#EXT-X-KEY:METHOD=AES-128,URI=\"" + gen_target(s) + "\"\n"; if (s.boolean()) b += "#EXT-X-MAP:URI=\"" + gen_target(s) + "\"\n"; if (s.boolean()) b += "#EXT-X-STREAM-INF:BANDWIDTH=1\n" + gen_target(s) + "\n"; else do b += "#EXTINF:4,\n" + (s.boolean() ? "y" + std::to_string(s.draw(9)) + ".ts" : gen_target(s)) + "\n"; while (s.more(3)); if (s.boolean()) b += "#EXT-X-ENDLIST\n"; break; }
        case 8: name = "mpd"; b = "<?xml version=\"1.0\"?><MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" type=\"static\" mediaPresentationDuration=\"PT1S\"><Period><AdaptationSet><Representation id=\"1\" mimeType=\"video/mp4\"><BaseURL>" + gen_target(s) + "</BaseURL></Representation></AdaptationSet></Period></MPD>"; break;
        case 9: name = "bytes"; b = s.blob((size_t) s.skew(1, 3000)); break;
        default: name = "ts"; valid = true; b = ts_of(s, frames); break;
    }
    // FFmpeg looks at 2048 bytes and more before it decides
    if (k >= 5 && k <= 8 && s.chance(3, 4)) { size_t to = (size_t) s.range(2048, 9000); while (b.size() < to) b += k == 6 ? "a=x:" + std::string(200, 'y') + "\r\n" : k == 8 ? "<!-- " + std::string(200, 'y') + " -->\n" : "# " + std::string(200, 'y') + "\n"; }
    if (!valid && k > 4 && s.chance(1, 4)) b = mutate(s, b);
    return b;
}
static void p35(Src& s, Ctx& c) {
    static bool once = false;
    if (!once) { once = true; atexit(at_exit); }
    static uint64_t cases = 0;
    std::string tok = "/k" + std::to_string(++cases) + "-";
    auto bg = group();
    auto safe = [&](const std::string& what) { CHECK_MSG(opened.empty(), what << ": the server tried to " << opened); if (bg->failed) pbt::fail(bg->msg); };
    if (s.chance(1, 12)) {          // the same publication and viewers again and again: memory comes back
        std::string what; bool valid = true;
        Bytes b;
        size_t frames = (size_t) s.range(60, 200);
        switch (s.draw(3)) {
            case 0: what = "flv"; b = flv_file(s, 3, frames, false, c); break;
            case 1: what = "ts"; b = ts_of(s, frames); break;
            case 2: what = "h264"; for (size_t i = 0; i < frames; ++i) { auto& f = vpool[i % vpool.size()]; b += (f.key ? vheaders() : Bytes()) + annexb_of(f.data); } break;
            default: what = "aac"; for (size_t i = 0; i < frames; ++i) b += adts_of(apool[i % apool.size()].data); break;
        }
        std::string e = s.pick(std::vector<std::string>{"flv", "ts", "mkv", "zz"});
        if (c.want_desc) c.desc << "publish " << what << " " << b.size() << " bytes with a viewer of ." << e << ", repeatedly; ";
        c.mix(b); c.mix(e.data(), e.size());
        size_t last = 0, grew = 0, went = 0, served = 0, round = 0;
        for (; round < 9; ++round) {
            {
                auto g = group();
                Conn h = open_conn(g, Frag(), Frag(), 0), v;
                h.send("POST " + tok + "m." + what + " HTTP/1.1\r\nHost: f.test\r\n\r\n" + b);
                { Watch w; settle(); }
                if (StreamCache::get_streamcache("f.test" + tok + "m")) {
                    ++went;
                    v = open_conn(g, Frag(), Frag(), 0);
                    v.send("GET " + tok + "m." + e + " HTTP/1.1\r\nHost: f.test\r\n\r\n");
                    { Watch w; settle(); }
                    h.send(b.substr(0, b.size() / 2));
                    { Watch w; settle(); }
                    if (v.from->size()) ++served;
                }
                h.close_all();
                { Watch w; settle(); }
                v.close_all();
                ahead += 11000000;
                { Watch w; settle(); }
                ahead += 11000000;
                { Watch w; settle(); }
                safe("published " + what);
                for (double end = mono() + 20; g->live > 0 && !g->failed && mono() < end;) st_usleep(0);
                g->join(0, "connections");
            }
            size_t now = __sanitizer_get_current_allocated_bytes();
            grew = round && now >= last + 64 ? grew + 1 : 0;
            last = now;
        }
        CHECK_MSG(grew < 6, "memory grows with every publication of " << what << " (" << last << " bytes after " << round << ")");
        c.label_if(served > 0, "memory");
        c.nontrivial = served > 0;
        bg->join(0, "connections");
        return;
    }
    // one healthy stream with a viewer
    FPub p; p.id = 0; p.kind = 3;
    auto rest = [&](const std::string& what) { { Watch w; settle(); } safe(what); };
    bool with = s.chance(3, 4);
    Conn view; Bytes in;
    size_t seen = 0, j0 = 0;
    auto push = [&]() { p.conn.send(p.pay.substr(p.sent)); p.sent = p.pay.size(); };
    if (with) {
        p.conn = open_conn(bg, Frag(), Frag(), 0);
        p.conn.send("POST " + tok + "good.flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        p.start(s);
        bool d = c.want_desc; c.want_desc = false;
        while (p.made < 300 && !StreamCache::get_streamcache("f.test" + tok + "good")) { for (int i = 0; i < 30; ++i) p.frame(s, true, c); push(); rest("a publisher"); }
        c.want_desc = d;
        CHECK_MSG(StreamCache::get_streamcache("f.test" + tok + "good"), "harness: no healthy stream");
        view = open_conn(bg, Frag(), Frag(), 0);
        view.send("GET " + tok + "good.flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
        rest("a viewer");
        j0 = p.pkts.size();
    }
    auto healthy = [&](const std::string& what) {
        if (!with) return;
        bool d = c.want_desc; c.want_desc = false;
        p.frame(s, true, c);
        c.want_desc = d;
        push(); rest(what);
        in += view.from->buf.substr(view.from->off); view.from->buf.clear(); view.from->off = 0;
        CHECK_MSG(!*p.conn.ended && !*view.ended, what << ": another publisher or viewer was disconnected");
        Rsp r = parse_response(in, 0);
        CHECK_MSG(r.err.empty() && r.status == 200 && r.body.size() > 13, what << ": the other viewer has no stream");
        std::vector<MPkt> tags, got, want;
        size_t at = 0; std::string why;
        CHECK_MSG(flv_parse(r.body.substr(9, r.body.size() - 13), at, tags, true, &why), what << ": the other viewer's stream: " << why);
        for (auto& t : tags) if (t.type != 18 && t.ptype == 1) got.push_back(t);
        for (auto q : at_join(p.pkts, j0)) want.push_back(*q);
        for (size_t i = j0; i < p.pkts.size(); ++i) want.push_back(p.pkts[i]);
        CHECK_MSG(got == want, what << ": the other viewer: " << frame_diff(got, want));
        ++seen;
    };
    std::vector<Conn> all;
    size_t n = 0, streams = 0, answered = 0;
    static const std::vector<std::string> exts = {"flv", "ts", "mp4", "mkv", "webm", "jpg", "png", "m3u8", "mpd", "mp3", "aac", "h264", "avi", "ogg", "wav", "mov", "m4a", "3gp", "mxf", "asf", "nut", "gif", "bmp", "ass", "srt", "sdp", "f4v", "h265", "yuv", "ac3", "caf", "ism", "chk", "%03d.jpg", "zz"};
    do {
        std::string what; bool valid;
        Bytes b = gen_hostile(s, c, what, valid);
        std::string nm = tok + "x" + std::to_string(n++);
        std::string ext = s.chance(3, 4) ? (what == "playlist" ? "m3u8" : what == "ts" || what == "damaged ts" ? "ts" : what == "h264" || what == "aac" || what == "mpd" || what == "sdp" ? what : "flv") : s.pick(exts);
        if (c.want_desc) c.desc << "publish " << nm << "." << ext << " " << what << " " << b.size() << " bytes; ";
        c.mix(b); c.mix(ext.data(), ext.size());
        Conn h = open_conn(bg, s.chance(1, 4) ? gen_frag(s, 400) : Frag(), Frag(), 0);
        all.push_back(h);
        h.send("POST " + nm + "." + ext + " HTTP/1.1\r\nHost: f.test\r\n\r\n");
        size_t cut = s.boolean() ? b.size() : (size_t) s.draw(b.size());
        h.send(b.substr(0, cut));
        rest("published " + what);
        healthy("after publishing " + what);
        if (StreamCache::get_streamcache("f.test" + nm)) ++streams;
        size_t k = 0;
        while (k++ < 4 && s.more(2)) {
            std::string e = s.chance(1, 3) ? "flv" : s.pick(exts);
            if (c.want_desc) c.desc << "view ." << e << "; ";
            c.mix(e.data(), e.size());
            Conn v = open_conn(bg, Frag(), Frag(), 0);
            all.push_back(v);
            v.send("GET " + nm + "." + e + " HTTP/1.1\r\nHost: f.test\r\n\r\n");
            rest("viewer of ." + e);
            if (v.from->size()) ++answered;
        }
        h.send(b.substr(cut));
        rest("published the rest of " + what);
        if (s.boolean()) { h.close_write(); rest("end of " + what); CHECK_MSG(*h.ended, "the publisher of " << what << " has ended but is still served"); }
        healthy("after " + what);
    } while (s.more(3));
    for (auto& x : all) x.close_all();
    rest("end");
    for (int i = 0; i < 2; ++i) { ahead += 11000000; rest("end"); }
    if (with) { p.conn.close_all(); view.close_all(); rest("end"); ahead += 11000000; rest("end"); }
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label_if(streams > 0, "stream"); c.label_if(seen > 0, "healthy"); c.label_if(answered > 0, "answered");
    c.nontrivial = streams > 0 && answered > 0;
}


// ---- from one format to another
struct XFrame { bool video, key; int64_t dts, pts; Bytes data; };       // data: NAL units with lengths, or a raw AAC frame
static const AVRational ms = {1, 1000};
static std::string xs(const XFrame& f) { return std::string(f.video ? f.key ? "key" : "video" : "audio") + "(dts " + std::to_string(f.dts) + " pts " + std::to_string(f.pts) + " " + std::to_string(f.data.size()) + ")"; }

// a stream written by FFmpeg's muxer, and how much of it is there after every frame
struct XMux {
    AVFormatContext* x = nullptr;
    std::vector<AVStream*> st;
    int v = -1, a = -1, d = -1;
    std::string fmt;
    ~XMux() {
        if (!x) return;
        if (x->pb) { uint8_t* p = nullptr; avio_close_dyn_buf(x->pb, &p); av_free(p); }
        avformat_free_context(x);
    }
    void open(const std::string& f, const std::vector<char>& order, bool id3, bool gather) {
        fmt = f;
        avformat_alloc_output_context2(&x, nullptr, f.c_str(), nullptr);
        for (char o : order) {
            AVStream* s = avformat_new_stream(x, nullptr);
            auto p = s->codecpar;
            auto extra = [&](const Bytes& b) { p->extradata = (uint8_t*) av_mallocz(b.size() + AV_INPUT_BUFFER_PADDING_SIZE); memcpy(p->extradata, b.data(), b.size()); p->extradata_size = (int) b.size(); };
            s->time_base = ms;
            if (o == 'v') { v = s->index; p->codec_type = AVMEDIA_TYPE_VIDEO; p->codec_id = AV_CODEC_ID_H264; p->width = 64; p->height = 48; extra(vconf); }
            else if (o == 'a' || f == "mp4") { (o == 'a' ? a : d) = s->index; p->codec_type = AVMEDIA_TYPE_AUDIO; p->codec_id = AV_CODEC_ID_AAC; p->sample_rate = 44100; p->frame_size = 1024; av_channel_layout_default(&p->ch_layout, 2); extra(aconf); }
            else if (f == "matroska") { p->codec_type = AVMEDIA_TYPE_ATTACHMENT; p->codec_id = AV_CODEC_ID_TTF; extra("not a font"); av_dict_set(&s->metadata, "filename", "x.ttf", 0); av_dict_set(&s->metadata, "mimetype", "application/x-truetype-font", 0); }
            else { d = s->index; p->codec_type = AVMEDIA_TYPE_DATA; p->codec_id = id3 ? AV_CODEC_ID_TIMED_ID3 : AV_CODEC_ID_BIN_DATA; }
        }
        avio_open_dyn_buf(&x->pb);
        AVDictionary* o = nullptr;
        if (f == "mpegts" && !gather) av_dict_set(&o, "pes_payload_size", "0", 0);
        if (f == "mp4") av_dict_set(&o, "movflags", "empty_moov+default_base_moof+frag_every_frame", 0);
        int r = avformat_write_header(x, &o);
        av_dict_free(&o);
        if (r < 0) pbt::fail("harness: muxer " + f + " refused its header");
    }
    void put(int idx, bool key, int64_t dts, int64_t pts, const Bytes& b) {
        if (fmt != "mp4") { write(idx, key, dts, pts, b, 20); return; }
        // this muxer wants to know how long a frame lasts
        auto it = held.find(idx);
        if (it != held.end()) { XFrame h = it->second; write(idx, h.key, h.dts, h.pts, h.data, dts - h.dts); }
        held[idx] = XFrame{false, key, dts, pts, b};
    }
    std::map<int, XFrame> held;
    void write(int idx, bool key, int64_t dts, int64_t pts, const Bytes& b, int64_t lasts) {
        ::AVPacket* k = av_packet_alloc();
        av_new_packet(k, (int) b.size());
        memcpy(k->data, b.data(), b.size());
        k->stream_index = idx; k->dts = dts; k->pts = pts; k->duration = lasts;
        if (key) k->flags |= AV_PKT_FLAG_KEY;
        av_packet_rescale_ts(k, ms, x->streams[idx]->time_base);
        int r = av_write_frame(x, k);
        av_packet_free(&k);
        if (r < 0) pbt::fail("harness: muxer " + fmt + " refused a frame");
    }
    Bytes bytes(bool end) {
        if (end) for (auto& h : held) write(h.first, h.second.key, h.second.dts, h.second.pts, h.second.data, 20);
        if (end) av_write_trailer(x); else av_write_frame(x, nullptr);
        avio_flush(x->pb);
        uint8_t* p = nullptr;
        int n = avio_get_dyn_buf(x->pb, &p);
        return Bytes((char*) p, (size_t) n);
    }
};
struct XIn { const Bytes* b; size_t at; };
static int xread(void* o, uint8_t* p, int n) {
    auto& i = *(XIn*) o;
    size_t k = std::min((size_t) n, i.b->size() - i.at);
    if (!k) return AVERROR_EOF;
    memcpy(p, i.b->data() + i.at, k);
    i.at += k;
    return (int) k;
}
static Bytes vcl(const Bytes& b, bool annexb, bool& bad) {        // the slices of a frame
    Bytes o;
    if (!annexb) {
        for (size_t at = 0; at < b.size();) {
            if (at + 4 > b.size() || at + 4 + rd(b, at, 4) > b.size()) { bad = true; return o; }
            size_t n = rd(b, at, 4);
            if (n && ((b[at + 4] & 31) == 1 || (b[at + 4] & 31) == 5)) o += b.substr(at, 4 + n);
            at += 4 + n;
        }
        return o;
    }
    std::vector<size_t> at;
    for (size_t i = 0; i + 3 <= b.size(); ++i) if (!b[i] && !b[i + 1] && b[i + 2] == 1) at.push_back(i + 3);
    for (size_t i = 0; i < at.size(); ++i) {
        size_t e = i + 1 < at.size() ? at[i + 1] - 3 : b.size();
        while (i + 1 < at.size() && e > at[i] && !b[e - 1]) --e;
        if (e > at[i] && ((b[at[i]] & 31) == 1 || (b[at[i]] & 31) == 5)) o += be(e - at[i], 4) + b.substr(at[i], e - at[i]);
    }
    return o;
}
static std::vector<XFrame> xdemux(const Bytes& b, const char* fmt, std::string& err, bool& bad) {
    std::vector<XFrame> o;
    XIn in{&b, 0};
    AVFormatContext* x = avformat_alloc_context();
    AVIOContext* pb = avio_alloc_context((uint8_t*) av_malloc(65536), 65536, 0, &in, xread, nullptr, nullptr);
    x->pb = pb; x->flags |= AVFMT_FLAG_CUSTOM_IO;
    if (avformat_open_input(&x, "", av_find_input_format(fmt), nullptr) < 0) { err = "not readable"; av_freep(&pb->buffer); avio_context_free(&pb); return o; }
    ::AVPacket* k = av_packet_alloc();
    while (av_read_frame(x, k) >= 0) {
        AVStream* s = x->streams[k->stream_index];
        bool v = s->codecpar->codec_id == AV_CODEC_ID_H264, a = s->codecpar->codec_id == AV_CODEC_ID_AAC;
        if ((v || a) && k->size) {
            XFrame f;
            f.video = v; f.key = v && (k->flags & AV_PKT_FLAG_KEY);
            av_packet_rescale_ts(k, s->time_base, ms);
            f.dts = k->dts; f.pts = k->pts;
            f.data = Bytes((char*) k->data, (size_t) k->size);
            if (v) f.data = vcl(f.data, !strcmp(fmt, "mpegts"), bad);
            else if (!strcmp(fmt, "mpegts")) { if (f.data.size() > 7) f.data.erase(0, (f.data[1] & 1) ? 7 : 9); else bad = true; }
            o.push_back(f);
        }
        av_packet_unref(k);
    }
    av_packet_free(&k);
    avformat_close_input(&x);
    av_freep(&pb->buffer);
    avio_context_free(&pb);
    return o;
}
static void p36(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "/x" + std::to_string(++cases);
    auto bg = group();
    struct XV { Conn conn; std::string fmt; size_t vn, an; };
    std::vector<XV> views;
    std::vector<XFrame> vs, as;
    std::string fmt = s.pick(std::vector<std::string>{"flv", "mpegts", "mp4", "matroska"});
    std::vector<char> order = {'v', 'a'};
    if (s.boolean()) std::swap(order[0], order[1]);
    bool extra = fmt != "flv" && s.boolean(), id3 = s.boolean();
    if (extra) order.insert(order.begin() + s.draw(2), 'd');
    if (c.want_desc) { c.desc << "publish " << fmt << " streams "; for (char o : order) c.desc << o; c.desc << " "; }
    c.mix(fmt.data(), fmt.size()); c.mix(order.data(), order.size());
    XMux m;
    bool gather = fmt == "mpegts" && s.boolean();       // several audio frames share a time
    m.open(fmt, order, id3, gather);
    if (c.want_desc && gather) c.desc << "gathered ";
    Conn pub = open_conn(bg, s.chance(1, 2) ? Frag() : gen_frag(s, 400), Frag(), 0);
    pub.send("POST " + tok + ".flv HTTP/1.1\r\nHost: f.test\r\n\r\n");
    size_t sent = 0;
    auto push = [&](bool end) {
        Bytes b = m.bytes(end);
        if (fmt == "mp4" && sent == 0 && extra) {         // a track of another kind: the one in its place in the list
            size_t at = 0;
            for (int i = 0; i <= m.d; ++i) at = b.find("hdlr", at + 1);
            if (at == Bytes::npos) pbt::fail("harness: no hdlr");
            b.replace(at + 12, 4, "hint");
            at = b.find("mp4a", at);
            if (at == Bytes::npos) pbt::fail("harness: no mp4a");
            b.replace(at, 4, "rtp ");
        }
        pub.send(b.substr(sent));
        sent = b.size();
        settle();
        if (bg->failed) pbt::fail(bg->msg);
    };
    int64_t t = s.range(0, 100000);
    bool live = false;
    auto frame = [&](bool steady) {
        t += steady ? 40 : s.range(1, 80);
        if (fmt == "mp4" && vs.size() + as.size() < 2) t = 0;      // it has the times from the first frame on
        bool v = steady ? (vs.size() + as.size()) % 2 == 0 : s.boolean();
        const Frame& f = v ? vpool[steady ? vs.size() % vpool.size() : s.draw(vpool.size() - 1)] : apool[s.draw(apool.size() - 1)];
        XFrame x;
        x.video = v; x.key = v && f.key; x.dts = x.pts = t;
        x.data = f.data;
        {
            Bytes more = s.blob(steady ? 0 : (size_t) s.skew(0, s.chance(1, 20) ? 3000 : 60));
            for (auto& y : more) if (!y) y = 1;
            size_t no = vs.size() + as.size();                       // no two frames alike
            more += Bytes(1, (char) (1 + no % 255)) + Bytes(1, (char) (1 + no / 255 % 255));
            if (v) {
                size_t at = 0;
                while (at + 4 + rd(x.data, at, 4) < x.data.size()) at += 4 + rd(x.data, at, 4);
                x.data.replace(at, 4, be(rd(x.data, at, 4) + more.size(), 4));
            }
            x.data += more;
            if (!steady && v && (fmt == "flv" || fmt == "mp4") && s.chance(1, 3)) x.pts += s.range(0, 200);
        }
        m.put(v ? m.v : m.a, v ? x.key : true, x.dts, x.pts, x.data);
        c.mix(x.data);
        if (extra && m.d >= 0 && (steady ? (vs.size() + as.size()) % 6 == 0 : s.chance(1, 8))) m.put(m.d, true, t, t, fmt == "mp4" ? apool[0].data : steady && !live ? Bytes(60000, 'd') : s.blob((size_t) s.skew(1, 100)));   // FFmpeg looks at 1 MB of a stream it does not know
        bool b = false;
        x.data = v ? vcl(x.data, false, b) : x.data;
        (v ? vs : as).push_back(x);
    };
    std::string key = "f.test" + tok;
    for (int i = 0; i < 60 && !live; ++i) {
        for (int k = 0; k < 10; ++k) frame(true);
        push(false);
        CHECK_MSG(!*pub.ended, "the publisher of " << fmt << " was disconnected");
        live = StreamCache::get_streamcache(key) != nullptr;
    }
    CHECK_MSG(live, "a published stream (" << fmt << ") never becomes available");
    size_t ops = 0;
    while (s.more(12) && ops++ < 30) {
        if (s.chance(1, 4)) {
            XV v;
            v.fmt = s.pick(std::vector<std::string>{"flv", "ts", "mkv"});
            if (fmt == "mpegts" && v.fmt == "mkv") v.fmt = "flv";             // FFmpeg does not write AAC from MPEG-TS to it
            if (extra && fmt != "matroska") v.fmt = "ts";                      // formats that cannot carry the other stream refuse it
            v.vn = vs.size(); v.an = as.size();
            if (c.want_desc) c.desc << "view ." << v.fmt << " ";
            v.conn = open_conn(bg, Frag(), gen_frag(s, 400), 0);
            v.conn.send("GET " + tok + "." + v.fmt + " HTTP/1.1\r\nHost: f.test\r\n\r\n");
            settle();
            views.push_back(v);
        } else {
            size_t k = (size_t) s.skew(1, 10);
            if (c.want_desc) c.desc << k << " frames ";
            while (k--) frame(false);
            push(false);
            CHECK_MSG(!*pub.ended, "the publisher of " << fmt << " was disconnected");
        }
    }
    // enough for everything that was joined to be delivered
    for (int i = 0; i < 80; ++i) frame(true);
    push(true);
    pub.close_write();
    settle();
    size_t got_frames = 0;
    for (auto& v : views) {
        std::string who = fmt + " to " + v.fmt + " after " + std::to_string(v.vn) + " video and " + std::to_string(v.an) + " audio frames: ";
        CHECK_MSG(!*v.conn.ended, who << "the viewer was disconnected");
        Rsp r = parse_response(v.conn.from->buf.substr(v.conn.from->off), 0);
        CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response " << r.err);
        std::string err; bool bad = false;
        auto got = xdemux(r.body, v.fmt == "ts" ? "mpegts" : v.fmt == "mkv" ? "matroska" : "flv", err, bad);
        CHECK_MSG(err.empty() && !bad, who << err << (bad ? "malformed frames" : ""));
        std::vector<XFrame> gv, ga;
        for (auto& f : got) (f.video ? gv : ga).push_back(f);
        got_frames += got.size();
        auto same = [&](const XFrame& g, const XFrame& w) {
            bool times = g.pts == w.pts && (v.fmt == "mkv" || g.dts == w.dts || g.dts == AV_NOPTS_VALUE);
            if (!w.video && fmt == "mp4") times = std::abs(g.pts - w.pts) <= 1;     // counted in samples there
            if (!w.video && (v.fmt == "ts" || gather)) times = true;       // audio frames share times there
            return g.data == w.data && g.key == w.key && times;
        };
        auto run = [&](const std::vector<XFrame>& g, const std::vector<XFrame>& w, const char* what) -> size_t {
            CHECK_MSG(!g.empty(), who << "no " << what << " at all");
            size_t i0 = 0;
            // the frame to begin with: the last one that matches and leaves room
            size_t best = w.size(), len = 0;
            for (i0 = 0; i0 < w.size(); ++i0) {
                size_t k = 0;
                while (k < g.size() && i0 + k < w.size() && same(g[k], w[i0 + k])) ++k;
                if (k > len || best == w.size()) { if (k >= len && k > 0) { len = k; best = i0; } }
            }
            CHECK_MSG(best < w.size(), who << "the first " << what << " frame was not published: " << xs(g[0]) << " published " << xs(w[0]) << " .. " << xs(w.back()));
            CHECK_MSG(len == g.size(), who << what << " frame " << len << " of " << g.size() << ": got " << xs(g[len]) << " expected " << (best + len < w.size() ? xs(w[best + len]) : std::string("the end")));
            // FFmpeg gathers audio for MPEG-TS in units of about 3000 bytes
            size_t rest = 0, end = best + len;
            if ((v.fmt == "ts" || gather) && !w[0].video) while (end < w.size() && rest < 3500) rest += w[end++].data.size() + 7;
            CHECK_MSG(end + (v.fmt == "mkv" ? 20 : 3) >= w.size(), who << what << " stops at frame " << best + len << " of " << w.size());
            return best;
        };
        size_t k0 = run(gv, vs, "video"), a0 = run(ga, as, "audio");
        CHECK_MSG(vs[k0].key, who << "the video does not begin with a key frame: " << xs(gv[0]));
        size_t newest = 0, oldest = 0;
        for (size_t i = 0; i < v.vn; ++i) if (vs[i].key) { newest = i; if (i + 5 < v.vn) oldest = i; }
        CHECK_MSG(k0 >= oldest && k0 <= newest, who << "the video begins with frame " << k0 << ", the last key frame is " << newest);
        size_t before = 0, until = 0;         // a frame is known when the next one begins, for some formats
        for (auto& x : as) { if (x.dts < vs[k0].dts) ++before; if (x.dts < vs[std::min(k0 + 2, vs.size() - 1)].dts) ++until; }
        size_t slack = gather ? 30 : 5;
        CHECK_MSG(a0 + slack >= before && a0 <= until + slack, who << "the audio begins with frame " << a0 << " instead of " << before);
    }
    pub.close_all();
    for (auto& v : views) v.conn.close_all();
    for (int i = 0; i < 2; ++i) { ahead += 11000000; settle(); }
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label(fmt.c_str());
    for (auto& v : views) if (std::string(v.fmt) != fmt) c.label(("to " + v.fmt).c_str());
    c.label_if(extra, "other streams");
    c.nontrivial = got_frames > 0;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P34";
    a.rule = "histories of publishers of encoded H.264 and AAC (video, audio or both) in random pieces and viewers joining, leaving and stalling, with the formats backed by FFmpeg; after every step each viewer must have exactly the frames of the model; non-trivial: a late viewer got frames; distinct by operations and frames";
    a.body = p34; a.setup = setup; a.quick_cases = 4000; a.thorough_cases = 200000; a.cpu_clock = false; a.case_timeout = 60;
    pbt::Property b;
    b.id = "P35";
    b.rule = "publications of damaged FLV and MPEG-TS, FLV with unusable times, elementary streams, playlists, concatenation lists and session descriptions, and viewers asking for any format, beside a healthy stream; nothing may be opened, the process may not end and the healthy viewer gets every frame; non-trivial: a published stream went live and a viewer of it was answered; distinct by content and formats";
    b.body = p35; b.setup = setup; b.quick_cases = 8000; b.thorough_cases = 60000; b.cpu_clock = false; b.case_timeout = 60;
    pbt::Property d;
    d.id = "P36";
    d.rule = "H.264 and AAC published as FLV, MPEG-TS, fragmented MP4 or Matroska with streams in any order, also beside streams of other kinds, and viewers asking for FLV, MPEG-TS and Matroska at any moment; what each got is read back with FFmpeg and compared with the published frames; non-trivial: a viewer got frames; distinct by streams, formats and frames";
    d.body = p36; d.setup = setup; d.quick_cases = 3000; d.thorough_cases = 60000; d.cpu_clock = false; d.case_timeout = 60;
    return pbt::run_main(argc, argv, {a, b, d});
}
