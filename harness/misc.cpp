// PROPERTIES: P22 P27 P28 P29
// TECHNIQUE P22: property-based testing: generated contents and mixtures of byte, exact and line reads against a byte-string model; files of generated write histories read back
// TECHNIQUE P27: property-based testing: stream identifiers generated from their fields, the fields as oracle
// TECHNIQUE P28: property-based testing: generated registries and near-miss names, string equality as oracle
// TECHNIQUE P29: property-based testing: generated texts logged through the console logger, captured output compared with the text
#include "common.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sps_io_memory.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_ffmpeg_enc.hpp>
#include <sps_avformat_ffmpeg_dec.hpp>
#include <sps_srt_server_handler.hpp>

using namespace sps;
namespace sps { extern PRequestUrl get_url_by_streamid(const std::string& streamid); }

static void setup() { format_log(); av_log_set_level(AV_LOG_QUIET); }

// ---------------------------------------------------------------- P22
static Bytes gen_content(Src& s) {
    Bytes b;
    size_t n = (size_t) s.skew(0, 12);
    for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({4, 2, 1})) {
            case 0: b += s.text((size_t) s.skew(0, 40), "abc d\t\r.#;{}"); break;
            case 1: { Bytes x = s.blob((size_t) s.skew(0, 30)); b += x; break; }
            default: b += s.text((size_t) s.skew(1, 9000), "xyz");
        }
        if (i + 1 < n || s.boolean()) b += "\n";
    }
    return b;
}
static void read_back(Src& s, Ctx& c, IReader& r, const Bytes& data, bool lines, int start_line = 0) {
    size_t pos = 0;
    int nl = start_line;
    for (int step = 0; step < 4000; ++step) {
        int op = lines ? (int) s.weighted({3, 2, 1}) : (int) s.weighted({0, 2, 1});
        size_t n = (size_t) s.skew(1, (int64_t) std::max<size_t>(data.size() + 3, 4));
        if (op == 0) {
            std::string line = "garbage";
            error_t e = r.read_line(line);
            if (pos >= data.size()) { CHECK_MSG(e == ERROR_IO_EOF, "line at the end returned " << e); break; }
            CHECK_MSG(e == SUCCESS, "line returned " << e << " at " << pos << " of " << data.size());
            size_t k = data.find('\n', pos);
            Bytes want = data.substr(pos, k == Bytes::npos ? Bytes::npos : k - pos);
            CHECK_MSG(line == want, "line at " << pos << ": " << pbt::quote(line) << " expected " << pbt::quote(want));
            pos = k == Bytes::npos ? data.size() : k + 1;
            ++nl;
            CHECK_EQ(r.cur_line_num(), nl);
        } else if (op == 1) {
            uint8_t* buf = new uint8_t[n];
            size_t got = 0;
            error_t e = r.read(buf, n, got);
            if (pos >= data.size()) { delete[] buf; CHECK_MSG(e == ERROR_IO_EOF, "read at the end returned " << e << " with " << got << " bytes"); break; }
            bool ok = e == SUCCESS && got > 0 && got <= n && pos + got <= data.size() && memcmp(buf, data.data() + pos, got) == 0;
            delete[] buf;
            CHECK_MSG(ok, "read of " << n << " at " << pos << " of " << data.size() << " returned " << e << " with " << got << " bytes");
            pos += got;
        } else {
            uint8_t* buf = new uint8_t[n];
            ssize_t got = -7;
            bool ask = s.boolean();
            error_t e = r.read_fully(buf, n, ask ? &got : nullptr);
            if (pos + n > data.size()) { delete[] buf; CHECK_MSG(e == ERROR_IO_EOF, "exact read of " << n << " at " << pos << " of " << data.size() << " returned " << e); break; }
            bool ok = e == SUCCESS && memcmp(buf, data.data() + pos, n) == 0 && (!ask || got == (ssize_t) n);
            delete[] buf;
            CHECK_MSG(ok, "exact read of " << n << " at " << pos << " of " << data.size() << " returned " << e << " count " << got);
            pos += n;
        }
    }
    c.label_if(pos >= data.size() && !data.empty(), "read-to-the-end");
}
static Bytes slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::ostringstream o; o << i.rdbuf();
    return o.str();
}
static void spill(const std::string& f, const Bytes& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(b.data(), (long) b.size()); }

static void p22(Src& s, Ctx& c) {
    int kind = (int) s.weighted({4, 3, 3, 1});
    Bytes data = gen_content(s);
    c.mix(data);
    c.mix(&kind, 4);
    if (c.want_desc) c.desc << (kind == 0 ? "memory " : kind == 1 ? "file " : kind == 2 ? "write file " : "write memory ") << pbt::quote(data, 300);
    c.nontrivial = data.size() > 3;
    if (kind == 0) {
        Heap h(data);
        MemoryReaderWriter r((char*) h.p, (int) h.n);
        read_back(s, c, r, data, true);
        c.label("memory");
        return;
    }
    if (kind == 3) {
        Bytes img((size_t) s.skew(1, 300), '.');
        Heap h(img);
        MemoryReaderWriter w((char*) h.p, (int) h.n);
        size_t pos = 0;
        while (s.more(5)) {
            Bytes x = s.blob((size_t) s.skew(1, 80));
            Heap y(x);
            error_t e = w.write(y.p, y.n);
            bool fits = pos + x.size() <= img.size();
            CHECK_MSG((e == SUCCESS) == fits, "write of " << x.size() << " at " << pos << " of " << img.size() << " returned " << e);
            if (fits) { memcpy(&img[pos], x.data(), x.size()); pos += x.size(); }
        }
        CHECK_MSG(memcmp(h.p, img.data(), img.size()) == 0, "memory differs from what was written");
        c.label("memory-write");
        return;
    }
    std::string dir = pbt::scratch() + "/f" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    std::string f = dir + "/" + s.pick<std::string>({"x", "a.flv", "b.c.d", "no ext"});
    struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f};
    if (kind == 1) {
        spill(f, data);
        FileURLProtocol r;
        int how = (int) s.draw(2);
        error_t e;
        if (how == 0) e = r.open(f);
        else {
            PRequestUrl u;
            e = RequestUrl::from("file://" + f, u);
            CHECK_MSG(e == SUCCESS, "file url refused: " << f);
            CHECK_EQ(u->schema, std::string("file"));
            e = r.open(u, Transport::DEFAULT);
        }
        CHECK_MSG(e == SUCCESS, "open returned " << e);
        read_back(s, c, r, data, true);
        r.close();
        CHECK_MSG(slurp(f) == data, "file changed by reading");
        c.label("file");
        return;
    }
    // write histories: the file is a byte string, trunc empties it, append writes at its end
    bool exists = s.boolean();
    Bytes img;
    unlink(f.c_str());
    if (exists) { img = data; spill(f, img); }
    size_t rounds = (size_t) s.range(1, 4);
    for (size_t i = 0; i < rounds; ++i) {
        bool trunc = false, append = false;
        switch (s.draw(2)) { case 0: trunc = true; break; case 1: append = true; break; default: break; }
        FileURLProtocol w(trunc, append);
        error_t e = w.open(f);
        bool have = access(f.c_str(), F_OK) == 0;
        if (!exists && !trunc && !append) { CHECK_MSG(e != SUCCESS, "opened a file that does not exist"); CHECK(!have); continue; }
        CHECK_MSG(e == SUCCESS, "open returned " << e);
        exists = true;
        if (trunc) img.clear();
        size_t at = append ? img.size() : 0;
        bool after_eof = !append && s.chance(1, 6);
        if (after_eof) {
            Bytes sink(img.size() + 10, 0);
            size_t got;
            while (w.read(&sink[0], sink.size(), got) == SUCCESS) {}
        }
        while (s.more(4)) {
            Bytes x = s.blob((size_t) s.skew(1, 6000));
            if (s.chance(1, 4)) x = s.text((size_t) s.skew(1, 30), "ab\n");
            Heap y(x);
            e = w.write(y.p, y.n);
            if (after_eof) { CHECK_MSG(e != SUCCESS || true, ""); if (e != SUCCESS) break; at = img.size(); }
            CHECK_MSG(e == SUCCESS, "write returned " << e);
            if (at + x.size() > img.size()) img.resize(at + x.size());
            memcpy(&img[at], x.data(), x.size());
            at += x.size();
        }
        w.close();
        Bytes now = slurp(f);
        CHECK_MSG(now == img, "file holds " << now.size() << " bytes, expected " << img.size() << (trunc ? " (trunc)" : append ? " (append)" : ""));
    }
    if (exists) { FileURLProtocol r; CHECK(r.open(f) == SUCCESS); read_back(s, c, r, img, true); }
    c.label("file-write");
}

// ---------------------------------------------------------------- P27
static void p27(Src& s, Ctx& c) {
    // fields in any order
    std::string host = s.text((size_t) s.skew(1, 12), "abcdefghijklmnopqrstuvwxyz0123456789") ;
    if (s.boolean()) host += "." + s.text((size_t) s.skew(1, 6), "abcz");
    int port = s.chance(1, 3) ? (int) s.range(1, 65535) : 0;
    std::string path;
    while (s.more(2) && path.size() < 60) path += "/" + s.text((size_t) s.skew(1, 10), "abcdefgh0123-_.~");
    std::string query;
    if (!path.empty() && s.chance(1, 3)) {
        query = "?" + s.text((size_t) s.skew(1, 6), "abck") + "=" + s.text((size_t) s.skew(0, 6), "abc01=");
        if (s.boolean()) query += "&m=" + s.pick<std::string>({"request", "publish", "x"});
    }
    std::string mode = s.pick<std::string>({"publish", "request", "", "-"});   // "-": field absent
    bool full = s.chance(1, 4);
    bool have_h = !s.chance(1, 12);
    std::vector<std::string> fields;
    std::string target = (full ? "srt://" : "") + host + (port ? ":" + std::to_string(port) : "") + path + query;
    if (have_h) fields.push_back("h=" + target);
    if (mode != "-") fields.push_back("m=" + mode);
    while (s.chance(1, 3)) fields.push_back(s.pick<std::string>({"u", "s", "t", "hh", "mm", "x-y"}) + "=" + s.text((size_t) s.skew(0, 8), "abc/:.request"));
    for (size_t i = fields.size(); i > 1; --i) std::swap(fields[i - 1], fields[s.draw(i - 1)]);
    std::string id = "#!::";
    for (size_t i = 0; i < fields.size(); ++i) id += (i ? "," : "") + fields[i];
    if (s.chance(1, 3)) id += ",";
    c.mix(id);
    c.desc << pbt::quote(id);
    auto req = get_url_by_streamid(id);
    if (!have_h) {
        CHECK_MSG(!req, "identifier without a resource accepted as " << req->host << req->path);
        c.label("no-resource");
        return;
    }
    CHECK_MSG(req, "refused");
    CHECK_EQ(req->host, host);
    CHECK_EQ(req->path, path);
    CHECK_EQ(req->params, query.empty() ? query : query.substr(1));
    CHECK_EQ(std::string(req->schema), std::string("srt"));
    if (port) CHECK_EQ(req->port, port);
    CHECK_EQ(req->method, std::string(mode == "request" ? "request" : "publish"));
    c.label("mode-" + mode);
    c.label_if(full, "full-url");
    c.nontrivial = fields.size() >= 2;
}
// arbitrary text: no crash, refused or understood
static void p27_any(Src& s, Ctx& c) {
    std::string id = s.boolean() ? "#!::" : "";
    size_t n = (size_t) s.skew(0, 12);
    for (size_t i = 0; i < n; ++i) id += s.pick<std::string>({"h", "m", "=", ",", "/", ":", "a", "srt://", "request", "publish", "#", "!", "\xff", "?", ".", " "});
    c.mix(id);
    c.desc << pbt::quote(id);
    auto r = get_url_by_streamid(id);
    if (r) CHECK(r->method == "publish" || r->method == "request");
    if (id.find("h=") == std::string::npos) CHECK_MSG(!r, "identifier without a resource accepted");
    c.label("arbitrary");
}
static void p27_all(Src& s, Ctx& c) { if (s.chance(1, 5)) p27_any(s, c); else p27(s, c); }

// ---------------------------------------------------------------- P28
static std::string near_miss(Src& s, const std::string& n) {
    std::string x = n;
    switch (s.draw(7)) {
        case 0: return x;
        case 1: return x.substr(0, s.draw(x.size()));
        case 2: return x + s.pick<std::string>({"x", "v", "1", "s", "p"});
        case 3: return x + x;
        case 4: if (!x.empty()) x[s.draw(x.size() - 1)] ^= 0x20; return x;
        case 5: return s.pick<std::string>({"h", "s", "x", "m"}) + x;
        case 6: return s.text((size_t) s.skew(1, 5), "flvtsrp4m");
        default: return "";
    }
}
class ProbeDemuxer : public IAVDemuxer {
 public:
    explicit ProbeDemuxer(int i) : i(i) {}
    error_t read_header(PAVPacket&) override { return SUCCESS; }
    error_t read_packet(PAVPacket&) override { return SUCCESS; }
    error_t read_tail(PAVPacket&) override { return SUCCESS; }
    error_t probe(PAVPacket&) override { return SUCCESS; }
    int i;
};
class ProbeIn : public IAVInputFormat {
 public:
    ProbeIn(const char* n, const char* e, int i) : IAVInputFormat(n, e), i(i) {}
    PIAVDemuxer _create(PIReader) override { return std::make_shared<ProbeDemuxer>(i); }
    int i;
};
class ProbeMuxer : public IAVMuxer {
 public:
    explicit ProbeMuxer(int i) : i(i) {}
    error_t write_header(PAVPacket&) override { return SUCCESS; }
    error_t write_packet(PAVPacket&) override { return SUCCESS; }
    error_t write_tail(PAVPacket&) override { return SUCCESS; }
    int i;
};
class ProbeOut : public IAVOutputFormat {
 public:
    ProbeOut(const char* n, const char* e, int i) : IAVOutputFormat(n, e), i(i) {}
    PIAVMuxer _create(PIWriter) const override { return std::make_shared<ProbeMuxer>(i); }
    int i;
};
class ProbeProto : public IURLProtocolFactory {
 public:
    ProbeProto(const char* s) : IURLProtocolFactory(s, DEFAULT) {}
    PIURLProtocol create(PRequestUrl) override { auto p = std::make_shared<FileURLProtocol>(); last = this; return p; }
    static ProbeProto* last;
};
ProbeProto* ProbeProto::last = nullptr;

static void p28(Src& s, Ctx& c) {
    static const std::vector<std::string> exts = {"flv", "ts", "rtp", "mp4", "m", "flv2", "m3u8", "f"};
    std::vector<std::string> reg;
    while (s.more(3) && reg.size() < 5) {
        std::string e = s.pick(exts);
        if (std::find(reg.begin(), reg.end(), e) == reg.end()) reg.push_back(e);
    }
    std::string q = near_miss(s, reg.empty() || s.chance(1, 4) ? s.pick(exts) : s.pick(reg));
    int kind = (int) s.weighted({3, 3, 3, 2, 1, 2});
    for (auto& r : reg) c.mix(r + ",");
    c.mix(q); c.mix(&kind, 4);
    if (c.want_desc) { c.desc << "kind " << kind << " registered"; for (auto& r : reg) c.desc << " " << r; c.desc << "; looked up " << pbt::quote(q); }
    int want = -1;
    for (size_t i = 0; i < reg.size(); ++i) if (reg[i] == q) want = (int) i;
    c.nontrivial = !reg.empty();
    c.label(want >= 0 ? "present" : "absent");
    bool urlable = !q.empty();
    for (char ch : q) if (!isalnum((unsigned char) ch)) urlable = false;
    static std::vector<std::string*> keep;
    // exact heap copies, so that reading past the end of a name is seen
    auto cstr = [&](const std::string& x) { char* p = new char[x.size() + 1]; memcpy(p, x.c_str(), x.size() + 1); return std::unique_ptr<char[]>(p); };
    std::vector<std::unique_ptr<char[]>> own;
    for (auto& r : reg) own.push_back(cstr(r));
    auto qp = cstr(q);
    std::vector<std::string> nm;
    for (auto& r : reg) nm.push_back("n" + r);
    if (kind == 5) {
        // registries by key and in order, through histories of registering, cancelling and looking up
        KeyRegisters<std::string, int> kr;
        FifoRegisters<int> fr;
        Registers<int, int> sr;
        std::map<std::string, int> km;
        std::vector<int> fm;
        std::set<int> sm;
        int n = 0;
        do {
            int op = (int) s.draw(5), v = (int) s.draw(5);
            std::string k = near_miss(s, s.pick(exts));
            c.mix(&op, 4); c.mix(&v, 4); c.mix(k);
            switch (op) {
                case 0: kr.reg(k, v); km[k] = v; break;
                case 1: kr.cancel(k); km.erase(k); break;
                case 2: fr.reg(v); fm.push_back(v); break;
                case 3: { fr.cancel(v); auto it = std::find(fm.begin(), fm.end(), v); if (it != fm.end()) fm.erase(it); break; }
                case 4: sr.reg(v); sm.insert(v); break;
                default: sr.cancel(v); sm.erase(v);
            }
            int* g = kr.get(k);
            CHECK_MSG(!!g == (km.count(k) > 0) && (!g || *g == km[k]), "key " << pbt::quote(k) << (g ? " found" : " not found"));
            for (auto& x : km) CHECK_MSG(kr.get(x.first) && *kr.get(x.first) == x.second, "key " << pbt::quote(x.first) << " lost");
            CHECK(std::vector<int>(fr.refs().begin(), fr.refs().end()) == fm);
            CHECK(sr.refs() == sm);
        } while (s.more(6) && ++n < 40);
        c.nontrivial = n > 1;
        c.label("registries");
        return;
    }
    if (kind == 0) {
        AVDemuxerFactory f;
        for (size_t i = 0; i < reg.size(); ++i) f.reg(std::make_shared<ProbeIn>(nm[i].c_str(), own[i].get(), (int) i));
        for (auto& r : f.refs()) CHECK_MSG(r->match(qp.get()) == (q == r->ext), "input format " << r->ext << " and " << q);
        PRequestUrl u = std::make_shared<RequestUrl>();
        if (!urlable && !q.empty()) return;
        CHECK(u->parse_url("http://h/dir.x/file" + (q.empty() ? "" : "." + q) + s.pick<std::string>({"", "?a=b.flv"})) == SUCCESS);
        auto d = f.create(nullptr, u);
        int got = d ? std::dynamic_pointer_cast<ProbeDemuxer>(d)->i : -1;
        CHECK_MSG(got == want, "demuxer " << got << ", expected " << want);
        if (d) CHECK(d->name() && q == d->name()->ext && std::string("n") + q == d->name()->name);
        auto d2 = f.create(nullptr, std::string("http://h/dir.x/file") + (q.empty() ? "" : "." + q));
        CHECK_MSG((d2 ? std::dynamic_pointer_cast<ProbeDemuxer>(d2)->i : -1) == want, "demuxer by address differs");
        CHECK_MSG(!f.create(nullptr, std::string("not a url.") + q), "a demuxer for something that is no address");
    } else if (kind == 1) {
        AVEncoderFactory f;
        for (size_t i = 0; i < reg.size(); ++i) f.reg(std::make_shared<ProbeOut>(nm[i].c_str(), own[i].get(), (int) i));
        for (auto& r : f.refs()) CHECK_MSG(r->match(qp.get()) == (q == r->ext), "output format " << r->ext << " and " << q);
        PRequestUrl u = std::make_shared<RequestUrl>();
        if (!urlable && !q.empty()) return;
        CHECK(u->parse_url("http://h/dir.x/file" + (q.empty() ? "" : "." + q) + s.pick<std::string>({"", "?a=b.flv"})) == SUCCESS);
        auto d = f.create(nullptr, u);
        int got = d ? std::dynamic_pointer_cast<ProbeMuxer>(d)->i : -1;
        CHECK_MSG(got == want, "muxer " << got << ", expected " << want);
        if (d) CHECK(d->name() && q == d->name()->ext && std::string("n") + q == d->name()->name && d->url == u);
        auto d2 = f.create(nullptr, std::string("http://h/dir.x/file") + (q.empty() ? "" : "." + q));
        CHECK_MSG((d2 ? std::dynamic_pointer_cast<ProbeMuxer>(d2)->i : -1) == want, "muxer by address differs");
        CHECK_MSG(!f.create(nullptr, std::string("not a url.") + q), "a muxer for something that is no address");
    } else if (kind == 2) {
        UrlProtocol f;
        bool alpha = true;
        std::vector<std::shared_ptr<ProbeProto>> fs;
        for (size_t i = 0; i < reg.size(); ++i) { fs.push_back(std::make_shared<ProbeProto>(own[i].get())); f.reg(fs.back()); }
        for (char ch : q) if (!isalpha((unsigned char) ch)) alpha = false;
        if (!alpha || q.empty()) return;
        ProbeProto::last = nullptr;
        auto p = f.create(q + "://host/x");
        CHECK_MSG(!!p == (want >= 0), "protocol " << q << (p ? " found" : " not found"));
        if (p) CHECK_MSG(ProbeProto::last == fs[(size_t) want].get(), "wrong protocol for " << q);
        if (p && s.boolean()) { f.cancel(fs[(size_t) want]); CHECK_MSG(!f.create(q + "://host/x"), "cancelled protocol still found"); }
    } else if (kind == 3) {
        // the project's own formats
        FlvAVInputFormat fi; FlvAVOutputFormat fo; TsAVInputFormat ti;
        std::string x = near_miss(s, s.pick<std::string>({"flv", "ts"}));
        auto xp = cstr(x);
        CHECK_MSG(fi.match(xp.get()) == (x == "flv"), "flv demuxer and " << pbt::quote(x));
        CHECK_MSG(fo.match(xp.get()) == (x == "flv"), "flv muxer and " << pbt::quote(x));
        CHECK_MSG(ti.match(xp.get()) == (x == "ts"), "ts demuxer and " << pbt::quote(x));
        UrlProtocol f;
        f.reg(std::make_shared<HttpURLProtocolFactory>());
        f.reg(std::make_shared<FileURLProtocolFactory>());
        std::string sc = near_miss(s, s.pick<std::string>({"http", "file"}));
        for (auto& ch : sc) if (!isalpha((unsigned char) ch)) ch = 'q';
        if (!sc.empty()) {
            auto p = f.create(sc + "://host/x");
            CHECK_MSG(!!p == (sc == "http" || sc == "file"), "schema " << sc << (p ? " found" : " not found"));
            if (p) CHECK_MSG(!!std::dynamic_pointer_cast<FileURLProtocol>(p) == (sc == "file"), "wrong protocol for " << sc);
        }
    } else {
        // the ffmpeg muxer: unknown extensions yield nothing
        FFmpegAVOutputFormat fo;
        PRequestUrl u = std::make_shared<RequestUrl>();
        std::string x = s.pick<std::string>({"flv", "ts", "zzz", "flvx", "", "nosuch", "mp"});
        CHECK(u->parse_url("http://h/live/a" + (x.empty() ? "" : "." + x)) == SUCCESS);
        auto io = script_io("", Frag{{1}});
        auto m = fo.create2(io, u);
        CHECK_MSG(!!m == (x == "flv" || x == "ts"), "ffmpeg muxer for " << pbt::quote(x) << (m ? " created" : " refused"));
        c.label("ffmpeg");
    }
}

// ---------------------------------------------------------------- P29
static int cap_fd = -1;
namespace sps { extern ILog* default_log; }
static void setup29() {
    fflush(stdout);
    cap_fd = memfd_create("out", 0);
    dup2(cap_fd, 1);
    sps::log = sps::default_log;     // the logger the server uses
}
static Bytes captured() {
    fflush(stdout);
    off_t n = lseek(cap_fd, 0, SEEK_END);
    Bytes b((size_t) n, 0);
    if (n && pread(cap_fd, &b[0], (size_t) n, 0) != n) pbt::fail("harness: pread");
    if (ftruncate(cap_fd, 0)) {}
    lseek(cap_fd, 0, SEEK_SET);
    return b;
}
static std::string gen_text(Src& s) {
    std::string t;
    size_t n = (size_t) s.skew(0, 10);
    for (size_t i = 0; i < n; ++i) switch (s.weighted({3, 4, 2, 1})) {
        case 0: t += s.text((size_t) s.skew(0, 20), "abc /:.?=&"); break;
        case 1: t += s.pick<std::string>({"%s", "%n", "%d", "%", "%%", "%x%x%x", "%1000000s", "%*d", "%.5s", "%lld", "%5$s", "%c", "%p"}); break;
        case 2: { Bytes b = s.blob((size_t) s.skew(1, 8)); for (auto& ch : b) if (!ch) ch = '\x01'; t += b; break; }
        default: t += s.text((size_t) s.skew(1, 5000), "xyz%");
    }
    return t;
}
static void p29(Src& s, Ctx& c) {
    std::string t = gen_text(s), u = s.boolean() ? gen_text(s) : "u";
    int64_t num = (int64_t) s.draw(UINT64_MAX);
    auto exact = [](const std::string& x) { char* p = new char[x.size() + 1]; memcpy(p, x.c_str(), x.size() + 1); return std::unique_ptr<char[]>(p); };
    auto tp = exact(t), up = exact(u);
    int kind = (int) s.draw(5);
    c.mix(t); c.mix(u); c.mix(&kind, 4);
    if (c.want_desc) c.desc << "kind " << kind << " " << pbt::quote(t) << " " << pbt::quote(u);
    captured();
    std::string body;    // what must follow the "[file:line] [id] " part
    errno = 0;
    switch (kind) {
        case 0: sp_error("start %s end", tp.get()); body = "start " + t + " end (0 Success)\r\n"; break;
        case 1: sp_warn("%s", tp.get()); body = t + "\r\n"; break;
        case 2: sp_trace("x %s y %ld z %s", tp.get(), (long) num, up.get()); body = "x " + t + " y " + std::to_string(num) + " z " + u + "\r\n"; break;
        case 3: sp_info("%s%s", tp.get(), up.get()); body = t + u + "\r\n"; break;
        case 4: sps::log->printf(sps::LOG_LEVEL::INFO, "%s", tp.get()); body = t; break;
        default: sp_info("%.10s|%5d|%c", tp.get(), 42, 'q'); body = t.substr(0, 10) + "|   42|q\r\n"; break;
    }
    Bytes out = captured();
    // "[YYYY-MM-DD hh:mm:ss.mmm] "
    CHECK_MSG(out.size() >= 26 && out[0] == '[' && out.compare(24, 2, "] ") == 0, "time stamp: " << pbt::quote(out, 60));
    size_t at = 26;
    if (kind != 4) {
        size_t a = out.find("] [", at);
        CHECK_MSG(out.compare(at, 10, "[misc.cpp:") == 0 && a != Bytes::npos, "location: " << pbt::quote(out, 80));
        size_t b = out.find("] ", a + 3);
        CHECK(b != Bytes::npos);
        at = b + 2;
    }
    Bytes rest = out.substr(at);
    bool whole = rest == body;
    bool cut = rest.size() < body.size() && body.compare(0, rest.size(), rest) == 0 && out.size() >= 4000;
    CHECK_MSG(whole || cut, "logged " << pbt::quote(rest, 300) << " (" << rest.size() << " bytes) for " << pbt::quote(body, 300) << " (" << body.size() << ")");
    c.label_if(cut, "cut");
    c.label_if(t.find('%') != std::string::npos, "percent");
    c.nontrivial = t.size() > 1;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P22";
    a.rule = "contents of text lines, binary pieces and long lines, read from memory or a file by a random mixture of read, exact read and read_line with random sizes until the end; or histories of opening (plain, truncating, appending), writing and closing a file, or writing to memory; non-trivial: more than three bytes; distinct by content and kind";
    a.body = p22; a.setup = setup; a.quick_cases = 150000; a.thorough_cases = 1500000;
    pbt::Property b;
    b.id = "P27";
    b.rule = "stream identifiers built from host, port, path, query, mode and unknown fields in random order with or without a final comma, plus arbitrary token strings; non-trivial: two or more fields; distinct by identifier";
    b.body = p27_all; b.setup = setup; b.quick_cases = 2000000; b.thorough_cases = 8000000;
    pbt::Property d;
    d.id = "P28";
    d.rule = "random registries of input formats, output formats or protocols, and lookups of registered names, prefixes, extensions, case changes and unrelated names, by name or by an address with that extension; histories of keyed and ordered registries; non-trivial: something registered; distinct by registry and name";
    d.body = p28; d.setup = setup; d.quick_cases = 600000; d.thorough_cases = 6000000;
    pbt::Property e;
    e.id = "P29";
    e.rule = "texts with format directives, control bytes and lengths up to several times the line limit, passed as arguments to the logging macros; standard output captured; non-trivial: text longer than one byte; distinct by texts and macro";
    e.body = p29; e.setup = setup29; e.quick_cases = 1000000; e.thorough_cases = 4000000;
    return pbt::run_main(argc, argv, {a, b, d, e});
}
