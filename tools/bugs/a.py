BUGS = {}
PK = r'''
#include <sps_avformat_cache.hpp>
#include <sps_avformat_packet.hpp>
#include <list>
#include <cstdio>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
'''
BUGS["cache_script_clock"] = dict(property="P05", file="avformat/sps_avformat_cache.cpp",
  edits=[("    } else if (pb->is_script()) {\n", "    } else if (pb->is_script() && !(script && pb->dts < script->dts)) {\n")],
  needs="a script packet whose decode time is lower than that of an earlier script packet (publisher restarted its clock)",
  breaks="late viewers keep getting the old script data instead of the latest one",
  demo=PK + r'''
static PAVPacket script(int64_t dts, char c) { uint8_t b[4] = {(uint8_t)c, 1, 2, 3}; return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_SUBTITLE, AVPacketType{0}, b, 4, dts, dts, 0, 0); }
int main() {
    sps::log = new NullLog();
    st_init();
    AVGopCacheStream c;
    c.put(script(5000, 'a'));
    c.put(script(10, 'b'));
    std::list<PAVPacket> l;
    c.dump(l, false);
    return l.size() == 1 && l.front()->buffer()[0] == 'b' ? 0 : 1;
}
''')
BUGS["publish_purge_one"] = dict(property="P06", file="sys/sps_sys_sync.hpp",
  edits=[("""        for (auto it = subs.begin(); it != subs.end(); ) {
            auto s = (*it).lock();

            if (!s) {
                subs.erase(it++);
            } else {
                s->on_event(o);
                ++it;
            }
        }
""", """        for (auto it = subs.begin(); it != subs.end(); ) {
            auto s = (*it).lock();

            if (!s) {
                subs.erase(it++);
                if (it == subs.end()) {
                    break;
                }
                ++it;
            } else {
                s->on_event(o);
                ++it;
            }
        }
""")],
  needs="a subscriber disappears without cancelling while another one, ordered right behind it, stays joined",
  breaks="the subscriber behind the vanished one misses the item published next",
  demo=PK + r'''
struct Rec : Subscriber<int> { int n = 0; int do_event(int&) override { ++n; return 0; } };
int main() {
    sps::log = new NullLog();
    st_init();
    for (int gone = 0; gone < 4; ++gone) {
        Publisher<int> p;
        std::shared_ptr<Rec> r[4];
        for (auto& x : r) { x = std::make_shared<Rec>(); p.sub(x); }
        r[gone].reset();
        int v = 1;
        p.publish(v);
        for (int i = 0; i < 4; ++i) if (i != gone && r[i]->n != 1) return 1;
    }
    return 0;
}
''')
BUGS["flv_time_high_bit"] = dict(property="P03", file="avformat/sps_avformat_flvenc.cpp",
  edits=[("head_writer.write_int8((buffer->dts & 0xFF000000) >> 24);", "head_writer.write_int8((buffer->dts >> 24) & 0x7F);")],
  needs="a decode time of 2^31 ms or more",
  breaks="the top bit of the 32-bit timestamp is lost, the packet comes back 24.8 days early",
  demo=r'''
#include <sps_avformat_flvenc.hpp>
#include <sps_log.hpp>
#include <string>
#include <cstring>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
struct W : IWriter { std::string s; void set_send_timeout(utime_t) override {} utime_t get_send_timeout() override { return 0; }
  error_t write(void* b, size_t n) override { s.append((char*) b, n); return SUCCESS; } };
int main() {
    sps::log = new NullLog();
    for (int64_t dts : {0x12345678ll, 0x7fffffffll, 0x80000000ll, 0xfffefdfcll}) {
        auto w = std::make_shared<W>();
        FlvAVMuxer m(w);
        uint8_t b[3] = {1, 2, 3};
        auto p = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{1}, b, 3, dts, dts, 0xaf, 10);
        m.write_packet(p);
        const uint8_t* t = (const uint8_t*) w->s.data() + 8;
        if ((t[0] << 16 | t[1] << 8 | t[2] | (int64_t) t[3] << 24) != dts) return 1;
    }
    return 0;
}
''')
BUGS["http_header_limit"] = dict(property="P08", file="module/http/sps_http_parser.cpp",
  edits=[("        if (state > left) {\n", "        if (state >= left) {\n")],
  needs="a header whose size is exactly the limit (or ends in the last bytes of the buffer)",
  breaks="a header that does not exceed the size limit is refused",
  demo=r'''
#include <sps_http_parser.hpp>
#include <sps_log.hpp>
#include <string>
#include <cstring>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
struct R : IReader { std::string s; size_t at = 0; void set_recv_timeout(utime_t) override {} utime_t get_recv_timeout() override { return 0; }
  error_t read(void* b, size_t n, size_t& nr) override { nr = std::min(n, s.size() - at); if (!nr) return ERROR_SOCKET_CLOSED; memcpy(b, s.data() + at, nr); at += nr; return SUCCESS; }
  error_t read_fully(void* b, size_t n, ssize_t* nr) override { size_t k; error_t r = read(b, n, k); return r ? r : k < n ? ERROR_SOCKET_CLOSED : SUCCESS; } };
int main() {
    sps::log = new NullLog();
    for (int size = 100; size <= 200; ++size) {
        auto r = std::make_shared<R>();
        r->s = "GET /live/a.flv HTTP/1.1\r\nHost: example.com\r\nX: ";
        r->s += std::string(size - r->s.size() - 4, 'x') + "\r\n\r\n";
        HttpParser p(200);
        if (p.parse_header(r, HttpType::REQUEST) <= 0) return 1;
    }
    return 0;
}
''')
BUGS["router_merge_wildcard"] = dict(property="P15", file="module/host/sps_host_module.cpp",
  edits=[("""    for (auto& it : router->wildcard_hosts) {
        if (wildcard_hosts.count(it.first)) {
            sp_error("fail host merge dup wildcard %s", it.first.c_str());
            return ERROR_CONFIG_PARSE_INVALID;
        }
        wildcard_hosts[it.first] = it.second;
    }
""", """    wildcard_hosts.insert(router->wildcard_hosts.begin(), router->wildcard_hosts.end());
""")],
  needs="two host sets that both configure the same wildcard are combined",
  breaks="the duplicate is accepted silently and one of the two hosts is dropped",
  demo=r'''
#include <sps_host_module.hpp>
#include <sps_log.hpp>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
int main() {
    sps::log = new NullLog();
    HostModulesRouter a, b;
    HostModuleFactory f;
    auto mk = [&](const char* n) { return std::dynamic_pointer_cast<HostModule>(f.create("host", n, nullptr)); };
    if (a.register_host(mk("*.a.com")) != SUCCESS || b.register_host(mk("*.a.com")) != SUCCESS) return 2;
    return a.merge(&b) == SUCCESS ? 1 : 0;
}
''')
BUGS["h264_idr_ref"] = dict(property="P16", file="avcodec/sps_avcodec_h264_parser.cpp",
  edits=[("uint8_t frame_type = (n.is_idr() ? 1 : 2) << 4;", "uint8_t frame_type = (n.is_idr() && n.nal_header.nal_reference_bit == 3 ? 1 : 2) << 4;")],
  needs="an IDR picture whose NAL header has reference priority 1 or 2 (0x25, 0x45) instead of the usual 3",
  breaks="such IDR pictures are marked as delta frames",
  demo=r'''
#include <sps_avcodec_h264_parser.hpp>
#include <sps_log.hpp>
#include <cstdio>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
int main() {
    sps::log = new NullLog();
    for (uint8_t h : {0x65, 0x45, 0x25}) {
        H264AVCodecParser p;
        uint8_t au[] = {0, 0, 0, 1, h, 0x88, 0x84, 0x21, 0xa0};
        AVCodecContext c;
        c.dts = 90; c.pts = 90; c.timebase = 90;
        std::list<PAVPacket> l;
        if (p.encode_avc(&c, au, sizeof au, l) != SUCCESS || l.size() != 1) return 2;
        if (!l.front()->is_keyframe()) return 1;
    }
    return 0;
}
''')
BUGS["relay_pat_clears"] = dict(property="P31", file="avformat/sps_avformat_cache.cpp",
  edits=[("        pat_header = pb;\n", "        pat_header = pb;\n        pbs.clear();\n")],
  needs="a program association packet in the middle of a unit and a viewer joining before the next unit start",
  breaks="the viewer misses the part of the current unit before the table",
  demo="#include <sps_avformat_tsdec.hpp>\n#include <sps_stream_cache.hpp>\n" + PK + r'''int main() {
    sps::log = new NullLog();
    st_init();
    auto cache = StreamCache::create_raw_streamcache("h/a.ts");
    TsCache ts(cache);
    uint8_t b[188] = {0x47};
    ts.on_packet(b, 188, TS_PROGRAM_PAT, 1);
    ts.on_packet(b, 188, TS_PROGRAM_PMT, 1);
    ts.on_packet(b, 188, TS_PROGRAM_PES, 1);
    ts.on_packet(b, 188, TS_PROGRAM_PES, 0);
    ts.on_packet(b, 188, TS_PROGRAM_PAT, 1);
    ts.on_packet(b, 188, TS_PROGRAM_PES, 0);
    auto v = StreamCache::get_client_streamcache("h/a.ts", 1);
    return v->size() == 5 ? 0 : 1;
}
''')
BUGS["bits_size_round_up"] = dict(property="P01", file="io/sps_io_bits.cpp",
  edits=[("    return size_bits() / 8;\n", "    return (size_bits() + 7) / 8;\n")],
  needs="asking for the bytes left while in the middle of a byte",
  breaks="the reported number of bytes left is one more than the whole bytes that can be read",
  demo=r'''
#include <sps_io_bits.hpp>
using namespace sps;
int main() {
    uint8_t b[4] = {1, 2, 3, 4};
    BitContext c(b, 4);
    if (c.size() != 4) return 2;
    c.acquire_bits(3);
    c.read_bits(3);
    return c.size() == 3 ? 0 : 1;
}
''')
