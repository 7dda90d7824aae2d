BUGS = {}
LOG = r'''
#include <list>
#include <cstdio>
#include <cstring>
#include <cstddef>
#include <sps_log.hpp>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
'''
BUGS["param_case"] = dict(property="P13", file="io/url/sps_io_url.cpp",
  edits=[("        if (h.key == key) return h.value;\n", "        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) return h.value;\n")],
  needs="two parameters whose names differ in case only",
  breaks="the value of another parameter is returned",
  demo='#include <sps_io_url.hpp>\n' + LOG + r"""
int main() {
    sps::log = new NullLog();
    PRequestUrl u;
    if (RequestUrl::from("http://h/live/a.flv?Token=1&token=2&z=3", u) != SUCCESS) return 1;
    return u->get_param("token") == "2" && u->get_param("Token") == "1" && u->get_param("Z") == "" && u->get_param("z") == "3" ? 0 : 1;
}
""")
BUGS["aac_many_channels"] = dict(property="P17", file="avcodec/sps_avcodec_aac_parser.cpp",
  edits=[("            bc_header.write_bits(header->sampling_frequency_index, 4);  // sample rate index\n            bc_header.write_bits(header->channel_configuration, 4);\n",
          "            bc_header.write_bits(header->sampling_frequency_index, 4);  // sample rate index\n            bc_header.write_bits(header->channel_configuration & 3, 4);\n")],
  needs="more than three channels",
  breaks="the decoder configuration says another number of channels",
  demo='#include <sps_avcodec_aac_parser.hpp>\n#include <sps_avcodec_parser.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    for (int ch : {1, 2, 5, 6, 7}) {
        uint8_t f[] = {0xff, 0xf1, (uint8_t) (0x50 | ch >> 2), (uint8_t) ((ch & 3) << 6), 0x01, 0x7f, 0xfc, 1, 2, 3, 4};
        std::list<PAVPacket> l;
        AVCodecContext ctx(900, 900, 90);
        AacAVCodecParser p;
        if (p.encode_avc(&ctx, f, sizeof f, l) != SUCCESS || l.size() != 2) return 1;
        auto c = l.front();
        if (c->size() != 2 || ((c->buffer()[1] >> 3) & 15) != ch) return 2;
    }
    return 0;
}
''')
BUGS["udp_exact_buffer"] = dict(property="P25", file="sys/st/io/sps_sys_st_io_udp.cpp",
  edits=[("    if (size < b->size()) {\r\n", "    if (size <= b->size()) {\r\n")],
  needs="a read buffer of exactly the size of the datagram",
  breaks="the datagram is refused for ever",
  demo='#include <sps_sys_st_io_udp.hpp>\n#include <st.h>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    st_init();
    PUdpFd fd;
    if (UdpFd::create_fd(fd) != SUCCESS) return 1;
    StUdpSessionClientSocket s("127.0.0.1", 9, fd);
    uint8_t d[100] = {7, 8, 9}, b[100];
    size_t n = 0;
    s.push(d, 100);
    s.push(d, 3);
    if (s.read(b, 100, n) != SUCCESS || n != 100 || memcmp(b, d, 100)) return 1;
    return s.read(b, 4, n) == SUCCESS && n == 3 && !memcmp(b, d, 3) ? 0 : 1;
}
''')
BUGS["mtap24_long_gap"] = dict(property="P20", file="avformat/sps_avformat_rtpdec_h264_hevc.cpp",
  edits=[("        auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();\n",
          "        uint16_t nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();\n")],
  needs="an MTAP24 packet whose units are more than 65535 clock ticks apart",
  breaks="such a unit gets a wrong time",
  demo='#include <sps_avformat_rtpdec_h264_hevc.hpp>\n#include <st.h>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    st_init();
    for (int off : {900, 65535 / 90 * 90, 90000}) {
        uint8_t d[] = {0x80, 96, 0, 1, 0, 0, 0x23, 0x28, 0, 0, 0, 1, 27, 0, 0,
                       0, 4, 0, 0, 0, 0, 0x41, 0xe0, 1, 2,
                       0, 4, 0, (uint8_t) (off >> 16), (uint8_t) (off >> 8), (uint8_t) off, 0x41, 0x20, 3, 4};
        H264RtpDecoder dec;
        std::list<PAVPacket> l;
        IRtpDecoder& r = dec;
        if (r.decode(d, sizeof d, l) != SUCCESS) return 1;
        int64_t last = -1;
        for (auto& p : l) if (!p->is_video_sequence_header()) last = p->pts;
        if (last != (9000 + off) / 90) { fprintf(stderr, "%d: %lld\n", off, (long long) last); return 2; }
    }
    return 0;
}
''')
BUGS["aac_many_units"] = dict(property="P20", file="avformat/sps_avformat_rtpdec_aac.cpp",
  edits=[("    int au_headers_byte   = (au_headers_length + 7) / 8;\n", "    uint8_t header_bits   = au_headers_length;\n    int au_headers_byte   = (header_bits + 7) / 8;\n")],
  needs="a packet with sixteen or more access units",
  breaks="frames are lost",
  demo='#include <sps_avformat_rtpdec_aac.hpp>\n#include <st.h>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    st_init();
    for (int n : {1, 15, 16, 40}) {
        std::string d("\x80\x60\x00\x01\x00\x00\x23\x28\x00\x00\x00\x01", 12);
        d += (char) (n * 16 >> 8); d += (char) (n * 16);
        for (int i = 0; i < n; ++i) d += std::string("\x00\x18", 2);
        for (int i = 0; i < n; ++i) d += "abc";
        AacRtpDecoder dec;
        IRtpDecoder& r = dec;
        std::list<PAVPacket> l;
        if (r.decode((uint8_t*) &d[0], d.size(), l) != SUCCESS || (int) l.size() != n) { fprintf(stderr, "%d: %zu\n", n, l.size()); return 1; }
    }
    return 0;
}
''')
