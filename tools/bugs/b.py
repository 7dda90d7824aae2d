BUGS = {}
LOG = r'''
#include <list>
#include <cstdio>
#include <cstring>
#include <cstddef>
#include <sps_log.hpp>
using namespace sps;
struct NullLog : ILog { void printf(LOG_LEVEL, const char*, ...) override {} };
'''
BUGS["amf_command_prefix"] = dict(property="P23", file="avformat/sps_avformat_librtmp_packet.cpp",
  edits=[("    return strlen(c) == src->av_len && memcmp(src->av_val, c, src->av_len) == 0;\n",
          "    return (int) strlen(c) <= src->av_len && memcmp(src->av_val, c, strlen(c)) == 0;\n")],
  needs="a command whose name starts with the name of a known one (play2, connectEx)",
  breaks="another command is taken for play, publish, connect ...",
  demo='#include <sps_avformat_librtmp_packet.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    AVal a = AMF_VAL_STRING("play2"), b = AMF_VAL_STRING("play"), c = AMF_VAL_STRING("pla");
    return !equal_val(&a, "play") && equal_val(&b, "play") && !equal_val(&c, "play") ? 0 : 1;
}
''')
BUGS["memory_write_to_end"] = dict(property="P22", file="io/sps_io_memory.cpp",
  edits=[("    if (left < size) {\n", "    if (left <= size) {\n")],
  needs="a write that ends exactly at the end of the memory",
  breaks="a write that fits is refused",
  demo='#include <sps_io_memory.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    char b[8] = {0}, d[] = "abcdefgh";
    MemoryReaderWriter m(b, 8);
    if (m.write(d, 5) != SUCCESS || m.write(d + 5, 3) != SUCCESS) return 1;
    return memcmp(b, d, 8) == 0 ? 0 : 1;
}
''')
BUGS["receiver_report_many"] = dict(property="P39", file="avformat/sps_avformat_rtpdec_rtcp.cpp",
  edits=[("""        sp_error("[rtp@rtcp] SR report block %d, ret %d", h.cflag, ret);
        return ret;
    }

    ssrc = bc.read_int32();

    for (int i = 0; i < h.cflag; ++i) {
""", """        sp_error("[rtp@rtcp] SR report block %d, ret %d", h.cflag, ret);
        return ret;
    }

    ssrc = bc.read_int32();

    for (int i = 0; i < (h.cflag & 0x0f); ++i) {
""")],
  needs="a receiver report with sixteen or more report blocks",
  breaks="report blocks are left out",
  demo='#include <sps_avformat_rtpdec_rtcp.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    static uint8_t b[4 + 20 * 24];
    for (size_t i = 0; i < sizeof(b); ++i) b[i] = (uint8_t) i;
    for (int n : {1, 15, 16, 20}) {
        RtcpHead h;
        memset(&h, 0, sizeof(h));
        h.cflag = n;
        BitContext bc(b, 4 + n * 24);
        RtcpRRDecoder d;
        if (d.decode(h, bc) != SUCCESS || (int) d.report_blocks.size() != n) return 1;
    }
    return 0;
}
''')
BUGS["config_octal"] = dict(property="P14", file="module/sps_module_opt.cpp",
  edits=[("            int num = len > 0 ? atoi(val) : 0;\n", "            int num = len > 0 ? (int) strtol(val, nullptr, 0) : 0;\n")],
  needs="a whole number written with leading zeros (listen 08080)",
  breaks="the number is read in base eight",
  demo='#include <sps_module_opt.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    struct { int pad; int v; } o = {0, 0};
    ConfigOption opt = {"listen", "", (int) ((char*) &o.v - (char*) &o), CONF_OPT_TYPE_INT, {.str = "0"}};
    for (auto s : {"80", "0", "-5", "01935", "0010", "007"}) {
        if (opt.opt_set(&o, s, (int) strlen(s)) != SUCCESS || o.v != atoi(s)) return 1;
    }
    return 0;
}
''')
BUGS["stream_key_first_dot"] = dict(property="P07", file="module/stream/sps_stream_handler.cpp",
  edits=[("                        path.substr(0, path.size()- req->ext.size() -1));\n", "                        path.substr(0, path.find('.')));\n")],
  needs="two streams whose names have a dot and are equal up to it (live/cam.1.flv and live/cam.2.flv)",
  breaks="the second publisher is refused, its viewers get the first stream",
  demo='#include <sps_stream_handler.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    StreamHandler h(nullptr, true);
    PRequestUrl a, b, c;
    RequestUrl::from("http://h/live/cam.1.flv", a);
    RequestUrl::from("http://h/live/cam.2.flv", b);
    RequestUrl::from("http://h/live/cam.1.ts", c);
    return h.get_cache_key(a) != h.get_cache_key(b) && h.get_cache_key(a) == h.get_cache_key(c) ? 0 : 1;
}
''')
BUGS["chunk_short_read"] = dict(property="P09", file="module/http/sps_http_socket.cpp",
  edits=[("    nb_chunked_left -= nread;  // ignore ret\n", "    nb_chunked_left -= size;  // ignore ret\n")],
  needs="a chunk whose bytes arrive in more than one piece",
  breaks="the rest of the chunk is taken for its end: the request fails",
  demo='#include <sps_http_socket.hpp>\n' + LOG + r'''
struct Frag : IReaderWriter {
    std::string s; size_t at = 0, k;
    Frag(std::string s, size_t k) : s(s), k(k) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t write(void*, size_t) override { return SUCCESS; }
    error_t read(void* b, size_t n, size_t& nr) override {
        nr = std::min(std::min(n, k), s.size() - at);
        if (!nr) return ERROR_IO_EOF;
        memcpy(b, s.data() + at, nr); at += nr;
        return SUCCESS;
    }
    error_t read_fully(void* b, size_t n, ssize_t* out) override {
        size_t g = 0, nr; error_t e;
        while (g < n) { if ((e = read((char*) b + g, n - g, nr)) != SUCCESS) return e; g += nr; }
        if (out) *out = (ssize_t) g;
        return SUCCESS;
    }
};
int main() {
    sps::log = new NullLog();
    for (size_t k : {100, 7, 3, 1}) {
        auto io = std::make_shared<Frag>("a\r\n0123456789\r\n5\r\nabcde\r\n0\r\n\r\n", k);
        HttpRequestSocket s(io, "", 0, true, -1);
        std::string got;
        char b[64];
        size_t nr = 0;
        while (!s.eof() && s.read(b, sizeof(b), nr) == SUCCESS) got.append(b, nr);
        if (got != "0123456789abcde" || !s.eof()) return 1;
    }
    return 0;
}
''')
BUGS["response_length_zero"] = dict(property="P10", file="module/http/sps_http_socket.cpp",
  edits=[("    } else if (content_length >= 0) {\n        ss <<", "    } else if (content_length > 0) {\n        ss <<")],
  needs="a response without a body",
  breaks="no length is sent, the client waits for the end of the connection",
  demo='#include <sps_http_socket.hpp>\n#include <sps_io_memory.hpp>\n' + LOG + r'''
int main() {
    sps::log = new NullLog();
    for (int n : {0, 7}) {
        static char b[4096];
        memset(b, 0, sizeof(b));
        HttpResponseSocket s(std::make_shared<MemoryReaderWriter>(b, (int) sizeof(b)), "", 0);
        s.init(200, nullptr, n, false);
        if (s.write_header() != SUCCESS) return 1;
        char want[64];
        snprintf(want, sizeof(want), "Content-Length: %d\r\n", n);
        if (!strstr(b, want)) return 1;
    }
    return 0;
}
''')
