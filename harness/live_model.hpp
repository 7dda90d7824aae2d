// The real HTTP streaming pipeline on in-memory connections, and the model of what a viewer of a live FLV stream gets.
#pragma once
#include "stnet.hpp"
#include "flv_model.hpp"
#include "http_model.hpp"

#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include <sps_host_module.hpp>
#include <sps_host_router_handler.hpp>
#include <sps_http_adapter_phase_handler.hpp>
#include <sps_http_phase_handler.hpp>
#include <sps_http_server.hpp>
#include <sps_io_memory.hpp>
#include <sps_io_socket.hpp>
#include <sps_stream_module.hpp>
#include <sps_upstream_module.hpp>

using namespace sps;
using namespace stn;

// the server's clock: advanced by the harness alone, so that a slow machine changes nothing
static st_utime_t ahead = 1000000000;
static st_utime_t my_clock() { return ++ahead; }

static PHostModule mkhost(const std::string& name, const std::string& opts) {
    std::string t = opts + "}\n";
    HostModuleFactory f;
    auto m = f.create("host", name, nullptr);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) t.data(), (int) t.size());
    if (m->init_conf(rd) != SUCCESS) { fprintf(stderr, "host configuration refused\n"); _exit(3); }
    return std::dynamic_pointer_cast<HostModule>(m);
}
static std::shared_ptr<HttpServer> server;
static void live_setup(bool flv = true) {
    quiet_log();
    st_set_utime_function(my_clock);
    stn::init();
    if (flv) SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FlvAVInputFormat>());
    if (flv) SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FlvAVOutputFormat>());
}
static void make_server(std::shared_ptr<HostModulesRouter> router) {
    server = std::make_shared<HttpServer>();
    server->reg(std::make_shared<HttpParsePhaseHandler>());
    server->reg(std::make_shared<HostRouterPhaseHandler>(router, std::make_shared<HttpAdapterPhaseHandler>(), std::make_shared<Http404PhaseHandler>()));
}

// ---- connections
static uint64_t activity = 0;    // of the connections
class LiveIO : public PipeIO {
 public:
    using PipeIO::PipeIO;
    error_t read(void* p, size_t size, size_t& n) override { error_t r = PipeIO::read(p, size, n); ++::activity; return r; }
    error_t write(void* p, size_t size) override { error_t r = PipeIO::write(p, size); ++::activity; return r; }
    ~LiveIO() { ++::activity; }
};
struct Conn {
    PPipe to = std::make_shared<Pipe>(), from = std::make_shared<Pipe>();
    std::shared_ptr<bool> ended = std::make_shared<bool>(false);
    void send(const Bytes& b) { to->buf += b; st_cond_broadcast(to->cv); }
    void close_write() { to->closed = true; st_cond_broadcast(to->cv); }
    void close_all() { close_write(); from->closed = true; st_cond_broadcast(from->cv); }
};
static Conn open_conn(PGroup bg, const Frag& rf, const Frag& wf, size_t cap, std::shared_ptr<HttpServer> srv = nullptr) {
    Conn c;
    c.from->cap = cap;
    auto sio = std::make_shared<LiveIO>(c.to, c.from, rf, wf);
    auto ended = c.ended;
    if (!srv) srv = server;
    bg->go([=]() mutable {
        auto conn = srv->create(std::make_shared<Socket>(sio, "10.0.0.1", 999));
        sio = nullptr;
        conn->handler();
        conn = nullptr;
        *ended = true;
        ++::activity;
    });
    return c;
}
// lets every coroutine run until nothing moves any more
static void settle() {
    int quiet = 0;
    for (int i = 0; quiet < 6; ++i) {
        uint64_t a = ::activity + PipeIO::activity;
        st_usleep(0);
        quiet = a == ::activity + PipeIO::activity ? quiet + 1 : 0;
        CHECK_MSG(i < 2000000, "the server never comes to rest");
    }
}

// packets a viewer gets that joins after j packets
static std::vector<const MPkt*> at_join(const std::vector<MPkt>& ps, size_t j) {
    const MPkt *script = nullptr, *ah = nullptr, *vh = nullptr;
    std::vector<const MPkt*> gop;
    for (size_t i = 0; i < j; ++i) {
        const MPkt& p = ps[i];
        if (p.type == 18) script = &p;
        else if (p.type == 8 && p.ptype == 0) ah = &p;
        else if (p.type == 9 && p.ptype == 0 && !p.info()) vh = &p;
        else if (p.key()) { gop.clear(); gop.push_back(&p); }
        else if (!gop.empty()) gop.push_back(&p);
    }
    std::vector<const MPkt*> o;
    for (auto p : {script, ah, vh}) if (p) o.push_back(p);
    o.insert(o.end(), gop.begin(), gop.end());
    return o;
}
// what such a viewer has got when n packets were published
static Bytes live_bytes(const std::vector<MPkt>& ps, size_t j, size_t n) {
    Bytes b;
    uint32_t prev = 0;
    for (auto p : at_join(ps, j)) flv_tag(b, *p, prev);
    for (size_t i = j; i < n; ++i) flv_tag(b, ps[i], prev);
    return b;
}
static std::string show_tags(const Bytes& b) {
    std::vector<MPkt> v;
    size_t at = 0;
    std::string why, o;
    bool ok = flv_parse(b, at, v, true, &why);
    for (auto& p : v) o += p.str() + " ";
    return o + (ok ? "" : "(" + why + ")");
}
