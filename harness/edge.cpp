// PROPERTIES: P32
// TECHNIQUE P32: stateful property-based testing: generated histories of viewers, origin answers, packets and endings on an edge host of the real HTTP pipeline; the origin is a stand-in protocol that records every pull; against a reference model of one pull per stream
#include "live_model.hpp"

#include <sps_io_url_protocol.hpp>

// ---- the origin
struct Pull {
    int id;
    std::string url, ip;
    std::string key;
    int port;
    PPipe data = std::make_shared<Pipe>();
    st_cond_t cv = st_cond_new();
    int answer = 0;          // 0 not yet, 1 ok, 2 ok without a response object, 3 refused, 4 unreachable
    bool gone = false;       // the edge dropped it
    // model
    std::vector<MPkt> pkts;
    Bytes pay;
    std::vector<size_t> ends;
    uint32_t prev = 0;
    size_t sent = 0, n0 = 0;
    bool ended = false, fresh = true;
    size_t bad_at = SIZE_MAX;
    bool bad_header = false, unknown = false;   // unknown: no reader for the format of this address
    bool failed() const { return answer >= 3 || (answer && unknown); }
    size_t avail() const { if (bad_header) return 0; size_t k = 0; while (k < ends.size() && ends[k] <= sent && ends[k] < bad_at) ++k; return k; }
    bool live() const { return answer && !failed() && !ended; }
    ~Pull() { st_cond_destroy(cv); }
};
typedef std::shared_ptr<Pull> PPull;
struct Origin { std::vector<PPull> pulls; Frag rf; };
static std::shared_ptr<Origin> origin;

class Refusal : public Response { public: bool ok; explicit Refusal(bool k) : ok(k) {} bool success() override { return ok; } std::string error() override { return "status"; } };
class OriginProtocol : public IURLProtocol {
 public:
    error_t open(PRequestUrl& u, Transport) override {
        o = origin;
        p = std::make_shared<Pull>();
        p->id = (int) o->pulls.size();
        p->url = u->get_url();
        p->ip = u->get_ip();
        p->port = u->get_port();
        if (u->get_params()[0] && p->url.find('?') == std::string::npos) p->url += std::string("?") + u->get_params();
        o->pulls.push_back(p);
        ++::activity;
        while (!p->answer) st_cond_wait(p->cv);
        ++::activity;
        if (p->answer == 4) return ERROR_HTTP_SOCKET_CONNECT;
        io = std::make_shared<LiveIO>(p->data, std::make_shared<Pipe>(), o->rf, Frag());
        return SUCCESS;
    }
    PResponse response() override { return !p || p->answer == 2 ? nullptr : std::make_shared<Refusal>(p->answer == 1); }
    ~OriginProtocol() { if (p) p->gone = true; ++::activity; }
    std::shared_ptr<Origin> o;
    PPull p;
};
class OriginFactory : public IURLProtocolFactory {
 public:
    OriginFactory() : IURLProtocolFactory("http", Transport::TCP) {}
    PIURLProtocol create(PRequestUrl) override { return std::make_shared<OriginProtocol>(); }
};

struct EHost { const char* pattern; const char* name; const char* opts; const char* ip; int port; bool edge; };
static const std::vector<EHost> kEHosts = {
    {"e.test", "e.test", "type stream;\nrole edge;\nedge_avformat all;\npass_proxy 10.1.1.1:8001;\n", "10.1.1.1", 8001, true},
    {"*.w.test", "a.w.test", "type stream;\nrole edge;\nedge_avformat flv;\npass_proxy 10.1.1.2;\n", "10.1.1.2", 80, true},
    {"*.w.test", "b.w.test", nullptr, "10.1.1.2", 80, true},
    {"u.test", "u.test", "type stream;\nrole edge;\npass_proxy origin.test;\nupstream x {\nserver 10.1.1.3:8003;\n}\n", "10.1.1.3", 8003, true},
    {"s.test", "s.test", "type stream;\nrole source;\nedge_avformat all;\npass_proxy 10.1.1.4:8004;\n", "", 0, false},
};
static void setup() {
    live_setup();
    { auto& r = SingleInstance<ModuleFactoryRegister>::get_instance(); auto f = std::make_shared<UpStreamModuleFactory>(); r.reg(f->module, f); }
    SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<OriginFactory>());
    auto router = std::make_shared<HostModulesRouter>();
    for (auto& h : kEHosts) if (h.opts && router->register_host(mkhost(h.pattern, h.opts)) != SUCCESS) _exit(3);
    make_server(router);
}

struct ECand { PPull p; size_t j; };
struct EView {
    int id, host, name;
    std::string key, target;
    Conn conn;
    bool known;
    Bytes in;
    bool waiting = false, playing = false, stalled = false, gone = false, over = false, fresh = true;
    std::vector<ECand> cands;
    double idle = 0;
    size_t last = 0;
    bool may_end = false;
};
typedef std::shared_ptr<EView> PEView;

static void p32(Src& s, Ctx& c) {
    static uint64_t cases = 0;
    std::string tok = "/e" + std::to_string(++cases) + "-";
    auto bg = group();
    origin = std::make_shared<Origin>();
    auto org = origin;
    org->rf = gen_frag(s, 200);
    std::vector<PEView> views;
    double batch_time = 0;
    int shared = 0, again = 0, late = 0, delivered = 0, failures = 0;
    const int nnames = 2;
    auto names = name_family(s);
    auto path_of = [&](int n) { return tok + names[(size_t) n]; };
    std::map<std::string, PPull> cur;       // the pull of a key, pending or live
    size_t seen = 0;

    auto add_pkts = [&](Pull& p, size_t k) {
        for (size_t i = 0; i < k; ++i) {
            MPkt m = gen_mpkt(s, s.chance(1, 30) ? 6000 : 60);
            p.pkts.push_back(m);
            flv_tag(p.pay, m, p.prev);
            p.ends.push_back(p.pay.size());
            c.mix(m.body());
            if (c.want_desc) c.desc << m.str();
        }
    };
    auto push = [&](Pull& p, size_t to) {
        if (to <= p.sent) return;
        p.data->buf += p.pay.substr(p.sent, to - p.sent);
        p.sent = to;
        st_cond_broadcast(p.data->cv);
        if (p.bad_header && p.sent >= 9) p.ended = true;
        if (p.sent >= p.bad_at) p.ended = true;
    };
    auto pick_pull = [&](bool live) -> PPull {
        std::vector<PPull> o;
        for (auto& k : cur) if (live ? k.second->live() : k.second->answer == 0) o.push_back(k.second);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto pick_view = [&]() -> PEView {
        std::vector<PEView> o;
        for (auto& v : views) if (!v->gone && !v->over && !v->fresh) o.push_back(v);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto join = [&]() {
        auto v = std::make_shared<EView>();
        v->id = (int) views.size();
        v->host = s.chance(1, 3) ? (int) s.draw(kEHosts.size() - 1) : 0;
        v->name = s.chance(1, 4) ? 1 : 0;
        std::string ext = s.chance(1, 25) ? s.pick<std::string>({"xyz", "flvx"}) : "flv";
        v->known = ext == "flv";
        v->key = kEHosts[(size_t) v->host].name + path_of(v->name);
        v->target = path_of(v->name) + "." + ext;
        if (s.chance(1, 4)) { std::vector<QueryPiece> q; std::string x = gen_query(s, q); if (!x.empty()) v->target += "?" + x; }
        v->stalled = s.chance(1, 10);
        if (c.want_desc) c.desc << "join#" << v->id << " " << v->key << "." << ext << (v->stalled ? " stalled " : " ");
        c.mix(v->key.substr(tok.size()));
        HList h = gen_headers(s, 1);
        h.insert(h.begin() + (long) s.draw(h.size()), {"Host", std::string(kEHosts[(size_t) v->host].name) + (s.chance(1, 4) ? ":8080" : "")});
        std::string t = "GET " + v->target + " HTTP/1.1\r\n";
        for (auto& e : h) t += e.first + ": " + e.second + "\r\n";
        t += "\r\n";
        if (t.size() > 1900) throw pbt::Discard();
        Frag rf = gen_frag(s, 200), wf = gen_frag(s, 400);
        v->conn = open_conn(bg, rf, wf, v->stalled ? (size_t) s.skew(1, 2000) : 0);
        v->conn.send(t);
        views.push_back(v);
    };
    auto feed = [&]() {
        PPull p = pick_pull(true);
        if (!p) return;
        if (c.want_desc) c.desc << "feed#" << p->id << " ";
        add_pkts(*p, (size_t) s.range(1, 5));
        push(*p, s.chance(1, 5) ? (size_t) s.range((int64_t) p->sent, (int64_t) p->pay.size()) : p->pay.size());
    };
    auto leave = [&]() {
        PEView v = pick_view();
        if (!v) return;
        if (c.want_desc) c.desc << "leave#" << v->id << " ";
        v->gone = true;
        v->conn.close_all();
    };
    auto finish = [&](PPull p, int how) {
        if (how == 1) {
            MPkt m = gen_mpkt(s, 30);
            m.type = s.pick<int>({7, 10, 17, 19});
            flv_tag(p->pay, m, p->prev);
            p->bad_at = p->pay.size();
            push(*p, p->pay.size());
            return;
        }
        if (how == 2) { add_pkts(*p, 1); push(*p, (size_t) s.range((int64_t) p->sent, (int64_t) p->pay.size())); }
        p->ended = true;
        p->data->closed = true;
        st_cond_broadcast(p->data->cv);
    };
    auto answer = [&](PPull p, int how) {
        p->answer = how;
        p->fresh = true;
        p->pay = flv_header(5);
        if (how <= 2) {
            if (s.chance(1, 15)) { p->bad_header = true; p->pay[s.draw(2)] ^= 0x20; }
            if (p->bad_header || s.boolean()) { add_pkts(*p, (size_t) s.skew(0, 4)); push(*p, p->pay.size()); }
        }
        st_cond_broadcast(p->cv);
    };
    auto no_answer = [&](EView& v) { return v.conn.from->size() == 0; };
    auto not_found = [&](EView& v, const std::string& who) {
        Bytes b = v.conn.from->buf.substr(v.conn.from->off);
        if (v.stalled) { v.stalled = false; v.conn.from->cap = 0; st_cond_broadcast(v.conn.from->cv); settle(); b = v.conn.from->buf.substr(v.conn.from->off); }
        Rsp r = parse_response(b, 0);
        CHECK_MSG(r.err.empty() && r.status == 404, who << "answered with " << pbt::quote(b, 60) << " instead of 404");
        CHECK_MSG(r.complete || *v.conn.ended, who << "the answer has no end");
        CHECK_MSG(r.used == b.size(), who << "more than one answer");
        v.over = true; v.waiting = false;
        v.conn.close_all();
    };
    auto is200 = [&](EView& v) {
        Bytes b = v.conn.from->buf.substr(v.conn.from->off);
        if (v.stalled && b.size() < 12 && !b.empty()) { v.stalled = false; v.conn.from->cap = 0; st_cond_broadcast(v.conn.from->cv); settle(); b = v.conn.from->buf.substr(v.conn.from->off); }
        return b.compare(0, 12, "HTTP/1.1 200") == 0;
    };
    auto check_view = [&](EView& v) {
        v.in += v.conn.from->buf.substr(v.conn.from->off);
        v.conn.from->buf.clear(); v.conn.from->off = 0;
        st_cond_broadcast(v.conn.from->cv);
        std::string who = "viewer #" + std::to_string(v.id) + " of " + v.key + ": ";
        Rsp r = parse_response(v.in, 0);
        if (v.stalled && !r.err.empty()) return;
        CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response: " << r.err << " " << pbt::quote(v.in, 100));
        Bytes b = r.body;
        if (b.size() < 9) { CHECK_MSG(v.stalled, who << "no FLV header"); return; }
        CHECK_MSG(b.substr(0, 4) == Bytes("FLV\x01", 4) && (b[4] & ~5) == 0 && rd(b, 5, 4) == 9, who << "no FLV header: " << pbt::quote(b.substr(0, 9)));
        b.erase(0, 9);
        std::vector<ECand> left;
        Bytes want;
        for (auto& x : v.cands) {
            want = live_bytes(x.p->pkts, x.j, x.p->avail());
            if (v.stalled ? want.compare(0, b.size(), b) == 0 : want == b) left.push_back(x);
        }
        CHECK_MSG(!left.empty(), who << "got " << show_tags(b) << "expected " << show_tags(want));
        v.cands = left;
        if (b.size() != v.last) { v.idle = batch_time; ++delivered; }
        v.last = b.size();
    };
    auto resolve = [&]() {
        if (bg->failed) pbt::fail(bg->msg);
        // new pulls
        for (; seen < org->pulls.size(); ++seen) {
            PPull p = org->pulls[seen];
            PEView by;
            for (auto& v : views) if (v->fresh && kEHosts[(size_t) v->host].edge && kEHosts[(size_t) v->host].ip == p->ip && kEHosts[(size_t) v->host].port == p->port && v->target == p->url && !cur.count(v->key)) { by = v; break; }
            CHECK_MSG(by, "the edge pulls " << p->url << " from " << p->ip << ":" << p->port << (cur.size() ? ", which nobody asked for or is being pulled already" : ", which nobody asked for"));
            p->key = by->key;
            p->unknown = !by->known;
            cur[p->key] = p;
        }
        for (auto& v : views) if (v->fresh) {
            v->fresh = false;
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            if (!kEHosts[(size_t) v->host].edge) { not_found(*v, who + "no source, "); continue; }
            CHECK_MSG(cur.count(v->key), who << "no pull was started");
            PPull p = cur[v->key];
            if (!p->answer) { CHECK_MSG(no_answer(*v), who << "answered before its source: " << pbt::quote(v->conn.from->buf, 80)); v->waiting = true; if (v->id) ++shared; continue; }
            if (!v->known) { CHECK_MSG(!is200(*v), who << "served in an unknown format"); v->over = true; v->conn.close_all(); continue; }
            CHECK_MSG(is200(*v), who << "refused although the stream is there");
            v->playing = true;
            for (size_t j = p->n0; j <= p->avail(); ++j) { v->cands.push_back({p, j}); if (j) ++late; }
        }
        for (auto& v : views) if (v->waiting) {
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            PPull p = cur[v->key];
            if (v->gone) { if (*v->conn.ended) v->over = true, v->waiting = false; continue; }
            if (!p->answer) {       // still pending: it may give up after ten seconds
                if (no_answer(*v)) continue;
                CHECK_MSG(v->may_end, who << "answered before its source: " << pbt::quote(v->conn.from->buf, 80));
                not_found(*v, who + "source too slow, ");
                continue;
            }
            v->waiting = false;
            if (p->failed()) { not_found(*v, who + "source not available, "); continue; }
            if (!v->known) { CHECK_MSG(!is200(*v), who << "served in an unknown format"); v->over = true; v->conn.close_all(); continue; }
            if (p->ended && !is200(*v)) { not_found(*v, who + "source ended at once, "); continue; }
            CHECK_MSG(is200(*v), who << "refused although the source answered: " << pbt::quote(v->conn.from->buf, 80));
            v->playing = true;
            v->idle = 0; v->may_end = false;
            for (size_t j = 0; j <= p->avail(); ++j) v->cands.push_back({p, j});
        }
        for (auto& v : views) if (v->playing && !v->gone && !v->over) {
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            bool ended = *v->conn.ended;
            if (ended) { CHECK_MSG(v->may_end, who << "its connection is closed"); v->over = true; }
            bool moved = false;
            if (ended) for (auto& x : v->cands) moved |= x.p->avail() != x.p->n0;
            if (!ended || !moved) check_view(*v);
        }
        // pulls that are over
        for (auto it = cur.begin(); it != cur.end();) {
            PPull p = it->second;
            p->n0 = p->avail();
            p->fresh = false;
            bool over = p->failed() || p->ended;
            if (p->answer && !p->failed()) CHECK_MSG(p->gone == p->ended, "the pull of " << p->key << (p->ended ? " is kept after its end" : " is dropped although the origin goes on"));
            if (p->failed()) CHECK_MSG(p->gone, "the failed pull of " << p->key << " is kept");
            if (over) { it = cur.erase(it); ++again; } else ++it;
        }
    };
    while (s.more(18) && views.size() < 40) {
        size_t k = s.weighted({6, 8, 2, 1, 2, 1, 6});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: {
                size_t n = s.chance(1, 3) ? (size_t) s.range(2, 4) : 1;
                for (size_t i = 0; i < n; ++i) { join(); if (n > 1 && s.chance(1, 3)) st_usleep(0); if (n > 1 && s.chance(1, 3)) feed(); if (s.chance(1, 8)) leave(); }
                break;
            }
            case 1: feed(); break;
            case 2: leave(); break;
            case 3: { PEView v = pick_view(); if (!v) break; v->stalled = !v->stalled; v->conn.from->cap = v->stalled ? (size_t) s.skew(1, 500) : 0; st_cond_broadcast(v->conn.from->cv); if (c.want_desc) c.desc << (v->stalled ? "stall#" : "resume#") << v->id << " "; break; }
            case 4: { PPull p = pick_pull(true); if (!p) break; int how = (int) s.weighted({3, 1, 1}); if (c.want_desc) c.desc << "end#" << p->id << ":" << how << " "; finish(p, how); break; }
            case 5: {
                st_utime_t d = (st_utime_t) s.range(1, s.chance(1, 4) ? 12000000 : 6000000);
                if (c.want_desc) c.desc << "time+" << d << " ";
                ahead += d; batch_time += d * 1e-6;
                for (auto& v : views) { v->idle += d * 1e-6; if (v->idle > 9.5) v->may_end = true; }
                break;
            }
            default: { PPull p = pick_pull(false); if (!p) break; int how = 1 + (int) s.weighted({5, 1, 1, 1}); if (c.want_desc) c.desc << "answer#" << p->id << ":" << how << " "; if (how > 2) ++failures; answer(p, how); }
        }
        settle();
        resolve();
        batch_time = 0;
        if (c.want_desc) c.desc << "| ";
    }
    for (auto& v : views) if (v->stalled && !v->over && !v->gone) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); }
    settle(); resolve();
    { auto all = cur; for (auto& k : all) if (!k.second->answer) answer(k.second, s.boolean() ? 1 : 4); }
    settle(); resolve();
    { auto all = cur; for (auto& k : all) if (k.second->live()) finish(k.second, 0); }
    settle(); resolve();
    for (int i = 0; i < 3; ++i) {
        ahead += 11000000;
        for (auto& v : views) { v->idle = 11; v->may_end = true; }
        settle();
    }
    resolve();
    CHECK_MSG(cur.empty(), "harness: a pull is left");
    for (auto& v : views) CHECK_MSG(*v->conn.ended || v->over, "viewer #" << v->id << " of " << v->key << " is still connected after its source ended");
    for (auto& v : views) v->conn.close_all();
    settle();
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    for (auto& p : org->pulls) CHECK_MSG(p->gone, "the pull of " << p->key << " is never released");
    c.label_if(shared > 0, "several-waiting"); c.label_if(again > 1, "pulled-again"); c.label_if(late > 0, "late-join"); c.label_if(delivered > 0, "delivered"); c.label_if(failures > 0, "origin-failure");
    c.nontrivial = delivered > 0 || failures > 0;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P32";
    a.rule = "histories of viewers joining (alone or several at once) on four edge names and a source host, the origin answering late, refusing or unreachable, packets in random pieces, clean and damaged endings, leaving and stalling viewers, passing time; non-trivial: a viewer got packets or the origin failed; distinct by operations and packets";
    a.body = p32; a.setup = setup; a.quick_cases = 30000; a.thorough_cases = 300000; a.cpu_clock = false; a.case_timeout = 60;
    a.assumptions = {"the origin is a stand-in for the URL protocol (the real HTTP client is P11)", "FLV; connections are in-memory byte streams; the server's clock is advanced by the harness"};
    return pbt::run_main(argc, argv, {a});
}
