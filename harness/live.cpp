// PROPERTIES: P07 P26
// TECHNIQUE P07: stateful property-based testing: generated histories of publish attempts, endings, joins and leaves on the real HTTP streaming pipeline over in-memory connections, several at a time between scheduling points, against a reference model of stream ownership
// TECHNIQUE P26: stateful property-based testing: generated publisher and viewer histories on the real HTTP streaming pipeline, every viewer's bytes compared with a reference model of the live stream and an independent FLV writer
#include "live_model.hpp"

struct HostSpec { const char* pattern; const char* name; bool pub_flv, pub_all; const char* opts; };
static const std::vector<HostSpec> kHosts = {
    {"src.test", "src.test", true, true, "type stream;\nrole source;\nedge_avformat all;\n"},
    {"*.wild.test", "a.wild.test", true, false, "type stream;\nrole source;\nedge_avformat flv;\n"},
    {"*.wild.test", "b.wild.test", true, false, nullptr},
    {"ts.test", "ts.test", false, false, "type stream;\nrole source;\nedge_avformat ts;\n"},
    {"play.test", "play.test", false, false, "type stream;\nrole proxy;\nedge_avformat all;\n"},
};
static void setup() {
    live_setup();
    auto router = std::make_shared<HostModulesRouter>();
    for (auto& h : kHosts) if (h.opts && router->register_host(mkhost(h.pattern, h.opts)) != SUCCESS) _exit(3);
    make_server(router);
}

// ---- model
struct Pub {
    int id;
    std::string key;
    Conn conn;
    bool allowed, known;              // may publish here; the format exists
    int framing;                      // 0 until close, 1 chunked, 2 declared length
    size_t declared = 0;
    Bytes pay;                        // the FLV stream
    std::vector<MPkt> pkts;
    std::vector<size_t> ends;
    uint32_t prev = 0;
    size_t sent = 0;
    bool bad_header = false;
    size_t bad_at = SIZE_MAX;         // end of the tag that cannot be read
    enum { NEW, OWNER, DEAD } state = NEW;
    bool fresh = true, closing = false;     // opened, ended in this batch
    size_t n0 = 0;                    // packets available at the start of the batch
    size_t avail() const {
        if (bad_header) return 0;
        size_t k = 0;
        while (k < ends.size() && ends[k] <= sent && ends[k] < bad_at) ++k;
        return k;
    }
    bool self_ended() const { return closing || (bad_header && sent >= 9) || sent >= bad_at || (framing == 2 && sent >= declared); }
};
typedef std::shared_ptr<Pub> PPub;
struct Cand { PPub p; size_t j; };
struct View {
    int id;
    std::string key;
    Conn conn;
    bool known;
    Bytes in;
    bool fresh = true, stalled = false, gone = false, playing = false, over = false;
    std::vector<Cand> cands;
    double idle = 0;
    size_t last = 0;
    bool may_end = false;
};
typedef std::shared_ptr<View> PView;

static Bytes expected(const Cand& c) { return live_bytes(c.p->pkts, c.j, c.p->avail()); }

struct Weights { std::vector<int> ops; int names; size_t len; };

static void live(Src& s, Ctx& c, const Weights& w) {
    static uint64_t cases = 0;
    std::string tok = "/c" + std::to_string(++cases) + "-";
    auto bg = group();
    std::vector<PPub> pubs;
    std::vector<PView> views;
    std::map<std::string, PPub> owner;
    std::map<std::string, int> plain_names;
    double batch_time = 0;
    int rejected = 0, reused = 0, late = 0, delivered = 0, races = 0;

    auto names = name_family(s);
    auto path_of = [&](int name) { return tok + names[(size_t) name]; };
    auto request = [&](const std::string& method, int host, int name, const std::string& ext, const HList& extra) {
        std::string t = method + " " + path_of(name) + (ext.empty() ? "" : "." + ext);
        if (s.chance(1, 4)) { std::vector<QueryPiece> q; std::string x = gen_query(s, q); if (!x.empty()) t += "?" + x; }
        t += " HTTP/1.1\r\n";
        HList h = gen_headers(s, 1);
        for (auto& e : extra) h.push_back(e);
        h.insert(h.begin() + (long) s.draw(h.size()), {recase(s, "Host"), std::string(kHosts[(size_t) host].name) + (s.chance(1, 4) ? ":8080" : "")});
        for (auto& e : h) t += e.first + ": " + e.second + "\r\n";
        t += "\r\n";
        if (t.size() > 1900) throw pbt::Discard();
        return t;
    };
    auto add_pkts = [&](Pub& p, size_t k) {
        for (size_t i = 0; i < k; ++i) {
            MPkt m = gen_mpkt(s, s.chance(1, 30) ? 6000 : 60);
            p.pkts.push_back(m);
            flv_tag(p.pay, m, p.prev);
            p.ends.push_back(p.pay.size());
            c.mix(m.body());
            if (c.want_desc) c.desc << m.str();
        }
    };
    auto wire = [&](Pub& p, size_t upto) {          // the stream up to there, as sent
        if (p.framing == 2) upto = std::min(upto, p.declared);
        if (upto <= p.sent) return Bytes();
        Bytes d = p.pay.substr(p.sent, upto - p.sent);
        p.sent = upto;
        if (p.framing != 1) return d;
        std::string x = chunk_body(s, d);
        return Bytes(x.substr(0, x.size() - 5));    // without the last chunk
    };
    auto push = [&](Pub& p) {
        size_t to = s.chance(1, 5) ? (size_t) s.range((int64_t) p.sent, (int64_t) p.pay.size()) : p.pay.size();
        p.conn.send(wire(p, to));
    };
    auto finish = [&](Pub& p) {
        if (p.closing || p.state == Pub::DEAD) return;
        p.closing = true;
        if (p.framing == 1 && s.boolean()) p.conn.send("0\r\n\r\n");
        p.conn.close_write();
    };
    auto pick_pub = [&]() -> PPub {
        std::vector<PPub> o;
        for (auto& p : pubs) if (p->state != Pub::DEAD && !p->self_ended() && !p->closing) o.push_back(p);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto pick_view = [&]() -> PView {
        std::vector<PView> o;
        for (auto& v : views) if (!v->gone && !v->over && !v->fresh) o.push_back(v);
        return o.empty() ? nullptr : s.pick(o);
    };
    auto op = [&]() {
        auto& o = w.ops;
        size_t k = s.weighted({o[0], o[1], o[2], o[3], o[4], o[5], o[6]});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: {    // publish
                auto p = std::make_shared<Pub>();
                p->id = (int) pubs.size();
                int host = s.chance(1, 6) ? (int) s.draw(kHosts.size() - 1) : (int) s.draw(s.chance(1, 3) ? 2 : 0), name = (int) s.draw((uint64_t) w.names - 1);
                std::string ext = s.chance(1, 12) ? s.pick<std::string>({"xyz", "", "fl", "flvx"}) : "flv";
                p->key = std::string(kHosts[(size_t) host].name) + path_of(name) + "";
                // without an extension the path has another name when it contains a dot
                if (ext.empty() && path_of(name).rfind('.') != std::string::npos && path_of(name).rfind('.') > path_of(name).rfind('/')) ext = "xyz";
                p->allowed = kHosts[(size_t) host].pub_all || (kHosts[(size_t) host].pub_flv && ext == "flv");
                p->known = ext == "flv";
                p->framing = (int) s.weighted({3, 2, 1});
                if (p->framing == 2) p->declared = (size_t) (s.chance(1, 3) ? s.range(0, 200) : s.range(100, 3000));
                HList extra;
                if (p->framing == 1) extra.push_back({recase(s, "Transfer-Encoding"), "chunked"});
                if (p->framing == 2) extra.push_back({recase(s, "Content-Length"), std::to_string(p->declared)});
                p->pay = flv_header((uint8_t) s.pick<int>({5, 5, 1, 4, 0}));
                if (s.chance(1, 15)) { p->bad_header = true; p->pay[s.draw(2)] ^= 0x20; }
                if (c.want_desc) c.desc << "publish#" << p->id << " " << p->key << "." << ext << " framing " << p->framing << (p->declared ? ":" + std::to_string(p->declared) : "") << (p->bad_header ? " bad header " : " ");
                c.mix(p->key.substr(tok.size())); c.mix(&p->framing, sizeof p->framing);
                Bytes first = request("POST", host, name, ext, extra);
                Frag rf = gen_frag(s, 200);
                p->conn = open_conn(bg, rf, Frag(), 0);
                if (s.chance(2, 3)) { add_pkts(*p, (size_t) s.skew(0, 4)); first += wire(*p, s.chance(1, 5) ? (size_t) s.range(0, (int64_t) p->pay.size()) : p->pay.size()); }
                p->conn.send(first);
                pubs.push_back(p);
                break;
            }
            case 1: {    // packets
                PPub p = pick_pub();
                if (!p) break;
                if (c.want_desc) c.desc << "packets#" << p->id << " ";
                add_pkts(*p, (size_t) s.range(1, 5));
                push(*p);
                break;
            }
            case 2: {    // join
                auto v = std::make_shared<View>();
                v->id = (int) views.size();
                int host, name = (int) s.draw((uint64_t) w.names - 1);
                std::vector<PPub> o;
                for (auto& p : pubs) if (p->state != Pub::DEAD) o.push_back(p);
                std::string ext = s.chance(1, 20) ? s.pick<std::string>({"xyz", "flvx"}) : "flv";
                if (!o.empty() && s.chance(4, 5)) {
                    PPub p = s.pick(o);
                    for (size_t h = 0; h < kHosts.size(); ++h) for (int n = 0; n < w.names; ++n) if (p->key == kHosts[h].name + path_of(n)) { host = (int) h; name = n; }
                } else host = (int) s.draw(kHosts.size() - 1);
                v->key = std::string(kHosts[(size_t) host].name) + path_of(name);
                v->known = ext == "flv";
                v->stalled = s.chance(1, 8);
                size_t cap = v->stalled ? (size_t) s.skew(1, 2000) : 0;
                Bytes q = request("GET", host, name, ext, {});
                if (c.want_desc) c.desc << "join#" << v->id << " " << v->key << "." << ext << (v->stalled ? " stalled" : "") << " ";
                Frag rf = gen_frag(s, 200), wf = gen_frag(s, 400);
                v->conn = open_conn(bg, rf, wf, cap);
                v->conn.send(q);
                views.push_back(v);
                break;
            }
            case 3: {    // leave
                PView v = pick_view();
                if (!v) break;
                if (c.want_desc) c.desc << "leave#" << v->id << " ";
                v->gone = true;
                v->conn.close_all();
                break;
            }
            case 4: {    // the publisher ends
                PPub p = pick_pub();
                if (!p) break;
                int how = (int) s.weighted({4, 2, 2});
                if (c.want_desc) c.desc << "end#" << p->id << ":" << how << " ";
                c.mix(&how, sizeof how);
                if (how == 1 && p->framing != 2) {       // something that is not a tag
                    if (s.boolean()) add_pkts(*p, (size_t) s.range(0, 3));
                    MPkt m = gen_mpkt(s, 30);
                    if (s.boolean()) m.type = 8;
                    switch (s.draw(3)) {
                        case 0: m.type = s.pick<int>({7, 10, 17, 19, 0, 255}); break;
                        case 1: m.type = 8; m.flags = 0x2f; break;
                        case 2: m.type = 9; m.flags = 0x12; break;
                        default: m.type = 18; m.data.clear(); break;
                    }
                    flv_tag(p->pay, m, p->prev);
                    p->bad_at = p->pay.size();
                    Bytes x = wire(*p, p->pay.size());
                    p->conn.send(x);
                } else {
                    if (how == 2) { add_pkts(*p, 1); p->conn.send(wire(*p, (size_t) s.range((int64_t) p->sent, (int64_t) p->pay.size()))); }   // within a tag
                    finish(*p);
                }
                break;
            }
            case 5: {    // a stalled viewer goes on, or a viewer stalls
                PView v = pick_view();
                if (!v) break;
                v->stalled = !v->stalled;
                if (c.want_desc) c.desc << (v->stalled ? "stall#" : "resume#") << v->id << " ";
                v->conn.from->cap = v->stalled ? (size_t) s.skew(1, 500) : 0;
                st_cond_broadcast(v->conn.from->cv);
                break;
            }
            default: {   // time passes
                st_utime_t d = (st_utime_t) s.range(1, s.chance(1, 4) ? 12000000 : 6000000);
                if (c.want_desc) c.desc << "time+" << d << " ";
                ahead += d;
                batch_time += d * 1e-6;
                for (auto& v : views) { v->idle += d * 1e-6; if (v->idle > 9.5) v->may_end = true; }
                st_usleep(0);
            }
        }
    };
    auto check_view = [&](View& v) {
        v.in += v.conn.from->buf.substr(v.conn.from->off);
        v.conn.from->buf.clear(); v.conn.from->off = 0;
        st_cond_broadcast(v.conn.from->cv);
        std::string who = "viewer #" + std::to_string(v.id) + " of " + v.key + ": ";
        Rsp r = parse_response(v.in, 0);
        if (v.stalled && !r.err.empty()) return;     // it has not taken the header yet
        CHECK_MSG(r.err.empty() && r.status == 200, who << "no valid response: " << r.err << " " << pbt::quote(v.in, 100));
        Bytes b = r.body;
        if (b.size() < 9) { CHECK_MSG(v.stalled, who << "no FLV header"); return; }
        CHECK_MSG(b.substr(0, 4) == Bytes("FLV\x01", 4) && (b[4] & ~5) == 0 && rd(b, 5, 4) == 9, who << "no FLV header: " << pbt::quote(b.substr(0, 9)));
        b.erase(0, 9);
        std::vector<Cand> left;
        Bytes want;
        for (auto& x : v.cands) {
            want = expected(x);
            if (v.stalled ? want.compare(0, b.size(), b) == 0 : want == b) left.push_back(x);
        }
        CHECK_MSG(!left.empty(), who << "got " << show_tags(b) << "expected " << show_tags(want));
        v.cands = left;
        if (b.size() != v.last) { v.idle = batch_time; ++delivered; }
        v.last = b.size();
    };
    auto error_only = [&](Conn& k, const std::string& who, int must) {
        Bytes b = k.from->buf.substr(k.from->off);
        if (b.empty()) { CHECK_MSG(!must, who << "no " << must << " response"); CHECK_MSG(*k.ended, who << "neither answered nor closed"); return; }
        Rsp r = parse_response(b, 0);
        CHECK_MSG(r.err.empty(), who << r.err << " in " << pbt::quote(b, 200));
        CHECK_MSG(must ? r.status == must : r.status >= 400, who << "answered with " << r.status << (must ? " instead of " + std::to_string(must) : ""));
        CHECK_MSG(r.complete || *k.ended, who << "the answer has no end");
        CHECK_MSG(r.used == b.size(), who << "more than one answer: " << pbt::quote(b, 300));
    };
    auto resolve = [&]() {
        if (bg->failed) pbt::fail(bg->msg);
        std::map<std::string, std::vector<PPub>> fresh;
        for (auto& p : pubs) if (p->fresh) {
            std::string who = "publisher #" + std::to_string(p->id) + " of " + p->key + ": ";
            if (!p->allowed || !p->known) {
                error_only(p->conn, who + "not allowed here, ", p->allowed ? 0 : 403);
                p->state = Pub::DEAD;
                p->conn.close_all();
                ++rejected;
            } else fresh[p->key].push_back(p);
        }
        std::set<std::string> keys;
        for (auto& f : fresh) keys.insert(f.first);
        for (auto& o : owner) keys.insert(o.first);
        std::map<std::string, std::vector<PPub>> sources;      // who may have been the source in this batch
        std::map<std::string, bool> sure;                       // there was a source all the time
        for (auto& key : keys) {
            PPub o = owner.count(key) ? owner[key] : nullptr;
            bool o_stays = o && !o->self_ended();
            if (o) {
                CHECK_MSG(*o->conn.ended == !o_stays, "publisher #" << o->id << " of " << key << (o_stays ? " was disturbed: its connection is closed" : " has ended but is still served"));
                sources[key].push_back(o);
                if (!o_stays) { o->state = Pub::DEAD; owner.erase(key); }
            }
            sure[key] = o_stays;
            int alive = 0, ended = 0;
            PPub winner;
            for (auto& p : fresh[key]) {
                if (p->self_ended()) { CHECK_MSG(*p->conn.ended, "publisher #" << p->id << " of " << key << " has ended but is still served"); ++ended; p->state = Pub::DEAD; sources[key].push_back(p); continue; }
                if (!*p->conn.ended) { ++alive; winner = p; continue; }
                p->state = Pub::DEAD;
                error_only(p->conn, "publisher #" + std::to_string(p->id) + " of " + key + ": rejected, ", 0);
                ++rejected;
            }
            size_t n = fresh[key].size();
            if (n > 1 || (n && o)) ++races;
            if (o_stays) CHECK_MSG(alive == 0, "a second publisher of " << key << " is accepted while #" << o->id << " publishes");
            CHECK_MSG(alive <= 1, alive << " publishers of " << key << " at once");
            if (!o && !ended && n) CHECK_MSG(alive == 1, "the name " << key << " is free but its publisher is rejected");
            if (winner) { winner->state = Pub::OWNER; owner[key] = winner; sources[key].push_back(winner); if (plain_names[key]++) ++reused; }
        }
        for (auto& v : views) if (v->fresh) {
            v->fresh = false;
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            auto& src = sources[v->key];
            Bytes b = v->conn.from->buf.substr(v->conn.from->off);
            // a stalled viewer may not have taken enough of the answer to tell
            bool ok = b.compare(0, std::min<size_t>(b.size(), 12), std::string("HTTP/1.1 200").substr(0, std::min<size_t>(b.size(), 12))) == 0 && !b.empty();
            if (v->stalled && (b.size() < 12 || !ok)) { v->conn.from->cap = 0; v->stalled = false; st_cond_broadcast(v->conn.from->cv); settle(); b = v->conn.from->buf.substr(v->conn.from->off); ok = b.compare(0, 12, "HTTP/1.1 200") == 0; }
            if (src.empty()) { CHECK_MSG(!ok, who << "served without a source"); error_only(v->conn, who + "no source, ", 404); v->over = true; v->conn.close_all(); continue; }
            if (!v->known) { CHECK_MSG(!ok, who << "served in an unknown format"); v->over = true; v->conn.close_all(); continue; }
            if (sure[v->key]) CHECK_MSG(ok, who << "refused although there is a source: " << pbt::quote(b, 100));
            if (!ok) { error_only(v->conn, who + "refused, ", 404); v->over = true; v->conn.close_all(); continue; }
            v->playing = true;
            for (auto& p : src) for (size_t j = p->state == Pub::OWNER && p->fresh ? 0 : p->n0; j <= p->avail(); ++j) { v->cands.push_back({p, j}); if (j) ++late; }
        }
        for (auto& v : views) if (v->playing && !v->gone && !v->over) {
            std::string who = "viewer #" + std::to_string(v->id) + " of " + v->key + ": ";
            bool ended = *v->conn.ended;
            if (ended) { CHECK_MSG(v->may_end, who << "its connection is closed"); v->over = true; }
            else if (!v->stalled && v->idle > 30) pbt::fail(who + "still waits long after the source ended");
            // one that was dropped gets no more
            bool moved = false;
            if (ended) for (auto& x : v->cands) moved |= x.p->avail() != x.p->n0;
            if (!ended || !moved) check_view(*v);
        }
        for (auto& p : pubs) { p->fresh = false; p->n0 = p->avail(); }
        for (auto& v : views) if (v->gone && !v->over && *v->conn.ended) v->over = true;
    };
    // once a viewer was sent its last packet long ago it may be dropped; whether time passed before or after a packet is settled first
    while (s.more(w.len > 60 ? 40 : 18) && views.size() + pubs.size() < w.len) {
        size_t n = s.chance(1, 4) ? (size_t) s.range(2, 6) : 1;
        for (size_t i = 0; i < n; ++i) {
            op();
            if (n > 1 && s.chance(1, 3)) st_usleep(0);
        }
        if (n > 1 && c.want_desc) c.desc << "(at once) ";
        settle();
        resolve();
        batch_time = 0;
        if (c.want_desc) c.desc << "| ";
    }
    // everything ends
    for (auto& v : views) if (v->stalled && !v->over && !v->gone) { v->stalled = false; v->conn.from->cap = 0; st_cond_broadcast(v->conn.from->cv); }
    settle(); resolve();
    for (auto& p : pubs) finish(*p);
    settle(); resolve();
    for (int i = 0; i < 3; ++i) {
        ahead += 11000000;
        for (auto& v : views) { v->idle = 11; v->may_end = true; }
        settle();
    }
    resolve();
    CHECK_MSG(owner.empty(), "harness: a publisher is left");
    for (auto& v : views) CHECK_MSG(*v->conn.ended || v->over, "viewer #" << v->id << " of " << v->key << " is still connected after its source ended");
    for (auto& n : plain_names) {
        for (size_t h = 0; h < kHosts.size(); ++h) for (int k = 0; k < w.names; ++k) if (n.first == kHosts[h].name + path_of(k)) {
            Conn q = open_conn(bg, Frag(), Frag(), 0);
            q.send("GET " + path_of(k) + ".flv HTTP/1.1\r\nHost: " + kHosts[h].name + "\r\n\r\n");
            settle();
            error_only(q, "viewer of " + n.first + " after its source ended: ", 404);
            q.close_all();
        }
    }
    for (auto& p : pubs) p->conn.close_all();
    for (auto& v : views) v->conn.close_all();
    settle();
    for (double end = mono() + 20; bg->live > 0 && !bg->failed && mono() < end;) st_usleep(0);
    bg->join(0, "connections");
    c.label_if(rejected > 0, "rejected"); c.label_if(reused > 0, "name-reused"); c.label_if(late > 0, "late-join"); c.label_if(races > 0, "contended"); c.label_if(delivered > 0, "delivered");
    for (auto& v : views) c.label_if(v->gone, "left");
    if (w.names > 1) c.nontrivial = races > 0 || reused > 0;
    else c.nontrivial = late > 0 && delivered > 0;
}
static void p07(Src& s, Ctx& c) { live(s, c, {{6, 5, 4, 1, 5, 0, 1}, 3, 40}); }
static void p26(Src& s, Ctx& c) { live(s, c, {{2, 12, 5, 2, 1, 2, 1}, 1, s.chance(1, 10) ? (size_t) 80 : (size_t) 30}); }

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P07";
    a.rule = "histories of publish attempts (five hosts, three names, allowed and not, three body framings, damaged headers and tags), packets, joins, leaves, endings and passing time on real server connections, one at a time or several between scheduling points; non-trivial: a name was contended or reused; distinct by operations and packets";
    a.body = p07; a.setup = setup; a.quick_cases = 40000; a.thorough_cases = 300000; a.cpu_clock = false; a.case_timeout = 60;
    pbt::Property b;
    b.id = "P26";
    b.rule = "histories of one stream per host with generated packets in random pieces, viewers joining, leaving and stalling, passing time and publisher endings; after every batch each viewer must have exactly the bytes of the model; non-trivial: a viewer joined after the first packet and got some; distinct by operations and packets";
    b.body = p26; b.setup = setup; b.quick_cases = 40000; b.thorough_cases = 300000; b.cpu_clock = false; b.case_timeout = 60;
    a.assumptions = b.assumptions = {"FLV over HTTP; connections are in-memory byte streams", "the server's clock is advanced by the harness"};
    return pbt::run_main(argc, argv, {a, b});
}
