// PROPERTIES: P24
// TLS streams of the project against each other and against plain OpenSSL, over scripted in-memory transports.
#include <sps_sys_st_io_ssl.hpp>

#include "ref_tls.hpp"

using namespace sps;
using stn::PPipe;
using stn::PPipeIO;
using namespace stn;

static void setup() {
    quiet_log();
    stn::init();
    cert_files();
}

struct Search : ISSLCertSearch {
    error_t search(const std::string& n, SSLConfig& c) override {
        asked = n;
        int k = n == "a.test" ? 0 : n == "b.test" ? 1 : -1;
        if (k < 0) return ERROR_SSL_HANDSHAKE;
        c.crt_file = f_cert[k]; c.key_file = f_key[k];
        return SUCCESS;
    }
    std::string asked;
};

static error_t do_init(PIReaderWriter x) {
    if (auto* t = dynamic_cast<StSSLSocket*>(x.get())) return t->init();
    return dynamic_cast<RefTls*>(x.get())->init();
}

static void p24(Src& s, Ctx& c) {
    int pairing = (int) s.weighted({3, 2, 2});            // 0 both ours, 1 our server, 2 our client
    bool sni = pairing != 2 && s.chance(1, 3);
    static const char* names[] = {"a.test", "b.test", "c.test", ""};
    int name = sni ? (int) s.weighted({3, 3, 1, 1}) : (int) s.weighted({1, 1, 1, 1});
    int cert = (int) s.draw(1);
    bool dflt = !sni || s.chance(1, 3);                    // the server has a certificate of its own
    Frag f[4];
    for (auto& x : f) x = gen_frag(s, 3000);
    Dir up = gen_dir(s, false), down = gen_dir(s, true);
    bool duplex = s.chance(1, 3);
    int ending = (int) s.weighted({4, 2, 2});             // 0 nothing, 1 transport closed by the sender, 2 damaged byte
    size_t cap = duplex && s.boolean() ? s.range(1, 5000) : 0;
    uint64_t dmg = s.draw(20000);
    uint8_t bits = (uint8_t) (1u << s.draw(7));
    bool swap = s.boolean();                               // who sends first
    if (ending == 2) duplex = false;
    if (c.want_desc)
        c.desc << (pairing == 0 ? "project client and server" : pairing == 1 ? "project server, OpenSSL client" : "project client, OpenSSL server")
               << (sni ? " SNI " : " name ") << names[name] << " transport " << f[0].str() << f[1].str() << f[2].str() << f[3].str()
               << (duplex ? " duplex cap " + std::to_string(cap) : std::string(" in turn")) << " up: " << show(up) << " down: " << show(down)
               << " ending " << ending;
    std::string d = c.desc.str();
    for (auto& w : up.writes) c.mix(w);
    for (auto& w : down.writes) c.mix(w);
    for (auto& x : f) for (size_t k : x.sizes) c.mix(&k, sizeof k);
    for (auto& r : up.reads) c.mix(&r.size, 8);
    c.mix(&pairing, 4); c.mix(&name, 4); c.mix(&cap, 8);
    c.nontrivial = true;

    auto a2b = std::make_shared<stn::Pipe>(), b2a = std::make_shared<stn::Pipe>();
    auto tc = std::make_shared<stn::PipeIO>(b2a, a2b, f[0], f[1]);
    auto ts = std::make_shared<stn::PipeIO>(a2b, b2a, f[2], f[3]);
    SSLConfig cc, sc;
    cc.server_host = names[name];
    if (dflt) { sc.crt_file = f_cert[cert]; sc.key_file = f_key[cert]; }
    auto search = std::make_shared<Search>();
    PIReaderWriter cl, sv;
    if (pairing == 1) cl = std::make_shared<RefTls>(tc, false, names[name], 0);
    else cl = std::make_shared<StSSLSocket>(tc, SSL_CLIENT, cc);
    if (pairing == 2) sv = std::make_shared<RefTls>(ts, true, "", cert);
    else sv = std::make_shared<StSSLSocket>(ts, SSL_SERVER, sc, sni ? search : nullptr);

    // handshake
    auto g = stn::group();
    auto rc = std::make_shared<int>(-1), rs = std::make_shared<int>(-1);
    g->go([=] { *rc = do_init(cl); if (*rc != SUCCESS) { a2b->closed = true; st_cond_broadcast(a2b->cv); } });
    g->go([=] { *rs = do_init(sv); if (*rs != SUCCESS) { b2a->closed = true; st_cond_broadcast(b2a->cv); } });
    g->join(60, "handshake");
    bool ok = dflt || name < 2;
    if (!ok) {
        CHECK_MSG(*rc != SUCCESS && *rs != SUCCESS, "a handshake for the unknown name '" << names[name] << "' succeeded");
        c.label("unknown name refused");
        return;
    }
    CHECK_MSG(*rc == SUCCESS && *rs == SUCCESS, "handshake failed: client " << *rc << " server " << *rs);
    if (sni && name < 2) {
        CHECK_MSG(search->asked == names[name], "certificate searched for '" << search->asked << "'");
        if (pairing == 1) {
            std::string cn = dynamic_cast<RefTls*>(cl.get())->peer_cn();
            CHECK_MSG(cn == names[name], "certificate of " << cn << " presented for " << names[name]);
        }
        c.label("SNI");
    } else if (pairing == 1) {
        std::string cn = dynamic_cast<RefTls*>(cl.get())->peer_cn();
        CHECK_MSG(cn == names[cert], "certificate of " << cn << " presented, configured " << names[cert]);
        c.label_if(sni, "unknown name, own certificate");
    }
    // timeouts reach the transport
    if (pairing != 1) {
        utime_t tm = 1000 + s.draw(1000000);
        cl->set_recv_timeout(tm);
        CHECK_EQ(tc->rtm, tm); CHECK_EQ(cl->get_recv_timeout(), tm);
        cl->set_send_timeout(tm + 1);
        CHECK_EQ(tc->stm, tm + 1); CHECK_EQ(cl->get_send_timeout(), tm + 1);
        cl->set_recv_timeout(-1);
    }

    Bytes eu = up.all(), ed = down.all();
    g = stn::group();
    if (duplex) {
        a2b->cap = b2a->cap = cap;
        g->go([=] { do_writes(cl, up, 0, up.writes.size(), "client"); });
        g->go([=] { do_writes(sv, down, 0, down.writes.size(), "server"); });
        g->go([=] { size_t at = 0, op = 0; do_reads(sv, up, eu, at, eu.size(), op, false, "server"); });
        g->go([=] { size_t at = 0, op = 0; do_reads(cl, down, ed, at, ed.size(), op, false, "client"); });
        g->join(60, "duplex traffic");
        c.label("duplex");
    } else if (ending == 2) {
        PPipeIO from = swap ? ts : tc;
        PIReaderWriter w = swap ? sv : cl, r = swap ? cl : sv;
        const Bytes e = eu;
        from->damage_at = from->out->total + dmg % (e.size() + 29 * up.writes.size());
        from->damage_bits = bits;
        PPipe p = from->out;
        g->go([=] { do_writes(w, up, 0, up.writes.size(), "sender"); p->closed = true; st_cond_broadcast(p->cv); });
        g->go([=] {
            size_t at = 0, op = 0;
            error_t q = do_reads(r, up, e, at, e.size(), op, true, "reader of a damaged stream");
            CHECK_MSG(q != SUCCESS, "a stream with a damaged byte was delivered whole");
        });
        g->join(60, "damaged traffic");
        c.label("damaged byte");
        return;
    } else {
        // in turn: each side writes some, the other reads exactly what was written so far or part of it
        g->go([=] {
            size_t wi[2] = {0, 0}, at[2] = {0, 0}, op[2] = {0, 0}, sent[2] = {0, 0};
            PIReaderWriter W[2] = {cl, sv}, R[2] = {sv, cl};
            const Dir* D[2] = {&up, &down};
            const Bytes* E[2] = {&eu, &ed};
            int who = swap ? 1 : 0;
            while (wi[0] < up.writes.size() || wi[1] < down.writes.size()) {
                if (wi[who] < D[who]->writes.size()) {
                    do_writes(W[who], *D[who], wi[who], wi[who] + 1, who ? "server" : "client");
                    sent[who] += D[who]->writes[wi[who]].size();
                    wi[who]++;
                    size_t keep = (sent[who] - at[who]) * ((wi[0] + wi[1]) % 3) / 4;   // sometimes lag behind
                    do_reads(R[who], *D[who], *E[who], at[who], sent[who] - keep, op[who], false, who ? "client" : "server");
                }
                who ^= 1;
            }
            for (int k = 0; k < 2; ++k) do_reads(R[k], *D[k], *E[k], at[k], E[k]->size(), op[k], false, k ? "client" : "server");
        });
        g->join(60, "traffic in turn");
    }
    if (ending == 1) {
        // the transport ends: reads fail, nothing is invented
        g = stn::group();
        a2b->closed = b2a->closed = true;
        st_cond_broadcast(a2b->cv); st_cond_broadcast(b2a->cv);
        g->go([=] {
            for (auto& x : {cl, sv}) {
                Heap h(Bytes(64, 0));
                size_t n = 0;
                error_t e = x->read(h.p, 64, n);
                CHECK_MSG(e != SUCCESS, "a read after the end of the transport returned " << n << " bytes");
                ssize_t m = 0;
                e = x->read_fully(h.p, 64, &m);
                CHECK_MSG(e != SUCCESS, "an exact read after the end of the transport succeeded");
            }
        });
        g->join(60, "end of transport");
        c.label("transport end");
    }
    c.label(pairing == 0 ? "project both" : pairing == 1 ? "project server" : "project client");
    c.label_if(eu.size() > 16384, "multi-record");
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P24";
    a.rule = "project client and server against each other or one of them against plain OpenSSL, over in-memory transports with generated read and write fragmentations; up to 70000-byte writes, read and exact-read size sequences, in turn or full duplex with back pressure, certificate chosen by server name or fixed, transport closed or one bit damaged at the end; every case completes or is refused a handshake and is non-trivial; distinct by payloads, fragmentations and pairing";
    a.body = p24; a.setup = setup; a.quick_cases = 8000; a.thorough_cases = 200000; a.cpu_clock = false; a.case_timeout = 130;
    return pbt::run_main(argc, argv, {a});
}
