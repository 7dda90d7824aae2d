// PROPERTIES: P05 P06 P31
// TECHNIQUE P05: stateful property-based testing: generated packet/join/leave/read histories against a reference model of the stream
// TECHNIQUE P06: stateful property-based testing: generated subscribe/cancel/expire/publish histories against a reference model
// TECHNIQUE P31: stateful property-based testing: generated transport packet and join histories against a reference model
#include "common.hpp"
#include <st.h>
#include <sps_avformat_cache.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_stream_cache.hpp>

using namespace sps;

static void st_setup() { quiet_log(); st_init(); }

static std::string pk(const PAVPacket& p) {
    std::ostringstream o;
    o << "#" << p->duration << "(dts " << p->dts << " s" << p->stream_type << " t" << p->pkt_type.pkt_type << " f" << std::hex << p->flags << ")";
    return o.str();
}
static std::string pks(const std::list<PAVPacket>& l) { std::string s; for (auto& p : l) s += pk(p) + " "; return s; }

// ---------------------------------------------------------------- P05
struct Viewer {
    PAVDumpCacheStream cc;
    std::list<PAVPacket> want;   // not read yet
    bool subscribed = true;
};

static void p05(Src& s, Ctx& c) {
    std::string name = "h/a";
    auto cache = StreamCache::create_av_streamcache(name);
    struct Rel { std::string n; ~Rel() { StreamCache::release_av_streamcache(n); } } rel{name};
    PAVPacket script, ah, vh;
    std::list<PAVPacket> gop;
    std::vector<Viewer> vs;
    int n = 0, joins_late = 0, keys = 0;
    int64_t now = (int64_t) s.range(0, 100);
    std::vector<std::pair<PAVPacket, Bytes>> sent;
    bool with_info = s.chance(1, 6);
    size_t len = 0, maxlen = s.chance(1, 8) ? 400 : 40;
    auto read = [&](Viewer& v) {
        if (v.want.empty()) { CHECK_MSG(v.cc->size() == 0, "viewer has " << v.cc->size() << " packets, expected none"); return; }
        std::list<PAVPacket> got;
        int k = v.cc->dump(got, false);
        CHECK_MSG(got == v.want, "viewer got " << pks(got) << " expected " << pks(v.want));
        CHECK_EQ((size_t) k, got.size());
        CHECK_MSG(v.cc->size() == 0, "packets left after reading all");
        v.want.clear();
    };
    while (s.more(maxlen > 100 ? 150 : 25) && len++ < maxlen) {
        switch (s.weighted({14, 3, 3, 1, 1, 1})) {
            case 0: {
                int kind = (int) s.weighted({6, 5, 2, 1, 1, 1, with_info ? 2 : 0, 1});
                AVStreamType st = AV_STREAM_TYPE_VIDEO; int pt = 1, fl = 0x27;
                switch (kind) {
                    case 0: break;                                                     // inter frame
                    case 1: st = AV_STREAM_TYPE_AUDIO; fl = 0xaf; break;               // audio
                    case 2: fl = 0x17; break;                                          // keyframe
                    case 3: st = AV_STREAM_TYPE_AUDIO; pt = 0; fl = 0xaf; break;       // audio config
                    case 4: pt = 0; fl = 0x17; break;                                  // video config
                    case 5: st = AV_STREAM_TYPE_SUBTITLE; pt = (int) s.draw(1); fl = 0; break;    // script
                    case 6: pt = 0; fl = 0x57; break;                                  // video info/command frame
                    default: fl = (int) s.pick<int>({0x37, 0x47, 0x2c, 0x1c}); break;
                }
                // payloads, times and codecs vary: what is delivered must not depend on them
                Bytes b = s.blob((size_t) (s.chance(1, 50) ? s.skew(0, 20000) : s.skew(0, 40)));
                switch (s.weighted({10, 2, 2, 1, 1, 1})) {
                    case 0: now += s.range(0, 40); break;
                    case 1: break;                                        // same time again
                    case 2: now -= s.range(0, 2000); break;               // backwards
                    case 3: now = 0; break;                               // publisher restarted its clock
                    case 4: now = s.pick<int64_t>({-1, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x1ffffffffll, INT64_MAX, INT64_MIN}); break;
                    default: now = (int64_t) s.draw(UINT64_MAX); break;
                }
                now = std::min<int64_t>(std::max<int64_t>(now, INT64_MIN / 2), INT64_MAX / 2);
                int codec = s.chance(1, 6) ? (int) s.range(0, 15) : st == AV_STREAM_TYPE_AUDIO ? 10 : 7;
                if (s.chance(1, 8) && st == AV_STREAM_TYPE_AUDIO) fl = (int) s.range(0, 255);
                if (s.chance(1, 8) && st == AV_STREAM_TYPE_VIDEO) fl = (fl & 0xf0) | (int) s.range(0, 15);
                if (s.chance(1, 12) && pt == 1) pt = (int) s.pick<int>({2, 3, 255, 1});
                auto p = AVPacket::create(AV_MESSAGE_DATA, st, AVPacketType{pt}, (uint8_t*) b.data(), (int) b.size(), now, now + s.pick<int>({0, 0, 40, 80, -1}), fl, codec, n);
                sent.push_back({p, b});
                ++n;
                if (c.want_desc) c.desc << "put" << pk(p) << " ";
                c.mix(&kind, sizeof kind);
                bool info = st == AV_STREAM_TYPE_VIDEO && (fl >> 4) == 5;
                if (st == AV_STREAM_TYPE_SUBTITLE) script = p;
                else if (st == AV_STREAM_TYPE_AUDIO && pt == 0) ah = p;
                else if (st == AV_STREAM_TYPE_VIDEO && pt == 0 && !info) vh = p;
                else if (st == AV_STREAM_TYPE_VIDEO && (fl >> 4) == 1) { gop.clear(); gop.push_back(p); ++keys; }
                else if (!gop.empty()) gop.push_back(p);
                c.label_if(info, "info-frame");
                for (auto& v : vs) if (v.subscribed) v.want.push_back(p);
                auto q = p;
                CHECK(cache->put(q) == SUCCESS);
                break;
            }
            case 1: {   // join
                Viewer v;
                v.cc = StreamCache::get_client_streamcache(name, 1);
                CHECK_MSG(v.cc, "viewer refused");
                if (script) v.want.push_back(script);
                if (ah) v.want.push_back(ah);
                if (vh) v.want.push_back(vh);
                for (auto& p : gop) v.want.push_back(p);
                CHECK_MSG((size_t) v.cc->size() == v.want.size(), "join: " << v.cc->size() << " packets, expected " << pks(v.want));
                if (c.want_desc) c.desc << "join" << vs.size() << " ";
                vs.push_back(v);
                c.mix("j", 1);
                if (!gop.empty()) ++joins_late;
                break;
            }
            case 2: if (!vs.empty()) { size_t i = s.draw(vs.size() - 1); if (c.want_desc) c.desc << "read" << i << " "; c.mix("r", 1); read(vs[i]); } break;
            case 3: if (!vs.empty()) {   // leave properly
                size_t i = s.draw(vs.size() - 1);
                if (c.want_desc) c.desc << "leave" << i << " ";
                c.mix("l", 1);
                cache->cancel(vs[i].cc);
                vs[i].subscribed = false;
                break;
            } break;
            case 4: if (!vs.empty()) {   // vanish
                size_t i = s.draw(vs.size() - 1);
                if (c.want_desc) c.desc << "vanish" << i << " ";
                c.mix("v", 1);
                vs.erase(vs.begin() + i);
            } break;
            default: {  // nothing to put
                PAVPacket none;
                CHECK(cache->put(none) == SUCCESS);
            }
        }
    }
    for (auto& v : vs) read(v);
    // what was delivered (by identity) still has the payload that was put
    for (auto& e : sent) CHECK_MSG((size_t) e.first->size() == e.second.size() && (e.second.empty() || !memcmp(e.first->buffer(), e.second.data(), e.second.size())), "payload of " << pk(e.first) << " altered");
    c.label_if(vs.size() > 2, "viewers>2");
    c.label_if(keys > 1, "several-gops");
    c.nontrivial = joins_late > 0 && n > 3;
}

// ---------------------------------------------------------------- P06
struct Rec : public Subscriber<int> {
    std::vector<int> got;
    int do_event(int& o) override { got.push_back(o); return SUCCESS; }
};
struct RecCache : public CacheStream<std::shared_ptr<int>> {};

static void p06(Src& s, Ctx& c) {
    Publisher<int> pub;
    struct M { std::shared_ptr<Rec> r; bool joined = false; std::vector<int> want; };
    std::vector<M> live;
    int next = 0, expired = 0, cancels = 0;
    size_t ops = 0, maxops = s.chance(1, 10) ? 400 : 50;
    std::vector<std::shared_ptr<Rec>> spare;   // vary addresses
    while (s.more(maxops > 100 ? 120 : 25) && ops++ < maxops) {
        size_t k = s.weighted({4, 3, 2, 2, 5, 1});
        c.mix(&k, sizeof k);
        switch (k) {
            case 0: {
                M m; m.r = std::make_shared<Rec>();
                if (s.boolean()) { spare.push_back(m.r); m.r = std::make_shared<Rec>(); if (s.boolean()) spare.clear(); }
                live.push_back(m);
                if (c.want_desc) c.desc << "new" << live.size() - 1 << " ";
                if (!s.chance(1, 5)) { live.back().joined = true; pub.sub(live.back().r); if (c.want_desc) c.desc << "sub" << live.size() - 1 << " "; }
                break;
            }
            case 1: if (!live.empty()) { size_t i = s.draw(live.size() - 1); live[i].joined = true; pub.sub(live[i].r); c.mix(&i, sizeof i); if (c.want_desc) c.desc << "sub" << i << " "; } break;
            case 2: if (!live.empty()) { size_t i = s.draw(live.size() - 1); live[i].joined = false; pub.cancel(live[i].r); ++cancels; c.mix(&i, sizeof i); if (c.want_desc) c.desc << "cancel" << i << " "; } break;
            case 3: if (!live.empty()) {
                size_t i = s.draw(live.size() - 1);
                if (live[i].joined) ++expired;
                c.mix(&i, sizeof i);
                if (c.want_desc) c.desc << "vanish" << i << " ";
                CHECK_MSG(live[i].r->got == live[i].want, "subscriber " << i << " got " << live[i].r->got.size() << " items, expected " << live[i].want.size());
                live.erase(live.begin() + i);
            } break;
            case 4: {
                int v = next++;
                if (c.want_desc) c.desc << "pub" << v << " ";
                for (auto& m : live) if (m.joined) m.want.push_back(v);
                pub.publish(v);
                for (size_t i = 0; i < live.size(); ++i)
                    CHECK_MSG(live[i].r->got == live[i].want, "after publishing " << v << ": subscriber " << i << (live[i].joined ? " (joined)" : " (not joined)")
                              << " got " << live[i].r->got.size() << " items, expected " << live[i].want.size());
                break;
            }
            default: if (live.size() > 1) { size_t i = s.draw(live.size() - 1); std::swap(live[i], live.back()); }
        }
    }
    int v = next++;
    for (auto& m : live) if (m.joined) m.want.push_back(v);
    pub.publish(v);
    for (size_t i = 0; i < live.size(); ++i) CHECK_MSG(live[i].r->got == live[i].want, "at the end: subscriber " << i << " got " << live[i].r->got.size() << " items, expected " << live[i].want.size());
    c.label_if(expired > 0, "vanished-while-joined");
    c.label_if(cancels > 0, "cancelled");
    c.nontrivial = next > 1 && live.size() > 1 && (expired || cancels);
}

// ---------------------------------------------------------------- P31
static void p31(Src& s, Ctx& c) {
    std::string name = "h/a.ts";
    auto cache = StreamCache::create_raw_streamcache(name);
    struct Rel { std::string n; ~Rel() { StreamCache::release_av_streamcache(n); } } rel{name};
    TsCache ts(cache);
    typedef std::vector<Bytes> L;
    Bytes pat, pmt; bool has_pat = false, has_pmt = false;
    L cur;
    struct V { PAVDumpCacheStream cc; L want; };
    std::vector<V> vs;
    int n = 0, units = 0, late = 0;
    auto dump = [&](V& v) {
        if (v.want.empty()) { CHECK_MSG(v.cc->size() == 0, "viewer has unexpected packets"); return; }
        std::list<PAVPacket> g;
        v.cc->dump(g, false);
        L got; for (auto& p : g) got.emplace_back((char*) p->buffer(), p->size());
        if (got != v.want) {
            std::ostringstream o; o << "viewer got " << got.size() << " packets, expected " << v.want.size();
            for (size_t i = 0; i < std::min(got.size(), v.want.size()); ++i) if (got[i] != v.want[i]) { o << ", first difference at " << i; break; }
            pbt::fail(o.str());
        }
        v.want.clear();
    };
    size_t ops = 0;
    while (s.more(40) && ops++ < 300) {
        switch (s.weighted({12, 3, 3, 1})) {
            case 0: {
                int kind = (int) s.weighted({8, 3, 1, 1});
                Bytes b = Bytes("\x47", 1) + be((uint64_t) n++, 4) + s.blob(183);
                c.mix(&kind, sizeof kind);
                bool start = kind == 1 || (kind > 1 && !s.chance(1, 8));
                TsProgramType t = kind == 2 ? TS_PROGRAM_PAT : kind == 3 ? TS_PROGRAM_PMT : TS_PROGRAM_PES;
                if (kind == 2) { pat = b; has_pat = true; }
                else if (kind == 3) { pmt = b; has_pmt = true; }
                else { if (start) { cur.clear(); ++units; } cur.push_back(b); }
                for (auto& v : vs) v.want.push_back(b);
                if (c.want_desc) c.desc << (kind == 0 ? "pkt " : kind == 1 ? "start " : kind == 2 ? "pat " : "pmt ");
                Heap h(b);
                CHECK(ts.on_packet(h.p, h.n, t, start ? 1 : 0) == SUCCESS);
                break;
            }
            case 1: {
                V v;
                v.cc = StreamCache::get_client_streamcache(name, 1);
                CHECK(v.cc);
                if (has_pat) v.want.push_back(pat);
                if (has_pmt) v.want.push_back(pmt);
                v.want.insert(v.want.end(), cur.begin(), cur.end());
                CHECK_MSG((size_t) v.cc->size() == v.want.size(), "join: " << v.cc->size() << " packets, expected " << v.want.size());
                if (c.want_desc) c.desc << "join ";
                vs.push_back(v);
                if (units > 1) ++late;
                c.mix("j", 1);
                break;
            }
            case 2: if (!vs.empty()) dump(vs[s.draw(vs.size() - 1)]); break;
            default: if (!vs.empty()) { size_t i = s.draw(vs.size() - 1); if (s.boolean()) cache->cancel(vs[i].cc); vs.erase(vs.begin() + i); }
        }
    }
    for (auto& v : vs) dump(v);
    c.nontrivial = late > 0;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P05";
    a.rule = "random histories of puts (inter, key, audio, configuration, script, info frames), joins, reads, leaves and disappearances on one live stream; every viewer's packets compared by identity with a model; non-trivial: a viewer joined after a keyframe and more than three packets were put; distinct by operation sequence";
    a.body = p05; a.setup = st_setup; a.quick_cases = 300000; a.thorough_cases = 8000000;
    pbt::Property b;
    b.id = "P06";
    b.rule = "random histories of subscribe, subscribe twice, cancel, destroy without cancelling and publish over many subscribers, compared after every publication with a model; non-trivial: at least two live subscribers at the end, one published item, and a cancellation or disappearance; distinct by operation sequence";
    b.body = p06; b.setup = st_setup; b.quick_cases = 3000000; b.thorough_cases = 30000000;
    pbt::Property d;
    d.id = "P31";
    d.rule = "random histories of table and unit packets (unit starts and continuations) recorded by the transport-stream relay, joins, reads and leaves, compared with a model; non-trivial: a viewer joined after two unit starts; distinct by operation sequence";
    d.body = p31; d.setup = st_setup; d.quick_cases = 500000; d.thorough_cases = 3000000;
    return pbt::run_main(argc, argv, {a, b, d});
}
