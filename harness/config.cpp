// PROPERTIES: P14 P15
// TECHNIQUE P14: property-based testing: configuration trees rendered in random layouts, the tree as oracle; single structural damages must be refused
// TECHNIQUE P15: property-based testing: generated host sets and names against a reference router; metamorphic: order and merging
#include "common.hpp"
#include <setjmp.h>
#include <sps_module.hpp>
#include <sps_io_memory.hpp>
#include <sps_root_module.hpp>
#include <sps_http_module.hpp>
#include <sps_host_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_host_loc_module.hpp>
#include <sps_upstream_module.hpp>
#include <sps_stream_module.hpp>

using namespace sps;

// the configuration loader refuses some input by ending the process; that counts as a refusal
static jmp_buf exit_jmp;
static bool exit_armed = false;
static int exit_code = 0;
extern "C" void exit(int code) {
    if (exit_armed) { exit_armed = false; exit_code = code; longjmp(exit_jmp, 1); }
    fflush(nullptr);
    _exit(code);
}

static void setup() {
    quiet_log();
    auto& r = SingleInstance<ModuleFactoryRegister>::get_instance();
#define REG(n) { auto f = std::make_shared<n##ModuleFactory>(); r.reg(f->module, f); }
    REG(Root) REG(Http) REG(Server) REG(Host) REG(GlobalHost) REG(Location) REG(Stream) REG(UpStream)
}

// ---------------------------------------------------------------- P14
struct Opt { std::string name, kind, dflt; };    // kind: int str bool
static const std::map<std::string, std::vector<Opt>>& schema() {
    static const std::map<std::string, std::vector<Opt>> m = {
        {"root", {}},
        {"upstream", {{"name", "str", "unknown upstream name"}, {"server", "str", "unknown upstream server"}, {"keepalive", "int", "10"}}},
        {"stream", {{"avformat", "str", "-"}, {"edge", "bool", "on"}, {"pass_proxy", "str", "-"}}},
        {"host", {{"enabled", "bool", "on"}, {"pass_proxy", "str", ""}, {"pass_url", "str", ""}, {"role", "str", "edge"}, {"type", "str", "proxy"},
                  {"edge_avformat", "str", "-"}, {"ssl_key_file", "str", ""}, {"ssl_crt_file", "str", ""}}},
        {"location", {{"enabled", "bool", "on"}, {"pass_proxy", "str", ""}, {"pass_url", "str", ""}, {"role", "str", "edge"}, {"type", "str", "proxy"}, {"edge_avformat", "str", "-"}}},
        {"globalhost", {}},
        {"http", {{"keepalive_timeout", "int", "10"}, {"access_log", "str", "access.log"}}},
        {"server", {{"listen_port", "int", "80"}, {"server_name", "str", ""}, {"transport", "str", "tcp"}, {"recv_timeout", "int", "-1"}, {"send_timeout", "int", "-1"},
                    {"reuse_port", "bool", "off"}, {"backlog", "int", "1024"}, {"ssl_key_file", "str", ""}, {"ssl_crt_file", "str", ""}}},
    };
    return m;
}
static std::vector<std::string> children_of(const std::string& t) {
    if (t == "root") return {"upstream", "globalhost", "http", "location"};
    if (t == "globalhost") return {"host"};
    if (t == "http") return {"server"};
    if (t == "server") return {"host"};
    if (t == "host") return {"upstream", "stream"};
    return {};
}
struct Node {
    std::string type, name;
    std::vector<std::pair<std::string, std::string>> items;   // in order, may repeat, may be unknown
    std::vector<Node> kids;
    std::map<std::string, std::string> values() const {
        std::map<std::string, std::string> v;
        for (auto& o : schema().at(type)) v[o.name] = o.dflt;
        for (auto& i : items) if (v.count(i.first)) v[i.first] = i.second;
        for (auto& o : schema().at(type)) if (std::string(o.kind) == "int") v[o.name] = std::to_string(strtoll(v[o.name].c_str(), nullptr, 10));
        return v;
    }
    std::string str() const {
        std::string s = type + "(" + name + ")[";
        for (auto& i : items) s += i.first + "=" + i.second + ",";
        s += "]{";
        for (auto& k : kids) s += k.str();
        return s + "}";
    }
};
static const char* kWord = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:/~*?=@%$+!<>\"',&()[]|^";
static std::string gen_word(Src& s) {
    std::string w = s.text((size_t) s.skew(1, 12), kWord);
    if (s.chance(1, 10)) w = "a" + s.pick<std::string>({"#b", ";b", "{b", "}b", "#"}) + "c";
    return w;
}
static std::string gen_value(Src& s, const std::string& kind) {
    if (kind == "int") {
        std::string v = std::to_string(s.boolean() ? s.skew(0, 70000) : s.range(-5, 2000000000));
        if (v[0] != '-' && s.chance(1, 12)) v.insert(0, s.pick<std::string>({"0", "00", "+"}));     // decimal all the same
        return v;
    }
    if (kind == "bool") return s.boolean() ? "on" : "off";
    std::string v = gen_word(s);
    while (s.chance(1, 6)) v += " " + gen_word(s);
    return v;
}
static Node gen_node(Src& s, const std::string& type, int depth, bool name) {
    Node n;
    n.type = type;
    if (name) n.name = gen_word(s);
    while (s.more(3) && n.items.size() < 8) {
        auto& os = schema().at(type);
        if (os.empty() || s.chance(1, 10)) n.items.push_back({s.pick<std::string>({"comment", "unknown_item", "worker"}), gen_value(s, "str")});
        else { const Opt& o = s.pick(os); n.items.push_back({o.name, gen_value(s, o.kind)}); }
    }
    auto ch = children_of(type);
    if (!ch.empty() && depth < 5)
        while (s.more(2) && n.kids.size() < 5) {
            std::string t = s.pick(ch);
            n.kids.push_back(gen_node(s, t, depth + 1, t == "host" || s.chance(2, 3)));
        }
    return n;
}
struct Lay { std::vector<std::string> lines; std::vector<int> kind; };  // kind 0 filler, 1 item, 2 open, 3 close
static std::string ws(Src& s) { return s.pick<std::string>({" ", " ", "  ", "\t", "   \t "}); }
static std::string comment(Src& s) {
    std::string c = "#" + s.pick<std::string>({"", " ", " note", "x", " server 1;", " a; b", " } end", " {", "; ; {", " http { more", " # again"});
    return c;
}
static void filler(Src& s, Lay& l) {
    while (s.chance(1, 5)) {
        l.lines.push_back(s.boolean() ? s.pick<std::string>({"", " ", "\t  "}) : s.pick<std::string>({"", "  ", "\t"}) + comment(s));
        l.kind.push_back(0);
    }
}
static void render(Src& s, const Node& n, Lay& l, int depth) {
    std::string ind = s.chance(1, 3) ? s.pick<std::string>({"", "\t", "      "}) : std::string((size_t) std::max(depth, 0) * 4, ' ');
    auto tail = [&]() { return s.chance(1, 6) ? ws(s) + comment(s) : s.chance(1, 8) ? ws(s) : std::string(); };
    if (n.type != "root") {
        std::string ln = ind + n.type + (n.name.empty() ? "" : ws(s) + n.name) + ws(s) + "{";
        if (!n.name.empty() && s.chance(1, 6)) ln = ind + n.type + ws(s) + n.name + "{";
        l.lines.push_back(ln + tail()); l.kind.push_back(2);
    }
    // items and blocks interleaved, each kind in its own order
    size_t i = 0, k = 0;
    while (i < n.items.size() || k < n.kids.size()) {
        filler(s, l);
        if (k >= n.kids.size() || (i < n.items.size() && s.boolean())) {
            std::string v;
            for (char c : n.items[i].second) v += c == ' ' ? ws(s) : std::string(1, c);
            l.lines.push_back(ind + "    " + n.items[i].first + ws(s) + v + (s.chance(1, 5) ? ws(s) : "") + ";" + tail());
            l.kind.push_back(1);
            ++i;
        } else render(s, n.kids[k++], l, depth + 1);
    }
    filler(s, l);
    if (n.type != "root") { l.lines.push_back(ind + "}" + tail()); l.kind.push_back(3); }
}
static std::map<std::string, std::string> actual(const PIModule& m) {
    std::map<std::string, std::string> v;
    auto b = [](bool x) { return std::string(x ? "on" : "off"); };
    auto host = [&](HostConfCtx* h) {
        v["enabled"] = b(h->enabled); v["pass_proxy"] = h->pass_proxy; v["pass_url"] = h->pass_url; v["role"] = h->role; v["type"] = h->type; v["edge_avformat"] = h->edge_avformat;
    };
    if (m->module_type == "upstream") { auto c = static_cast<UpStreamConfCtx*>(m->conf.get()); v["name"] = c->name; v["server"] = c->server; v["keepalive"] = std::to_string(c->keepalive); }
    if (m->module_type == "stream") { auto c = static_cast<StreamConfCtx*>(m->conf.get()); v["avformat"] = c->avformat; v["edge"] = b(c->edge); v["pass_proxy"] = c->pass_proxy; }
    if (m->module_type == "host") { auto c = static_cast<HostConfCtx*>(m->conf.get()); host(c); v["ssl_key_file"] = c->ssl_key_file; v["ssl_crt_file"] = c->ssl_crt_file; }
    if (m->module_type == "location") host(static_cast<LocationConfCtx*>(m->conf.get()));
    if (m->module_type == "http") { auto c = static_cast<HttpConfCtx*>(m->conf.get()); v["keepalive_timeout"] = std::to_string(c->keepalive_timeout); v["access_log"] = c->access_log; }
    if (m->module_type == "server") {
        auto c = static_cast<ServerConfCtx*>(m->conf.get());
        v["listen_port"] = std::to_string(c->listen_port); v["server_name"] = c->server_name; v["transport"] = c->transport;
        v["recv_timeout"] = std::to_string((int64_t) c->recv_timeout); v["send_timeout"] = std::to_string((int64_t) c->send_timeout);
        v["reuse_port"] = b(c->reuse_port); v["backlog"] = std::to_string(c->backlog); v["ssl_key_file"] = c->ssl_key_file; v["ssl_crt_file"] = c->ssl_crt_file;
    }
    return v;
}
static void compare(const Node& n, const PIModule& m) {
    CHECK(m);
    CHECK_EQ(m->module_type, n.type);
    CHECK_MSG(m->module_name == n.name, n.type << " is named '" << m->module_name << "', expected '" << n.name << "'");
    auto want = n.values();
    auto got = actual(m);
    for (auto& w : want) CHECK_MSG(got[w.first] == w.second, n.type << " " << n.name << ": " << w.first << " is '" << got[w.first] << "', expected '" << w.second << "'");
}
static error_t load(const std::string& text, PIModule& root) {
    GlobalHostModule::global_hosts.clear();
    RootModuleFactory f;
    root = f.create("root", "", nullptr);
    // exact-size copy so that reading past the text is seen
    Heap* h = new Heap(text);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) h->p, (int) h->n);
    volatile error_t ret = -12345;
    exit_armed = true;
    if (setjmp(exit_jmp) == 0) ret = root->init_conf(rd);
    else ret = -99999;
    exit_armed = false;
    delete h;
    return ret;
}
static std::vector<const Node*> kids(const Node& n, const std::string& t) {
    std::vector<const Node*> o;
    for (auto& k : n.kids) if (k.type == t) o.push_back(&k);
    return o;
}
static void compare_host(const Node& n, const PHostModule& h) {
    compare(n, h);
    auto up = kids(n, "upstream"), st = kids(n, "stream");
    CHECK_MSG(up.empty() == !h->upstream_module, "upstream block of host");
    if (!up.empty()) compare(*up.back(), h->upstream_module);
    CHECK_MSG(st.empty() == !h->stream_module, "stream block of host");
    if (!st.empty()) compare(*st.back(), h->stream_module);
}
static size_t count(const Node& n) { size_t c = 1; for (auto& k : n.kids) c += count(k); return c; }

// every type of option lands in its own field of the object, and nowhere else
struct AllTypes { uint64_t g0; int i; uint64_t g1; int64_t l; uint64_t g2; uint64_t u; uint64_t g3; double d; uint64_t g4; float f; uint64_t g5; char* cs; uint64_t g6; std::string str; uint64_t g7; bool b; uint8_t g8[7]; };
static void p14_types(Src& s, Ctx& c) {
    const uint64_t G = 0xA5A5A5A5A5A5A5A5ull;
    AllTypes o{G, 0, G, 0, G, 0, G, 0, G, 0, G, nullptr, G, "", G, false, {0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5}};
    struct F { const char* n; ConfigOptionType t; size_t off; };
#define FLD(m, t) {#m, t, (size_t) ((char*) &o.m - (char*) &o)}
    const F fs[] = {FLD(i, CONF_OPT_TYPE_INT), FLD(l, CONF_OPT_TYPE_INT64), FLD(u, CONF_OPT_TYPE_UINT64), FLD(d, CONF_OPT_TYPE_DOUBLE), FLD(f, CONF_OPT_TYPE_FLOAT), FLD(cs, CONF_OPT_TYPE_CSTRING), FLD(str, CONF_OPT_TYPE_STRING), FLD(b, CONF_OPT_TYPE_BOOL)};
    std::map<int, std::string> last;
    int n = 0;
    std::vector<char*> own;
    do {
        int k = (int) s.draw(7);
        std::string v;
        switch (k) {
            case 0: v = std::to_string(s.range(INT32_MIN, INT32_MAX)); break;
            case 1: v = std::to_string(s.boolean() ? s.range(INT64_MIN, INT64_MAX) : s.skew(0, 1000)); break;
            case 2: v = std::to_string(s.skew(0, INT64_MAX)); break;
            case 3: case 4: v = std::to_string(s.range(-100000, 100000)) + "." + std::to_string(s.draw(999)); break;
            case 7: v = s.boolean() ? "on" : "off"; break;
            default: v = gen_value(s, "str");
        }
        if (k < 3 && v[0] != '-' && s.chance(1, 10)) v.insert(0, s.pick<std::string>({"0", "000", "+"}));
        if (k != 7 && s.chance(1, 10)) v = "";
        Heap h(v + std::string(1, '\0'));
        ConfigOption opt{fs[k].n, "", (int) fs[k].off, fs[k].t, {nullptr}};
        c.mix(&k, 4); c.mix(v);
        if (c.want_desc) c.desc << fs[k].n << "=" << pbt::quote(v) << " ";
        CHECK_EQ(opt.opt_set(&o, (const char*) h.p, (int) v.size()), SUCCESS);
        if (k == 5) own.push_back(o.cs);
        last[k] = v;
    } while (s.more(4) && ++n < 20);
    auto has = [&](int k) { return last.count(k) > 0; };
    auto num = [&](int k) { return has(k) ? strtoll(last[k].c_str(), nullptr, 10) : 0ll; };
    CHECK_EQ((long long) o.i, num(0)); CHECK_EQ((long long) o.l, num(1)); CHECK_EQ((long long) o.u, num(2));
    CHECK_EQ(o.d, has(3) ? strtod(last[3].c_str(), nullptr) : 0.0);
    CHECK_EQ(o.f, has(4) ? (float) strtod(last[4].c_str(), nullptr) : 0.0f);
    if (has(5)) CHECK_EQ(std::string(o.cs), last[5]);
    CHECK_EQ(o.str, has(6) ? last[6] : std::string());
    CHECK_EQ(o.b, has(7) && last[7] == "on");
    bool g = o.g0 == G && o.g1 == G && o.g2 == G && o.g3 == G && o.g4 == G && o.g5 == G && o.g6 == G && o.g7 == G;
    for (auto x : o.g8) g = g && x == 0xA5;
    CHECK_MSG(g, "an option changed something beside its field");
    for (auto x : own) delete[] x;
    ConfigOption none{"x", "", 0, CONF_OPT_TYPE_SUBMODULE, {nullptr}}, some{"i", "", 0, CONF_OPT_TYPE_INT, {nullptr}};
    CHECK(none.opt_set(&o, "1", 1) != SUCCESS);
    CHECK(some.opt_set(nullptr, "1", 1) != SUCCESS);
    c.nontrivial = n > 0;
    c.label("types");
}
static void p14(Src& s, Ctx& c) {
    if (s.chance(1, 12)) return p14_types(s, c);
    Node tree = gen_node(s, "root", 0, false);
    Lay l;
    render(s, tree, l, -1);
    int damage = (int) s.weighted({6, 1, 1, 1, 1});
    std::vector<size_t> items, opens, closes;
    for (size_t i = 0; i < l.lines.size(); ++i) (l.kind[i] == 1 ? items : l.kind[i] == 2 ? opens : closes).push_back(i);
    closes.clear(); for (size_t i = 0; i < l.lines.size(); ++i) if (l.kind[i] == 3) closes.push_back(i);
    bool damaged = false;
    auto cut = [&](size_t i, char ch) {   // removes the terminator of line i (comments dropped first)
        std::string& x = l.lines[i];
        size_t h = std::string::npos;
        for (size_t p = 1; p < x.size(); ++p) if (x[p] == '#' && (x[p - 1] == ' ' || x[p - 1] == '\t')) { h = p; break; }
        if (h != std::string::npos) x.resize(h);
        size_t e = x.rfind(ch);
        if (e != std::string::npos) x.erase(e, 1);
    };
    switch (damage) {
        case 1: if (!closes.empty()) { l.lines[s.pick(closes)] = ""; damaged = true; } break;
        case 2: {
            size_t at = (size_t) s.draw(l.lines.size());
            l.lines.insert(l.lines.begin() + (long) at, "}");
            damaged = true;
            break;
        }
        case 3: if (!items.empty()) {
            cut(s.pick(items), ';');
            damaged = true;
        } break;
        case 4: if (!opens.empty()) { cut(s.pick(opens), '{'); damaged = true; } break;
        default: break;
    }
    // a directive sharing the line of a closing brace is not terminated
    if (damage == 0 && !closes.empty() && s.chance(1, 8)) { l.lines[s.pick(closes)] = s.pick<std::string>({"keepalive 80 }", "80}", "role edge }"}); damaged = true; }
    std::string text;
    const char* nl = s.chance(1, 8) ? "\r\n" : "\n";
    for (size_t i = 0; i < l.lines.size(); ++i) text += l.lines[i] + (i + 1 < l.lines.size() || s.boolean() ? nl : "");
    c.mix(text);
    if (c.want_desc) c.desc << (damaged ? "damaged " : "") << pbt::quote(text, 600);
    PIModule root;
    error_t ret = load(text, root);
    if (damaged) {
        CHECK_MSG(ret != SUCCESS, "damaged configuration accepted");
        c.label("damaged-" + std::to_string(damage));
        c.nontrivial = true;
        return;
    }
    CHECK_MSG(ret == SUCCESS, "valid configuration refused: " << ret);
    for (auto& t : {"upstream", "location", "http", "globalhost"}) {
        auto want = kids(tree, t);
        auto& got = root->subs[t];
        CHECK_MSG(got.size() == want.size(), got.size() << " " << t << " blocks, expected " << want.size());
        size_t i = 0;
        for (auto& g : got) compare(*want[i++], g);
    }
    std::vector<const Node*> servers, globals;
    for (auto& h : kids(tree, "http")) for (auto& sv : kids(*h, "server")) servers.push_back(sv);
    for (auto& g : kids(tree, "globalhost")) for (auto& h : kids(*g, "host")) globals.push_back(h);
    std::vector<PServerModule> loaded;
    for (auto& h : root->subs["http"]) { auto hm = std::dynamic_pointer_cast<HttpModule>(h); CHECK(hm); for (auto& m : hm->http_servers) loaded.push_back(m); }
    CHECK_EQ(loaded.size(), servers.size());
    size_t i = 0;
    for (auto& sm : loaded) {
        compare(*servers[i], sm);
        auto hosts = kids(*servers[i], "host");
        CHECK_MSG(sm->host_modules.size() >= hosts.size(), "hosts of server " << i);
        for (size_t j = 0; j < hosts.size(); ++j) compare_host(*hosts[j], sm->host_modules[j]);
        ++i;
    }
    i = 0;
    for (auto& g : root->subs["globalhost"]) {
        auto gm = std::dynamic_pointer_cast<GlobalHostModule>(g);
        CHECK(gm);
        for (auto& h : gm->host_modules) { CHECK(i < globals.size()); compare_host(*globals[i++], h); }
    }
    CHECK_EQ(i, globals.size());
    c.label_if(!servers.empty(), "servers");
    c.label_if(!globals.empty(), "global-hosts");
    c.nontrivial = count(tree) >= 3;
}

// ---------------------------------------------------------------- P15
static std::string label_(Src& s) { return s.pick<std::string>({"a", "b", "www", "c", "x1", "long-label"}); }
static std::string dname(Src& s) {
    std::string n = label_(s);
    while (s.more(2) && n.size() < 40) n += "." + label_(s);
    return n;
}
struct HostSpec { std::string name; std::string key, crt; };
static PHostModule mkhost(const HostSpec& h) {
    std::string t;
    if (!h.key.empty()) t += "ssl_key_file " + h.key + ";\n";
    if (!h.crt.empty()) t += "ssl_crt_file " + h.crt + ";\n";
    t += "}\n";
    HostModuleFactory f;
    auto m = f.create("host", h.name, nullptr);
    auto rd = std::make_shared<MemoryReaderWriter>((char*) t.data(), (int) t.size());
    CHECK(m->init_conf(rd) == SUCCESS);
    return std::dynamic_pointer_cast<HostModule>(m);
}
// reference router
struct RefRouter {
    std::vector<PHostModule> hosts;
    static bool valid(const std::string& n) { return n.empty() || n[0] != '*' || n == "*" || (n.size() > 2 && n[1] == '.'); }
    bool add(const PHostModule& h) {
        if (!valid(h->module_name)) return false;
        for (auto& o : hosts) if (o->module_name == h->module_name) return false;
        hosts.push_back(h);
        return true;
    }
    PHostModule named(const std::string& n) const { for (auto& o : hosts) if (o->module_name == n) return o; return nullptr; }
    PHostModule find(const std::string& n) const {
        if (n.empty() || n[0] != '*') if (auto h = named(n)) return h;
        size_t d = n.find('.');
        if (d != std::string::npos && d + 1 < n.size()) if (auto h = named("*" + n.substr(d))) return h;
        return named("*");
    }
};
static void p15(Src& s, Ctx& c) {
    std::vector<PHostModule> hs;
    size_t n = (size_t) s.skew(0, 10);
    for (size_t i = 0; i < n; ++i) {
        HostSpec h;
        switch (s.weighted({5, 4, 1, 1})) {
            case 0: h.name = dname(s); break;
            case 1: h.name = "*." + dname(s); break;
            case 2: h.name = "*"; break;
            default: h.name = s.pick<std::string>({"*x.com", "*.", "**", "*a", "*-.b"});
        }
        if (s.boolean()) h.key = "k" + std::to_string(i);
        if (s.boolean()) h.crt = "c" + std::to_string(i);
        hs.push_back(mkhost(h));
        c.mix(h.name);
        if (c.want_desc) c.desc << h.name << " ";
    }
    std::vector<std::string> names = {"*", "", "a", "*.a"};
    for (auto& h : hs) {
        const std::string& m = h->module_name;
        names.push_back(m);
        if (m.size() > 2 && m[0] == '*') { names.push_back(label_(s) + m.substr(1)); names.push_back(label_(s) + "." + label_(s) + m.substr(1)); names.push_back(m.substr(2)); }
        else names.push_back("www." + m);
    }
    for (int i = 0; i < 4; ++i) names.push_back(dname(s));
    auto same = [&](HostModulesRouter& r, const RefRouter& ref, const char* what) {
        for (auto& nm : names) {
            if (nm[0] == '*') continue;    // not a name a client can ask for
            auto got = r.find_host(nm), want = ref.find(nm);
            CHECK_MSG(got == want, what << ": '" << nm << "' is served by " << (got ? got->module_name : "none") << ", expected " << (want ? want->module_name : "none"));
            SSLConfig cfg; 
            error_t e = r.search(nm, cfg);
            bool has = want && !want->ssl_key_file().empty() && !want->ssl_cert_file().empty();
            CHECK_MSG((e == SUCCESS) == has, what << ": certificate of '" << nm << "'");
            if (has) CHECK(cfg.key_file == want->ssl_key_file() && cfg.crt_file == want->ssl_cert_file());
        }
    };
    // all in one, in two orders
    HostModulesRouter one; RefRouter ref;
    for (auto& h : hs) {
        bool want = ref.add(h), got = one.register_host(h) == SUCCESS;
        CHECK_MSG(got == want, "registering " << h->module_name << (got ? " accepted" : " refused"));
    }
    same(one, ref, "router");
    auto rev = ref.hosts;
    pbt::Rng rng(s.draw(0xffff));
    for (size_t i = rev.size(); i > 1; --i) std::swap(rev[i - 1], rev[rng.next() % i]);
    HostModulesRouter two;
    for (auto& h : rev) CHECK(two.register_host(h) == SUCCESS);
    same(two, ref, "other order");
    // merged from two sets
    HostModulesRouter a, b; RefRouter ra, rb;
    for (auto& h : hs) {
        if (s.boolean()) { if (ra.add(h)) CHECK(a.register_host(h) == SUCCESS); }
        else if (rb.add(h)) CHECK(b.register_host(h) == SUCCESS);
    }
    bool conflict = false;
    for (auto& h : rb.hosts) if (ra.named(h->module_name)) conflict = true;
    error_t e = a.merge(&b);
    CHECK_MSG((e != SUCCESS) == conflict, "merging " << ra.hosts.size() << " and " << rb.hosts.size() << " hosts returned " << e);
    if (!conflict) { for (auto& h : rb.hosts) ra.add(h); same(a, ra, "merged"); }
    c.label_if(conflict, "merge-conflict");
    c.label_if(ref.hosts.size() < hs.size(), "refused-hosts");
    c.nontrivial = ref.hosts.size() >= 2;
}

int main(int argc, char** argv) {
    pbt::Property a;
    a.id = "P14";
    a.rule = "random trees of upstream, globalhost, http, server, host, stream and location blocks with known, repeated and unknown directives, rendered with random indentation, blank lines and comments, and loaded; or the same text with one brace or terminator removed or added, which must be refused; non-trivial: three or more blocks, or damaged; distinct by text";
    a.body = p14; a.setup = setup; a.quick_cases = 150000; a.thorough_cases = 4000000;
    pbt::Property b;
    b.id = "P15";
    b.rule = "random sets of exact, wildcard, default and invalid host names, registered in two orders and by merging two sets, queried for names near the configured ones and compared with a reference router; non-trivial: two or more hosts accepted; distinct by host list";
    b.body = p15; b.setup = setup; b.quick_cases = 500000; b.thorough_cases = 4000000;
    return pbt::run_main(argc, argv, {a, b});
}
