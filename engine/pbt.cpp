#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <map>
#include <set>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "max_malloc_fill_size=4194304:malloc_fill_byte=190:handle_abort=0:detect_container_overflow=0:"
           "max_allocation_size_mb=2048:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }

namespace pbt {

uint64_t* Src::sink = nullptr;
size_t Src::sink_cap = 0;

std::string hex(const void* p, size_t n, size_t limit) {
    static const char* d = "0123456789abcdef";
    std::string o;
    const uint8_t* c = (const uint8_t*) p;
    for (size_t i = 0; i < n && i < limit; ++i) { o += d[c[i] >> 4]; o += d[c[i] & 15]; }
    if (n > limit) o += "...(" + std::to_string(n) + " bytes)";
    return o;
}
std::string quote(const std::string& s, size_t limit) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < limit; ++i) {
        unsigned char c = s[i];
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char) c;
    }
    o += "\"";
    if (s.size() > limit) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}

namespace {

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

enum Status { ST_PASS = 0, ST_FAIL = 1, ST_DISCARD = 2, ST_CRASH = 3, ST_HANG = 4 };

struct Slot {                       // one per worker, shared with the parent
    volatile int64_t current;       // case being executed, -1 none
    volatile int64_t done;
    volatile int64_t failed;        // failing case, -1 none
    volatile int finished;
    char msg[2048];
};

struct Agg {                        // written to a file by each worker
    int64_t evaluations = 0, discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, int64_t> labels;
    std::vector<std::pair<int64_t, std::string>> samples;
};

uint64_t case_seed(uint64_t seed, int64_t idx) {
    Rng a(seed ^ 0x5bd1e995), b(idx + 77);
    return a.next() * 31 + b.next();
}

// runs the body once in this process
Status run_body(const Property& p, Src& s, Ctx& c, std::string& msg) {
    try {
        p.body(s, c);
        return ST_PASS;
    } catch (const Failure& f) { msg = f.msg; return ST_FAIL; }
    catch (const Discard&) { return ST_DISCARD; }
    catch (const std::exception& e) { msg = std::string("exception escaped: ") + e.what(); return ST_FAIL; }
    catch (const char* e) { msg = std::string("exception escaped: ") + e; return ST_FAIL; }
    catch (...) { msg = "exception escaped"; return ST_FAIL; }
}

void silence(const std::string& errfile) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); close(n);
    int e = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    if (e >= 0) { dup2(e, 2); close(e); }
    signal(SIGPIPE, SIG_IGN);
}

std::string tail_of(const std::string& file) {
    FILE* f = fopen(file.c_str(), "rb");
    if (!f) return "";
    std::string s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 200000) s.append(b, n);
    fclose(f);
    size_t k = s.find("ERROR: AddressSanitizer");
    if (k == std::string::npos) k = s.find("runtime error");
    if (k == std::string::npos) k = s.find("Assertion");
    if (k == std::string::npos) return s.size() > 800 ? s.substr(s.size() - 800) : s;
    return s.substr(k, 1500);
}

std::string g_dir;   // scratch directory

void arm(const Property& p) {
    struct itimerval tv; memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = (long) p.case_timeout;
    tv.it_value.tv_usec = (long) ((p.case_timeout - (long) p.case_timeout) * 1e6);
    setitimer(p.cpu_clock ? ITIMER_VIRTUAL : ITIMER_REAL, &tv, nullptr);
}
void on_alarm(int) { _exit(98); }

// runs one choice sequence in a fresh child; returns status, message and the normalised choices
struct Outcome { Status st = ST_PASS; std::string msg; std::vector<uint64_t> rec; std::string desc; };

Outcome run_isolated(const Property& p, int tier, const std::vector<uint64_t>* choices, uint64_t seed, bool want_desc) {
    Outcome o;
    const size_t kSink = 200000;
    size_t cap = (kSink + 8) * 8 + (1 << 16);
    char* shm = (char*) mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static int n = 0;
    std::string err = g_dir + "/iso." + std::to_string(getpid()) + "." + std::to_string(n++);
    pid_t pid = fork();
    if (pid == 0) {
        silence(err);
        signal(SIGVTALRM, on_alarm); signal(SIGALRM, on_alarm);
        if (p.setup) p.setup();
        // layout: status, message length, description length, choices[kSink + 1], text
        uint64_t* h = (uint64_t*) shm;
        Src::sink = h + 3; Src::sink_cap = kSink;
        Src s = choices ? Src(*choices, tier) : Src(seed, tier);
        Ctx c; c.want_desc = want_desc;
        std::string msg;
        arm(p);
        Status st = run_body(p, s, c, msg);
        char* q = (char*) (h + 4 + kSink);
        std::string d = c.desc.str();
        h[1] = std::min<size_t>(msg.size(), 4000); memcpy(q, msg.data(), h[1]); q += h[1];
        h[2] = std::min<size_t>(d.size(), 40000); memcpy(q, d.data(), h[2]);
        h[0] = st + 1;
        _exit(0);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    uint64_t* h = (uint64_t*) shm;
    o.rec.assign(h + 4, h + 4 + h[3]);
    if (h[0]) {
        o.st = (Status) (h[0] - 1);
        char* q = (char*) (h + 4 + kSink);
        o.msg.assign(q, h[1]); q += h[1];
        o.desc.assign(q, h[2]);
    } else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 98) {
        o.st = ST_HANG; o.msg = "case did not terminate";
    } else {
        o.st = ST_CRASH;
        std::ostringstream m;
        m << "process died: ";
        if (WIFSIGNALED(ws)) m << "signal " << WTERMSIG(ws); else m << "exit " << WEXITSTATUS(ws);
        m << "\n" << tail_of(err);
        o.msg = m.str();
    }
    munmap(shm, cap);
    unlink(err.c_str());
    return o;
}

bool bad(Status s) { return s == ST_FAIL || s == ST_CRASH || s == ST_HANG; }

// runs a stretch of consecutive cases of one worker in a fresh child; for failures that need what earlier cases left behind
Outcome run_history(const Property& p, int tier, uint64_t seed, int64_t first, int64_t last, int64_t step) {
    Outcome o;
    size_t cap = 1 << 16;
    char* shm = (char*) mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static int n = 0;
    std::string err = g_dir + "/his." + std::to_string(getpid()) + "." + std::to_string(n++);
    pid_t pid = fork();
    if (pid == 0) {
        silence(err);
        signal(SIGVTALRM, on_alarm); signal(SIGALRM, on_alarm);
        if (p.setup) p.setup();
        uint64_t* h = (uint64_t*) shm;
        for (int64_t i = first; i <= last; i += step) {
            Src s(case_seed(seed, i), tier);
            Ctx c; c.want_desc = i == last;
            std::string msg;
            arm(p);
            Status st = run_body(p, s, c, msg);
            if (i == last || bad(st)) {
                char* q = (char*) (h + 4);
                std::string d = c.desc.str();
                h[1] = std::min<size_t>(msg.size(), 4000); memcpy(q, msg.data(), h[1]); q += h[1];
                h[2] = std::min<size_t>(d.size(), 20000); memcpy(q, d.data(), h[2]);
                h[0] = st + 1;
                _exit(0);
            }
        }
        h[0] = ST_PASS + 1;
        _exit(0);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    uint64_t* h = (uint64_t*) shm;
    if (h[0]) {
        o.st = (Status) (h[0] - 1);
        char* q = (char*) (h + 4);
        o.msg.assign(q, h[1]); q += h[1];
        o.desc.assign(q, h[2]);
    } else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 98) { o.st = ST_HANG; o.msg = "case did not terminate"; }
    else { o.st = ST_CRASH; o.msg = "process died\n" + tail_of(err); }
    munmap(shm, cap);
    unlink(err.c_str());
    return o;
}
std::vector<uint64_t> shrink(const Property& p, int tier, std::vector<uint64_t> best, Outcome& last, double budget) {
    double end = now() + budget;
    int runs = 0;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (now() > end || runs > 4000) return false;
        ++runs;
        Outcome o = run_isolated(p, tier, &c, 0, false);
        if (!bad(o.st)) return false;
        // keep the kind of failure
        if ((o.st == ST_HANG) != (last.st == ST_HANG)) return false;
        std::vector<uint64_t> r = o.rec.empty() ? c : o.rec;
        while (!r.empty() && r.back() == 0) r.pop_back();
        if (r.size() > c.size()) r = c;
        bool smaller = r.size() < best.size() || (r.size() == best.size() && r < best);
        if (!smaller) return false;
        best = r; last = o;
        return true;
    };
    // drop an unused tail first (binary search)
    {
        size_t lo = 0, hi = best.size();
        while (lo < hi && now() < end) {
            size_t mid = (lo + hi) / 2;
            std::vector<uint64_t> c(best.begin(), best.begin() + std::min(mid, best.size()));
            if (attempt(c)) hi = std::min(mid, best.size()); else lo = mid + 1;
        }
    }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
            for (size_t i = best.size(); i-- > 0;) {
                if (i + k > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true;
                if (now() > end) break;
            }
            if (k == 1) break;
        }
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= best.size(); i += k) {
                bool z = true;
                for (size_t j = i; j < i + k; ++j) z = z && best[j] == 0;
                if (z) continue;
                std::vector<uint64_t> c = best;
                std::fill(c.begin() + i, c.begin() + i + k, 0);
                if (attempt(c)) progress = true;
                if (now() > end) break;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (lo < hi && now() < end && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c = best;
                c[i] = mid;
                size_t before = best.size();
                if (attempt(c)) { progress = true; hi = mid; if (best.size() != before) break; } else lo = mid + 1;
            }
        }
    }
    return best;
}

void write_agg(const std::string& f, const Agg& a) {
    FILE* o = fopen(f.c_str(), "wb");
    fprintf(o, "%ld %ld %zu %zu %zu\n", (long) a.evaluations, (long) a.discards, a.distinct.size(), a.labels.size(), a.samples.size());
    for (uint64_t d : a.distinct) fwrite(&d, 8, 1, o);
    for (auto& l : a.labels) { size_t n = l.first.size(); fwrite(&n, 8, 1, o); fwrite(l.first.data(), 1, n, o); fwrite(&l.second, 8, 1, o); }
    for (auto& s : a.samples) { size_t n = s.second.size(); fwrite(&s.first, 8, 1, o); fwrite(&n, 8, 1, o); fwrite(s.second.data(), 1, n, o); }
    fclose(o);
}
void read_agg(const std::string& f, Agg& a) {
    FILE* o = fopen(f.c_str(), "rb");
    if (!o) return;
    long e, d; size_t nd, nl, ns;
    if (fscanf(o, "%ld %ld %zu %zu %zu", &e, &d, &nd, &nl, &ns) == 5) {
        fgetc(o);
        a.evaluations += e; a.discards += d;
        uint64_t v; size_t n; int64_t k;
        for (size_t i = 0; i < nd; ++i) if (fread(&v, 8, 1, o) == 1) a.distinct.insert(v);
        for (size_t i = 0; i < nl; ++i) {
            if (fread(&n, 8, 1, o) != 1) break;
            std::string s(n, 0); if (fread(&s[0], 1, n, o) != n || fread(&k, 8, 1, o) != 1) break;
            a.labels[s] += k;
        }
        for (size_t i = 0; i < ns; ++i) {
            if (fread(&k, 8, 1, o) != 1 || fread(&n, 8, 1, o) != 1) break;
            std::string s(n, 0); if (fread(&s[0], 1, n, o) != n) break;
            a.samples.push_back({k, s});
        }
    }
    fclose(o);
}

void worker(const Property& p, int tier, uint64_t seed, int w, int nw, int64_t first, int64_t total, double deadline, Slot* slot, const std::string& aggf) {
    silence(g_dir + "/err." + std::to_string(w));
    signal(SIGVTALRM, on_alarm); signal(SIGALRM, on_alarm);
    if (p.setup) p.setup();
    Agg a;
    int64_t nsample = 0;
    for (int64_t i = first; i < total; i += nw) {
        if (now() > deadline) break;
        slot->current = i;
        Src s(case_seed(seed, i), tier);
        Ctx c;
        c.want_desc = nsample < 6 || (i % 997) == 0;
        std::string msg;
        arm(p);
        Status st = run_body(p, s, c, msg);
        if (st == ST_FAIL) {
            strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
            slot->failed = i;
            write_agg(aggf, a);
            slot->finished = 1;
            _exit(0);
        }
        a.evaluations++;
        if (st == ST_DISCARD) { a.discards++; }
        else {
            for (auto& l : c.labels) a.labels[l]++;
            if (c.nontrivial) {
                uint64_t d = c.digest;
                if (a.distinct.size() < 2000000) a.distinct.insert(d);
                if (nsample < 6 && c.want_desc) { a.samples.push_back({i, c.desc.str().substr(0, 1500)}); ++nsample; }
            }
        }
        slot->done = slot->done + 1;
    }
    slot->current = -1;
    write_agg(aggf, a);
    slot->finished = 1;
    _exit(0);
}

std::string read_file(const std::string& f) {
    FILE* o = fopen(f.c_str(), "rb"); if (!o) return "";
    std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, o)) > 0) s.append(b, n);
    fclose(o); return s;
}

int usage() { fprintf(stderr, "usage: harness --prop ID [--tier quick|thorough] [--seed N] [--cases N] [--seconds S] [--workers N] [--shrink S] [--out FILE] [--replays DIR] | --replay FILE [--show]\n"); return 2; }

}  // namespace

const std::string& scratch() { return g_dir; }

int run_main(int argc, char** argv, std::vector<Property> props) {
    std::map<std::string, std::string> a;
    bool show = false;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k == "--show") { show = true; continue; }
        if (i + 1 >= argc) return usage();
        a[k] = argv[++i];
    }
    const Property* p = &props[0];
    if (a.count("--prop")) { p = nullptr; for (auto& q : props) if (q.id == a["--prop"]) p = &q; }
    if (!p) return usage();
    int tier = a["--tier"] == "thorough" ? 1 : 0;
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    int nw = a.count("--workers") ? atoi(a["--workers"].c_str()) : (int) sysconf(_SC_NPROCESSORS_ONLN);
    nw = std::max(1, std::min(nw, p->max_workers));
    int64_t total = a.count("--cases") ? atoll(a["--cases"].c_str()) : (tier ? p->thorough_cases : p->quick_cases);
    double seconds = a.count("--seconds") ? atof(a["--seconds"].c_str()) : (tier ? 1500 : 240);
    std::string out = a["--out"], rdir = a.count("--replays") ? a["--replays"] : "replays";

    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    g_dir = tmpl;
    auto cleanup = [&]() { std::string c = "rm -rf " + g_dir; if (system(c.c_str())) {} };

    if (a.count("--replay")) {
        std::string t = read_file(a["--replay"]);
        std::vector<uint64_t> ch;
        std::vector<int64_t> his;
        uint64_t rseed = 1;
        std::istringstream is(t);
        std::string line;
        while (std::getline(is, line)) {
            if (line.compare(0, 5, "tier ") == 0) tier = atoi(line.c_str() + 5);
            if (line.compare(0, 5, "seed ") == 0) rseed = strtoull(line.c_str() + 5, 0, 10);
            if (line.compare(0, 8, "history ") == 0) { std::istringstream l(line.substr(8)); int64_t v; while (l >> v) his.push_back(v); }
            if (line.compare(0, 8, "choices ") == 0) {
                std::istringstream l(line.substr(8)); uint64_t v; while (l >> v) ch.push_back(v);
            }
        }
        Outcome o = his.size() == 3 ? run_history(*p, tier, rseed, his[0], his[1], his[2]) : run_isolated(*p, tier, &ch, 0, true);
        printf("replay %s: %s\n", p->id.c_str(), o.st == ST_PASS ? "pass" : o.st == ST_DISCARD ? "discard" : "FAIL");
        if (!o.msg.empty()) printf("%s\n", o.msg.c_str());
        if (show) printf("case: %s\n", o.desc.c_str());
        cleanup();
        return bad(o.st) ? 1 : 0;
    }

    double t0 = now();
    double deadline = t0 + seconds;
    Slot* slots = (Slot*) mmap(nullptr, sizeof(Slot) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(nw);
    std::vector<std::string> aggs;
    std::vector<int64_t> unconfirmed;
    int gen = 0;
    std::vector<int64_t> starts(nw);
    auto launch = [&](int w, int64_t first) {
        starts[w] = first;
        memset(&slots[w], 0, sizeof(Slot));
        slots[w].current = -1; slots[w].failed = -1;
        std::string f = g_dir + "/agg." + std::to_string(w) + "." + std::to_string(gen++);
        aggs.push_back(f);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { worker(*p, tier, seed, w, nw, first, total, deadline, &slots[w], f); _exit(0); }
        pids[w] = pid;
    };
    for (int w = 0; w < nw; ++w) launch(w, w);
    bool violated = false;
    std::string vmsg, vdesc, replay;
    std::vector<uint64_t> vch;
    int alive = nw;
    int histories = 0;
    std::vector<int64_t> history;
    int64_t lost = 0;
    while (alive > 0 && !violated) {
        int ws = 0;
        pid_t pid = wait(&ws);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        int w = -1;
        for (int i = 0; i < nw; ++i) if (pids[i] == pid) w = i;
        if (w < 0) continue;
        pids[w] = -1;
        if (slots[w].finished && slots[w].failed < 0) { --alive; continue; }
        // failure or crash
        int64_t idx = slots[w].failed >= 0 ? slots[w].failed : slots[w].current;
        std::string first_msg = slots[w].failed >= 0 ? slots[w].msg : tail_of(g_dir + "/err." + std::to_string(w));
        if (idx < 0) { // died outside a case
            fprintf(stderr, "worker died outside a case: %s\n", first_msg.c_str());
            for (int i = 0; i < nw; ++i) if (pids[i] > 0) { kill(pids[i], SIGKILL); waitpid(pids[i], &ws, 0); }
            cleanup();
            return 3;
        }
        lost += slots[w].done;
        std::vector<uint64_t> ch;
        double iso = now();
        Outcome o = run_isolated(*p, tier, nullptr, case_seed(seed, idx), false);
        iso = now() - iso;
        int confirm = iso > 15 ? 1 : 3;      // a case that fails by blocking is slow to repeat
        if (bad(o.st)) {
            ch = o.rec;
            int again = 0;
            Outcome o2;
            for (int k = 0; k < confirm; ++k) { o2 = run_isolated(*p, tier, &ch, 0, false); again += bad(o2.st); }
            if (again == confirm) {
                // stop the others, shrink, confirm
                for (int i = 0; i < nw; ++i) if (pids[i] > 0) { kill(pids[i], SIGKILL); }
                for (int i = 0; i < nw; ++i) if (pids[i] > 0) { waitpid(pids[i], &ws, 0); pids[i] = -1; }
                Outcome last = o2;
                std::vector<uint64_t> best = shrink(*p, tier, ch, last, a.count("--shrink") ? atof(a["--shrink"].c_str()) : iso > 60 ? 1 : o2.st == ST_HANG ? 60 : 45);
                int ok = 0; Outcome fin;
                for (int k = 0; k < confirm; ++k) { fin = run_isolated(*p, tier, &best, 0, true); ok += bad(fin.st); }
                if (ok < confirm) { best = ch; fin = run_isolated(*p, tier, &best, 0, true); }
                violated = true; vch = best; vmsg = fin.msg; vdesc = fin.desc;
                if (vmsg.empty()) vmsg = first_msg;
                break;
            }
        }
        // not reproducible alone: does it reproduce with the cases this worker ran before it?
        if (histories < 4) {
            ++histories;
            int64_t from = starts[w];
            if (bad(run_history(*p, tier, seed, from, idx, nw).st)) {
                int64_t lo = 0, hi = (idx - from) / nw;   // latest start that still fails
                double hend = now() + 60;
                while (lo < hi && now() < hend) {
                    int64_t mid = (lo + hi + 1) / 2;
                    if (bad(run_history(*p, tier, seed, from + mid * nw, idx, nw).st)) lo = mid; else hi = mid - 1;
                }
                int ok = 0; Outcome fin;
                for (int k = 0; k < 2; ++k) { Outcome f = run_history(*p, tier, seed, from + lo * nw, idx, nw); if (bad(f.st)) { ++ok; fin = f; } }
                if (ok == 2) {
                    for (int i = 0; i < nw; ++i) if (pids[i] > 0) { kill(pids[i], SIGKILL); waitpid(pids[i], &ws, 0); pids[i] = -1; }
                    violated = true; vmsg = fin.msg; vdesc = fin.desc;
                    history = {from + lo * nw, idx, nw};
                    break;
                }
            }
        }
        // neither: note it and carry on behind it
        fprintf(stderr, "unconfirmed failure at case %ld: %s\n", (long) idx, first_msg.c_str());
        unconfirmed.push_back(idx);
        if (unconfirmed.size() > 20) { --alive; continue; }
        launch(w, idx + nw);
    }
    Agg agg;
    for (auto& f : aggs) read_agg(f, agg);
    double wall = now() - t0;
    if (violated) {
        mkdir(rdir.c_str(), 0755);
        replay = rdir + "/" + p->id + "-" + std::to_string(seed) + ".replay";
        FILE* f = fopen(replay.c_str(), "wb");
        if (f) {
            fprintf(f, "property %s\ntier %d\nseed %lu\nchoices", p->id.c_str(), tier, (unsigned long) seed);
            for (uint64_t v : vch) fprintf(f, " %lu", (unsigned long) v);
            if (!history.empty()) fprintf(f, "\nhistory %ld %ld %ld", (long) history[0], (long) history[1], (long) history[2]);
            fprintf(f, "\n# %zu choices\n# message:\n", vch.size());
            std::istringstream is(vmsg + "\ncase: " + vdesc); std::string l;
            while (std::getline(is, l)) fprintf(f, "#   %s\n", l.c_str());
            fclose(f);
        }
    }
    std::ostringstream j;
    j << "{\"evaluations\": " << agg.evaluations << ", \"distinct_nontrivial\": " << agg.distinct.size()
      << ", \"discarded\": " << agg.discards << ", \"planned\": " << total << ", \"unconfirmed\": " << unconfirmed.size()
      << ", \"rule\": " << json_str(p->rule) << ", \"classes\": {";
    bool firstl = true;
    for (auto& l : agg.labels) { j << (firstl ? "" : ", ") << json_str(l.first) << ": " << l.second; firstl = false; }
    j << "}, \"samples\": [";
    std::sort(agg.samples.begin(), agg.samples.end());
    for (size_t i = 0; i < agg.samples.size() && i < 12; ++i) j << (i ? ", " : "") << json_str(agg.samples[i].second);
    j << "], \"wall_s\": " << wall << ", \"assumptions\": [";
    for (size_t i = 0; i < p->assumptions.size(); ++i) j << (i ? ", " : "") << json_str(p->assumptions[i]);
    j << "], \"violated\": " << (violated ? "true" : "false") << ", \"message\": " << json_str(vmsg) << ", \"case\": " << json_str(vdesc)
      << ", \"replay\": " << json_str(replay) << "}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "wb"); if (f) { fputs(j.str().c_str(), f); fclose(f); } }
    else fputs(j.str().c_str(), stdout);
    cleanup();
    return violated ? 1 : 0;
}

}  // namespace pbt
