// Coroutine helpers for the harnesses that need the State Threads scheduler.
#pragma once
#include <st.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <memory>

#include "common.hpp"

namespace stn {

inline void init() { st_init(); }
inline double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// a set of coroutines; the first failure is kept. Shared so that a coroutine that never ends keeps its state alive.
struct Group : std::enable_shared_from_this<Group> {
    int live = 0;
    bool failed = false;
    std::string msg;
    st_cond_t cv = st_cond_new();
    ~Group() { st_cond_destroy(cv); }
    struct Arg { std::shared_ptr<Group> g; std::function<void()> f; };
    static void* main(void* p) {
        Arg* a = (Arg*) p;
        std::string m;
        bool bad = true;
        try { a->f(); bad = false; }
        catch (const pbt::Failure& f) { m = f.msg; }
        catch (const std::exception& e) { m = std::string("exception escaped: ") + e.what(); }
        catch (const char* e) { m = std::string("exception escaped: ") + e; }
        catch (...) { m = "exception escaped"; }
        auto g = a->g;
        if (bad && !g->failed) { g->failed = true; g->msg = m; }
        g->live--;
        st_cond_broadcast(g->cv);
        a->f = nullptr;
        a->g = nullptr;
        g = nullptr;
        delete a;
        return nullptr;
    }
    void go(std::function<void()> f, int stack = 1 << 19) {
        live++;
        Arg* a = new Arg{shared_from_this(), std::move(f)};
        if (!st_thread_create(main, a, 0, stack)) { live--; delete a; throw pbt::Failure{"harness: no coroutine"}; }
    }
    // waits for all of them; throws the first failure, or a failure when they do not end in time
    void join(double seconds, const std::string& what) {
        double end = mono() + seconds;
        while (live > 0 && !failed && mono() < end) st_cond_timedwait(cv, 20000);
        if (failed) throw pbt::Failure{msg};
        if (live > 0) throw pbt::Failure{what + ": blocked for " + std::to_string((int) seconds) + " s (" + std::to_string(live) + " coroutines still waiting)"};
    }
};
typedef std::shared_ptr<Group> PGroup;
inline PGroup group() { return std::make_shared<Group>(); }

// one direction of an in-memory connection
struct Pipe {
    Bytes buf;
    size_t off = 0;   // consumed part of buf
    size_t size() const { return buf.size() - off; }
    bool closed = false;
    size_t cap = 0;   // 0: unbounded
    uint64_t total = 0;
    st_cond_t cv = st_cond_new();
    ~Pipe() { st_cond_destroy(cv); }
};
typedef std::shared_ptr<Pipe> PPipe;

// a blocking byte stream over two pipes whose reads come in pieces and whose writes yield between pieces
class PipeIO : public sps::IReaderWriter {
 public:
    PipeIO(PPipe i, PPipe o, const Frag& rf, const Frag& wf) : in(i), out(o), rf(rf), wf(wf) {}
    ~PipeIO() { out->closed = true; st_cond_broadcast(out->cv); }
    void set_recv_timeout(utime_t tm) override { rtm = tm; }
    utime_t get_recv_timeout() override { return rtm; }
    void set_send_timeout(utime_t tm) override { stm = tm; }
    utime_t get_send_timeout() override { return stm; }
    error_t read(void* p, size_t size, size_t& nread) override {
        if (size == 0) return ERROR_IO_BUFFER_FULL;
        while (in->size() == 0) {
            if (in->closed) return ERROR_SOCKET_CLOSED;
            if (st_cond_timedwait(in->cv, rtm) != 0 && rtm != (utime_t) -1) return ERROR_SOCKET_TIMEOUT;
        }
        size_t k = rf.sizes.empty() ? (1u << 30) : rf.sizes[std::min(ri++, rf.sizes.size() - 1)];
        size_t n = std::min(std::min(k, size), in->size());
        memcpy(p, in->buf.data() + in->off, n);
        in->off += n;
        if (in->off > 65536 || in->off == in->buf.size()) { in->buf.erase(0, in->off); in->off = 0; }
        st_cond_broadcast(in->cv);
        nread = n;
        return SUCCESS;
    }
    error_t read_fully(void* p, size_t size, ssize_t* nread = nullptr) override {
        size_t got = 0;
        while (got < size) {
            size_t n = 0;
            error_t r = read((char*) p + got, size - got, n);
            if (r != SUCCESS) return r;
            got += n;
        }
        if (nread) *nread = got;
        return SUCCESS;
    }
    error_t write(void* p, size_t size) override {
        if (size == 0) return ERROR_SOCKET_WRITE;
        size_t at = 0;
        while (at < size) {
            if (out->closed) return ERROR_SOCKET_WRITE;
            if (out->cap && out->size() >= out->cap) { st_cond_wait(out->cv); continue; }
            size_t k = wf.sizes.empty() ? (1u << 30) : wf.sizes[std::min(wi++, wf.sizes.size() - 1)];
            size_t n = std::min(std::min(k, size - at), out->cap ? out->cap - out->size() : size);
            Bytes b((const char*) p + at, n);
            for (size_t i = 0; i < n; ++i, ++out->total)
                if (damage_at != UINT64_MAX && out->total == damage_at) b[i] ^= damage_bits;
            out->buf += b;
            at += n;
            ++activity;
            st_cond_broadcast(out->cv);
            if (at < size && (++pieces < 200 || pieces % 64 == 0)) st_usleep(0);
        }
        return SUCCESS;
    }
    PPipe in, out;
    Frag rf, wf;
    static inline uint64_t activity = 0;   // pieces written by anyone
    size_t ri = 0, wi = 0;
    size_t pieces = 0;
    uint64_t damage_at = UINT64_MAX;
    uint8_t damage_bits = 1;
    utime_t rtm = -1, stm = -1;
};
typedef std::shared_ptr<PipeIO> PPipeIO;

// a file that exists only in memory, for code that wants a path
inline std::string mem_file(const char* name, const std::string& content) {
    int fd = memfd_create(name, 0);
    if (fd < 0 || ::write(fd, content.data(), content.size()) != (ssize_t) content.size()) abort();
    return "/proc/self/fd/" + std::to_string(fd);
}

// a plan for one direction of traffic, and its execution
struct ReadOp { bool full; size_t size; };
struct Dir {                         // one direction of traffic
    std::vector<Bytes> writes;
    std::vector<ReadOp> reads;       // the last one repeats
    Bytes all() const { Bytes b; for (auto& w : writes) b += w; return b; }
};
inline Dir gen_dir(Src& s, bool may_be_empty) {
    Dir d;
    if (!may_be_empty || s.chance(3, 4))
        do {
            size_t n = s.chance(1, 8) ? s.range(16000, 17000) : s.chance(1, 12) ? s.range(17000, 70000) : s.skew(1, 3000);
            d.writes.push_back(s.blob(n));
        } while (s.more(4));
    do {
        ReadOp r;
        r.full = s.boolean();
        r.size = s.chance(1, 6) ? s.range(2000, 40000) : s.skew(1, 2000);
        d.reads.push_back(r);
    } while (s.more(3));
    return d;
}
inline std::string show(const Dir& d) {
    std::string o = "writes";
    for (auto& w : d.writes) o += " " + std::to_string(w.size());
    o += " reads";
    for (auto& r : d.reads) o += (r.full ? " full:" : " ") + std::to_string(r.size);
    return o;
}

inline void do_writes(sps::PIReaderWriter x, const Dir& d, size_t from, size_t to, const std::string& who) {
    for (size_t i = from; i < to; ++i) {
        Heap h(d.writes[i]);
        error_t e = x->write(h.p, h.n);
        CHECK_MSG(e == SUCCESS, who << ": write of " << h.n << " bytes failed with " << e);
        CHECK_MSG(memcmp(h.p, d.writes[i].data(), h.n) == 0, who << ": write changed the caller's data");
    }
}
// reads until `want` bytes of `expect` from `at` are in (or an error, when allowed)
inline error_t do_reads(sps::PIReaderWriter x, const Dir& d, const Bytes& expect, size_t& at, size_t to, size_t& op, bool may_fail, const std::string& who) {
    while (at < to) {
        ReadOp r = d.reads[std::min(op++, d.reads.size() - 1)];
        size_t size = r.full ? std::min(r.size, to - at) : r.size;
        Heap h(Bytes(size, (char) 0xA5));
        error_t e;
        size_t got = 0;
        if (r.full) {
            ssize_t n = -7;
            e = x->read_fully(h.p, size, &n);
            if (e == SUCCESS) { CHECK_MSG(n == (ssize_t) size, who << ": exact read of " << size << " reports " << n); got = size; }
        } else {
            e = x->read(h.p, size, got);
            if (e == SUCCESS) CHECK_MSG(got >= 1 && got <= size, who << ": read of " << size << " returned " << got);
        }
        if (e != SUCCESS) {
            CHECK_MSG(may_fail, who << ": read of " << size << " at byte " << at << " failed with " << e);
            return e;
        }
        CHECK_MSG(at + got <= expect.size(), who << ": " << at + got << " bytes read, only " << expect.size() << " sent");
        if (memcmp(h.p, expect.data() + at, got)) {
            size_t k = 0; while ((char) h.p[k] == expect[at + k]) ++k;
            pbt::fail(who + ": byte " + std::to_string(at + k) + " of the stream differs (read of " + std::to_string(size) + (r.full ? " exact" : "") + ")");
        }
        at += got;
    }
    return SUCCESS;
}

}  // namespace stn
