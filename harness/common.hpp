// Shared by the harnesses: quiet logger, scripted readers and writers.
#pragma once
#include <stdarg.h>

#include <list>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"

#include <sps_io.hpp>
#include <sps_log.hpp>
#include <sps_error.hpp>

using pbt::Bytes;
using pbt::Ctx;
using pbt::Src;

// formats every message (so that the arguments are really read, under ASan) and drops it
class DropLog : public sps::ILog {
 public:
    void printf(sps::LOG_LEVEL, const char* fmt, ...) override {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
    }
};
class NullLog : public sps::ILog {
 public:
    void printf(sps::LOG_LEVEL, const char*, ...) override {}
};
inline void quiet_log() { sps::log = new NullLog(); }
inline void format_log() { sps::log = new DropLog(); }

// fragmentation plan: sizes of successive reads, repeating the last one
struct Frag {
    std::vector<size_t> sizes;
    std::string str() const {
        std::string s = "[";
        for (size_t x : sizes) s += std::to_string(x) + " ";
        return s + "...]";
    }
};
inline Frag gen_frag(Src& s, size_t total = 4096) {
    Frag f;
    switch (s.weighted({3, 2, 3, 3})) {
        case 0: f.sizes = {1u << 30}; break;                  // everything at once
        case 1: f.sizes = {1}; break;                          // byte by byte
        case 2: f.sizes = {(size_t) s.range(1, 64)}; break;
        default:
            while (s.more(6)) f.sizes.push_back((size_t) s.skew(1, total ? (int64_t) total : 1));
            if (s.boolean()) f.sizes.push_back((size_t) s.skew(1, 2000)); else f.sizes.push_back(1u << 30);
    }
    return f;
}

// an IReaderWriter over memory whose reads come in pieces; records how much was taken and what was written.
// A read at the end of the data fails with end_err, like a closed connection.
class ScriptIO : public sps::IReaderWriter {
 public:
    ScriptIO(const Bytes& data, const Frag& f, int end_err = ERROR_SOCKET_CLOSED) : in(data), frag(f), end_err(end_err) {}
    void set_recv_timeout(utime_t tm) override { rtm = tm; }
    utime_t get_recv_timeout() override { return rtm; }
    void set_send_timeout(utime_t tm) override { stm = tm; }
    utime_t get_send_timeout() override { return stm; }
    error_t read(void* buf, size_t size, size_t& nread) override {
        ++reads;
        if (size == 0) { nread = 0; return SUCCESS; }
        if (taken >= in.size()) return end_err;
        size_t k = frag.sizes.empty() ? (1u << 30) : frag.sizes[std::min(fi, frag.sizes.size() - 1)];
        ++fi;
        size_t n = std::min(std::min(k, size), in.size() - taken);
        memcpy(buf, in.data() + taken, n);
        taken += n;
        nread = n;
        return SUCCESS;
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread = nullptr) override {
        size_t got = 0;
        while (got < size) {
            size_t n = 0;
            error_t r = read((char*) buf + got, size - got, n);
            if (r != SUCCESS) return r;
            got += n;
        }
        if (nread) *nread = (ssize_t) got;
        return SUCCESS;
    }
    error_t write(void* buf, size_t size) override {
        ++writes;
        if (write_err != 0 && out.size() + size > write_limit) return write_err;
        out.append((const char*) buf, size);
        return SUCCESS;
    }
    size_t left() const { return in.size() - taken; }

    Bytes in;
    Frag frag;
    int end_err;
    size_t taken = 0, fi = 0, reads = 0, writes = 0;
    Bytes out;
    int write_err = 0;
    size_t write_limit = 0;
    utime_t rtm = -1, stm = -1;
};
typedef std::shared_ptr<ScriptIO> PScriptIO;
inline PScriptIO script_io(const Bytes& b, const Frag& f, int end_err = ERROR_SOCKET_CLOSED) {
    return std::make_shared<ScriptIO>(b, f, end_err);
}

// exact-size heap copy, so that ASan sees any access outside it
struct Heap {
    uint8_t* p;
    size_t n;
    explicit Heap(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p, b.data(), n); }
    ~Heap() { delete[] p; }
    Heap(const Heap&) = delete;
};

inline std::string be(uint64_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; --i) s += (char) (v >> (8 * i));
    return s;
}
inline uint64_t rd(const Bytes& b, size_t at, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | (uint8_t) b[at + i];
    return v;
}

// names of streams of which some contain or resemble others
inline std::vector<std::string> name_family(Src& s) {
    std::vector<std::vector<std::string>> f = {{"a", "b.b", "c/c"}, {"a", "b/x", "b/c"}, {"a", "a/a", "aa"}, {"cam", "CAM", "cam/1"}, {"s-1", "s_1", "s1"},
        {"cam.1", "cam.2", "cam"}, {"x", "x.flv", "x.ts"}, {"a.b/c", "a.c/c", "a"}, {"a.b.c", "a.b", "a.b.d"}, {"flv", "flv.flv", "a-flv"},
        {std::string(120, 'n') + "1", std::string(120, 'n') + "2", std::string(120, 'n')}, {"d/" + std::string(70, 'm') + "/x", "d/" + std::string(70, 'm') + "/y", "d/x"}};
    return f[s.draw(f.size() - 1)];
}
