// PROPERTIES: P02
#include "common.hpp"
#include <sps_io_bytes.hpp>

using namespace sps;

static void reader_case(Src& s, Ctx& c) {
    size_t n = (size_t) s.skew(0, 400);
    Bytes data = s.blob(n);
    bool rewindable = s.boolean();
    size_t cap = (size_t) s.skew(1, 128);
    Frag f = gen_frag(s, 64);
    bool memory = s.chance(1, 6);     // reader over a memory block, no source behind it
    PScriptIO io;
    std::shared_ptr<BytesReader> r;
    std::unique_ptr<Heap> own(new Heap(Bytes(cap, '\xee')));
    std::unique_ptr<Heap> mem;
    if (memory) {
        mem.reset(new Heap(data));
        r = std::shared_ptr<BytesReader>(BytesReader::create_reader(mem->p, (int) mem->n));
        rewindable = false; cap = n;
    } else {
        io = script_io(data, f);
        PAVBuffer b = s.boolean() ? std::make_shared<AVBuffer>(own->p, cap, rewindable) : std::make_shared<AVBuffer>(cap, rewindable);
        r = std::make_shared<BytesReader>(io, b);
    }
    if (c.want_desc) c.desc << "data " << n << "B cap " << cap << " rewind " << rewindable << " mem " << memory << " frag " << f.str() << " ops ";
    size_t at = 0, used = 0, rewinds = 0, ok = 0;   // used: consumed since the window start (not rewindable)
    while (s.more(20)) {
        size_t avail = memory ? n - at : io->taken - at;    // buffered, unread
        CHECK_EQ(r->size(), avail);
        size_t req = (size_t) s.skew(0, (int64_t) std::max<size_t>(cap + 2, 6));
        error_t ret = r->acquire((uint32_t) req);
        // what must happen
        size_t room = rewindable ? cap : cap - (memory ? at : used);   // largest request that can ever fit
        bool fits = req <= room || req <= avail;
        bool exists = req <= n - at;
        if (c.want_desc) c.desc << "acq" << req << (ret == SUCCESS ? "+ " : "- ");
        if (fits && exists) CHECK_MSG(ret == SUCCESS, "acquire(" << req << ") refused with " << ret << " at " << at);
        else { CHECK_MSG(ret != SUCCESS, "acquire(" << req << ") granted at " << at << " of " << n << ", room " << room); }
        if (ret != SUCCESS) {
            if (!fits) { if (memory) continue; CHECK(io->taken - at == avail); continue; }
            if (!exists && !fits) continue;
            // the source ended: what was buffered is still readable
            if (!memory) avail = io->taken - at;
            CHECK_EQ(r->size(), avail);
            continue;
        }
        ++ok;
        CHECK(r->size() >= req);
        CHECK(memcmp(r->pos(), data.data() + at, req) == 0);
        size_t take = req;
        size_t m;
        switch (s.weighted({2, 3, 3, 3, 3, 2})) {
            case 0: { m = (size_t) s.skew(0, (int64_t) take); Heap o(Bytes(m, '\0')); r->read_bytes(o.p, m);
                CHECK(memcmp(o.p, data.data() + at, m) == 0); break; }
            case 1: m = 1; if (take < m) { m = 0; break; } CHECK_EQ((uint64_t) r->read_int8(), rd(data, at, 1)); break;
            case 2: m = 2; if (take < m) { m = 0; break; } CHECK_EQ((uint64_t) r->read_int16(), rd(data, at, 2)); break;
            case 3: m = 3; if (take < m) { m = 0; break; } CHECK_EQ((uint64_t) r->read_int24(), rd(data, at, 3)); break;
            case 4: m = 4; if (take < m) { m = 0; break; } CHECK_EQ((uint64_t) r->read_int32(), rd(data, at, 4)); break;
            default:
                m = (size_t) s.skew(0, (int64_t) take);
                if (s.boolean() && m > 0) {
                    Heap o(Bytes(m, '\0')); r->read_reverse_bytes(o.p + m - 1, m);
                    for (size_t i = 0; i < m; ++i) CHECK(o.p[m - 1 - i] == (uint8_t) data[at + i]);
                } else r->skip_bytes(m);
        }
        at += m; used += m;
        if (rewindable && used > cap) ++rewinds;
    }
    if (!memory) {   // nothing was read ahead beyond the buffer, and what is buffered is the stream
        CHECK(io->taken >= at);
        CHECK(memcmp(r->pos(), data.data() + at, r->size()) == 0);
        CHECK(io->taken - at <= cap);
        for (size_t i = 0; i < 0; ++i) {}
    }
    c.label_if(rewinds > 0, "rewound");
    c.label_if(memory, "memory");
    c.nontrivial = ok >= 3 && at >= 3;
}

static void writer_case(Src& s, Ctx& c) {
    size_t cap = (size_t) s.skew(0, 64);
    Heap h(Bytes(cap, '\xcc'));
    auto w = BytesWriter::create_writer(h.p, (int) cap);
    Bytes want;
    int ops = 0;
    while (s.more(12)) {
        size_t left = cap - want.size();
        CHECK(w->acquire((uint32_t) left) == SUCCESS);
        CHECK(w->acquire((uint32_t) left + 1 + (uint32_t) s.draw(3)) != SUCCESS);
        uint32_t v = (uint32_t) s.draw(UINT32_MAX);
        size_t k = s.range(1, 6);
        if (k <= 4) {
            bool ok = w->acquire((uint32_t) k) == SUCCESS;
            CHECK_EQ(ok, k <= left);
            if (!ok) continue;
            if (k == 1) w->write_int8((uint8_t) v); else if (k == 2) w->write_int16((uint16_t) v); else if (k == 3) w->write_int24(v); else w->write_int32(v);
            want += be(v & (k == 4 ? 0xffffffffu : (1u << (8 * k)) - 1), (int) k);
            if (k == 3 && (v >> 24)) {}
        } else if (k == 5) {
            size_t m = (size_t) s.skew(0, (int64_t) left);
            Bytes b = s.blob(m);
            w->write_bytes((uint8_t*) b.data(), m);
            want += b;
        } else {
            size_t m = (size_t) s.skew(0, (int64_t) left);
            w->skip(m);
            want += Bytes(m, '\xcc');
        }
        ++ops;
        if (c.want_desc) c.desc << "w" << k << " ";
    }
    CHECK_MSG(Bytes((char*) h.p, want.size()) == want, pbt::hex(h.p, want.size()) << " expected " << pbt::hex(want));
    c.nontrivial = ops >= 3;
    c.label("writer");
    // read it back
    auto r = BytesReader::create_reader(h.p, (int) want.size());
    size_t at = 0;
    while (at < want.size()) {
        size_t k = (size_t) s.range(1, 4);
        if (k > want.size() - at) k = 1;
        CHECK(r->acquire((uint32_t) k) == SUCCESS);
        uint64_t g = k == 1 ? r->read_int8() : k == 2 ? r->read_int16() : k == 3 ? r->read_int24() : r->read_int32();
        CHECK_EQ(g, rd(want, at, (int) k));
        at += k;
    }
    CHECK(r->acquire(1) != SUCCESS);
}

int main(int argc, char** argv) {
    pbt::Property p;
    p.id = "P02";
    p.rule = "random acquire/read/skip programs over a fragmented source (or memory), all capacities and rewind modes, and byte-writer programs, against the plain byte string; non-trivial: at least three granted requests consuming three or more bytes, or three writes; distinct by choice sequence";
    p.body = [](Src& s, Ctx& c) { if (s.chance(1, 5)) writer_case(s, c); else reader_case(s, c); for (auto v : s.rec) c.mix(&v, 8); };
    p.setup = quiet_log;
    p.quick_cases = 4000000;
    p.thorough_cases = 40000000;
    return pbt::run_main(argc, argv, {p});
}
