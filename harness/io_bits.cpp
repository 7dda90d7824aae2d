// PROPERTIES: P01
#include "common.hpp"
#include <sps_io_bits.hpp>

using sps::BitContext;

// reference: a vector of bits
struct Ref {
    std::vector<uint8_t> bits;
    void put(uint64_t v, size_t n) { for (size_t i = n; i-- > 0;) bits.push_back(i < 64 ? (v >> i) & 1 : 0); }
    Bytes bytes() const {
        Bytes b((bits.size() + 7) / 8, '\0');
        for (size_t i = 0; i < bits.size(); ++i) if (bits[i]) b[i / 8] |= (char) (0x80 >> (i % 8));
        return b;
    }
};

static void write_phase(Src& s, Ctx& c, Bytes& result) {
    size_t cap = (size_t) s.skew(1, 80);
    // garbage in the target: writing must not depend on it
    Bytes init = s.blob(cap);
    Heap h(init);
    BitContext bc(h.p, h.n);
    Ref ref;
    size_t ops = 0;
    while (s.more(14)) {
        size_t left = cap * 8 - ref.bits.size();
        CHECK_EQ(bc.size_bits(), left);
        CHECK_EQ(bc.size(), left / 8);
        CHECK((bc.pos() == h.p + ref.bits.size() / 8));
        size_t k = s.weighted({8, 2, 2, 2, 2, 2, 1});
        uint64_t raw = s.boolean() ? s.draw(UINT64_MAX) : UINT64_MAX;
        size_t n = 0;
        switch (k) {
            case 0: {
                n = s.chance(1, 6) ? (size_t) s.range(33, 64) : (size_t) s.range(1, 32);
                if (n > left) { CHECK(bc.acquire_bits(n) != SUCCESS); break; }
                CHECK(bc.acquire_bits(n) == SUCCESS);
                bool dirty = s.boolean();   // high bits beyond the width must be ignored
                uint64_t v = n == 64 || dirty ? raw : raw & ((1ull << n) - 1);
                bc.write_bits(v, n);
                ref.put(v, n);
                if (c.want_desc) c.desc << "w" << n << ":" << std::hex << v << std::dec << " ";
                break;
            }
            case 1: case 2: case 3: case 4: {
                n = k;  // bytes
                if (n * 8 > left) { CHECK(bc.acquire((uint32_t) n) != SUCCESS); break; }
                CHECK(bc.acquire((uint32_t) n) == SUCCESS);
                uint32_t v = (uint32_t) raw;
                if (k == 1) bc.write_int8(v); else if (k == 2) bc.write_int16(v); else if (k == 3) bc.write_int24(v); else bc.write_int32(v);
                ref.put(v, n * 8);
                if (c.want_desc) c.desc << "i" << n * 8 << ":" << std::hex << v << std::dec << " ";
                break;
            }
            case 5: {
                if (ref.bits.size() % 8) break;   // byte runs need byte alignment
                n = (size_t) s.skew(0, (int64_t) left / 8);
                Bytes b = s.blob(n);
                bc.write_bytes((uint8_t*) b.data(), n);
                for (char ch : b) ref.put((uint8_t) ch, 8);
                if (c.want_desc) c.desc << "b" << n << " ";
                break;
            }
            default: {
                if (ref.bits.size() % 8) break;
                n = (size_t) s.skew(0, (int64_t) left / 8);
                size_t at = ref.bits.size() / 8;
                bc.skip_write_bytes(n);
                for (size_t i = 0; i < n; ++i) ref.put((uint8_t) init[at + i], 8);  // left as they were
                if (c.want_desc) c.desc << "skip" << n << " ";
            }
        }
        ++ops;
    }
    c.label_if(ops >= 5, "writes>=5");
    Bytes want = ref.bytes();
    Bytes got((char*) h.p, cap);
    CHECK_MSG(got.substr(0, want.size()) == want, "wrote " << pbt::hex(got.substr(0, want.size())) << " expected " << pbt::hex(want));
    CHECK_MSG(got.substr(want.size()) == init.substr(want.size()), "bytes behind the write position changed");
    result = got;
    if (ops >= 2 && ref.bits.size() % 8) c.nontrivial = true;
}

static void read_phase(Src& s, Ctx& c, const Bytes& data) {
    Heap h(data);
    BitContext bc;
    bc.init(h.p, h.n);
    size_t at = 0, total = data.size() * 8;   // bits
    auto ref = [&](size_t n) {
        uint64_t v = 0;
        for (size_t i = 0; i < n; ++i) { v = v << 1 | (((uint8_t) data[(at + i) / 8] >> (7 - (at + i) % 8)) & 1); }
        return v;
    };
    size_t ops = 0; bool unaligned = false;
    while (s.more(16)) {
        size_t left = total - at;
        CHECK_EQ(bc.size_bits(), left);
        CHECK_EQ(bc.size(), left / 8);
        CHECK((bc.pos() == h.p + at / 8));
        size_t k = s.weighted({8, 2, 2, 2, 2, 2, 2, 1});
        switch (k) {
            case 0: {
                size_t n = (size_t) s.range(1, 32);
                if (n > left) { CHECK(bc.acquire_bits(n) != SUCCESS); break; }
                CHECK(bc.acquire_bits(n) == SUCCESS);
                uint32_t want = (uint32_t) ref(n);
                uint32_t got = bc.read_bits(n);
                CHECK_MSG(got == want, "read_bits(" << n << ") at bit " << at << " gave " << std::hex << got << " expected " << want << " data " << pbt::hex(data));
                at += n;
                if (c.want_desc) c.desc << "r" << n << " ";
                break;
            }
            case 1: case 2: case 3: case 4: {
                size_t n = k;
                if (n * 8 > left) { CHECK(bc.acquire((uint32_t) n) != SUCCESS); break; }
                CHECK(bc.acquire((uint32_t) n) == SUCCESS);
                uint32_t want = (uint32_t) ref(n * 8), got;
                if (k == 1) got = bc.read_int8(); else if (k == 2) got = bc.read_int16(); else if (k == 3) got = bc.read_int24(); else got = bc.read_int32();
                CHECK_MSG(got == want, "int" << n * 8 << " at bit " << at << " gave " << std::hex << got << " expected " << want << " data " << pbt::hex(data));
                at += n * 8;
                if (c.want_desc) c.desc << "i" << n * 8 << " ";
                break;
            }
            case 5: {
                if (at % 8) break;
                size_t n = (size_t) s.skew(0, (int64_t) left / 8);
                Heap o(Bytes(n, '\xaa'));
                bc.read_bytes(o.p, n);
                CHECK(memcmp(o.p, data.data() + at / 8, n) == 0);
                at += n * 8;
                if (c.want_desc) c.desc << "b" << n << " ";
                break;
            }
            case 6: {
                size_t n = (size_t) s.skew(0, (int64_t) left / 8);
                bc.skip_read_bytes(n);
                at += n * 8;
                if (c.want_desc) c.desc << "skip" << n << " ";
                break;
            }
            default: {  // a request that cannot be met changes nothing
                size_t more = left + (size_t) s.range(1, 100);
                CHECK(bc.acquire_bits(more) != SUCCESS);
                CHECK(bc.acquire_bits(left) == SUCCESS);
                CHECK(bc.acquire((uint32_t) (left / 8)) == SUCCESS);
                CHECK(bc.acquire((uint32_t) (left / 8 + 1)) != SUCCESS);
            }
        }
        unaligned = unaligned || at % 8;
        ++ops;
    }
    if (ops >= 3 && unaligned) c.nontrivial = true;
    c.label_if(unaligned, "unaligned-read");
}

static void p01(Src& s, Ctx& c) {
    Bytes data;
    if (s.boolean()) {
        c.label("write-then-read");
        write_phase(s, c, data);
        if (c.want_desc) c.desc << "| ";
    } else {
        data = s.blob((size_t) s.skew(0, 80));
    }
    read_phase(s, c, data);
    for (auto v : s.rec) c.mix(&v, 8);
}

int main(int argc, char** argv) {
    pbt::Property p;
    p.id = "P01";
    p.rule = "random programs of bit-field/integer/byte-run/skip writes and reads against a bit-vector model; non-trivial: at least two writes ending off a byte boundary, or three reads with an unaligned one; distinct by choice sequence";
    p.body = p01;
    p.setup = quiet_log;
    p.quick_cases = 6000000;
    p.thorough_cases = 40000000;
    return pbt::run_main(argc, argv, {p});
}
