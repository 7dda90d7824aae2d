// Leads the input and output of the installed librtmp through the hooks of the patched one.
#include <librtmp/rtmp.h>
#include <dlfcn.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include <map>
#include <vector>
#undef RTMP
#undef RTMPSockBuf

static const int kFirst = 0x40000000;
static std::map<int, SpsRtmp*> fds;
static int next_fd = kFirst;
static SpsRtmp* of(int fd) { auto i = fd < kFirst ? fds.end() : fds.find(fd); return i == fds.end() ? nullptr : i->second; }

void sps_RTMP_Init(SpsRtmp* r) { memset((void*) r, 0, sizeof *r); (RTMP_Init)(r); r->hook = nullptr; r->m_pktReadonly = 0; }
void RTMP_Init_Hook(SpsRtmp* r, RTMP_HOOK* h) { r->hook = h; r->fd = r->m_sb.sb_socket = next_fd++; fds[r->m_sb.sb_socket] = r; }
void sps_RTMP_Close(SpsRtmp* r) { (RTMP_Close)(r); fds.erase(r->fd); }
int sps_RTMP_Connect(SpsRtmp* r, RTMPPacket* p) {
    if (!r->Link.hostname.av_len || !(r->hook->RTMP_Connect)(r, p)) return 0;
    r->m_bSendCounter = 1;
    return RTMP_Connect1(r, p);
}
// the library forgets its socket when a read or write has failed, not its hook
// at least n bytes in the buffer of the library
static bool peek(SpsRtmp* r, int n) {
    auto& b = r->m_sb;
    if (b.sb_size == 0) b.sb_start = b.sb_buf;
    if (b.sb_start + n > b.sb_buf + sizeof b.sb_buf) { memmove(b.sb_buf, b.sb_start, (size_t) b.sb_size); b.sb_start = b.sb_buf; }
    while (b.sb_size < n) {
        ssize_t k = recv(b.sb_socket, b.sb_start + b.sb_size, (size_t) (n - b.sb_size), 0);
        if (k <= 0) return false;
        b.sb_size += (int) k;
    }
    return true;
}
int sps_RTMP_ReadPacket(SpsRtmp* r, RTMPPacket* p) {
    r->m_sb.sb_socket = r->fd;
    // a message given up for a longer one of its chunk stream: this version of the library writes on in the old body
    if (!peek(r, 1)) return 0;
    auto h = (unsigned char*) r->m_sb.sb_start;
    int k = (h[0] & 63) == 0 ? 2 : (h[0] & 63) == 1 ? 3 : 1;
    if ((h[0] >> 6) == 1 && peek(r, k)) {
        h = (unsigned char*) r->m_sb.sb_start;
        int ch = k == 1 ? h[0] & 63 : 64 + h[1] + (k == 3 ? h[2] << 8 : 0);
        if (ch < r->m_channelsAllocatedIn && r->m_vecChannelsIn[ch]) RTMPPacket_Free(r->m_vecChannelsIn[ch]);
    }
    return (RTMP_ReadPacket)(r, p);
}
// its decoder has no end of levels, reads past the end in AMF3 and in long strings: false for such
static bool fit(const unsigned char*& p, const unsigned char* e, bool name, int deep, bool& bad, uint64_t count = UINT64_MAX) {
    auto skip = [&](uint64_t k) { if ((uint64_t) (e - p) < k) return false; p += k; return true; };
    auto len = [&](int k) { uint64_t v = 0; for (int i = 0; i < k; ++i) v = v << 8 | p[i]; return v; };
    if (deep > 300) return bad = true, false;
    for (; count; --count) {
        if (p == e) return count > UINT32_MAX;
        if (count > UINT32_MAX && e - p >= 3 && !p[0] && !p[1] && p[2] == AMF_OBJECT_END) return skip(3);
        if (name && (e - p < 4 || !skip(2 + len(2)))) return false;
        if (p == e) return false;
        switch (*p++) {
            case AMF_NUMBER: if (!skip(8)) return false; break;
            case AMF_BOOLEAN: if (!skip(1)) return false; break;
            case AMF_STRING: if (e - p < 2 || !skip(2 + len(2))) return false; break;
            case AMF_OBJECT: if (!fit(p, e, true, deep + 1, bad)) return false; break;
            case AMF_NULL: case AMF_UNDEFINED: case AMF_UNSUPPORTED: break;
            case AMF_ECMA_ARRAY: if (!skip(4) || !fit(p, e, true, deep + 1, bad)) return false; break;
            case AMF_STRICT_ARRAY: { if (e - p < 4) return false; uint64_t k = len(4); p += 4; if (!fit(p, e, false, deep + 1, bad, k)) return false; break; }
            case AMF_DATE: if (!skip(10)) return false; break;
            case AMF_LONG_STRING: case AMF_XML_DOC: if (e - p < 4 || !skip(4 + len(4))) return bad = true, false; break;
            case AMF_AVMPLUS: return bad = true, false;
            default: return false;
        }
    }
    return true;
}
int sps_AMF_Decode(AMFObject* o, const char* b, int n, int name) {
    auto p = (const unsigned char*) b;
    bool bad = false;
    if (n > 0) fit(p, p + n, name != 0, 0, bad);
    return bad ? -1 : (AMF_Decode)(o, b, n, name);
}
int sps_RTMP_SendPacket(SpsRtmp* r, RTMPPacket* p, int q) {
    r->m_sb.sb_socket = r->fd;
    if (!r->m_pktReadonly) return (RTMP_SendPacket)(r, p, q);
    // the library writes its headers into the body
    std::vector<char> b(RTMP_MAX_HEADER_SIZE + p->m_nBodySize);
    if (p->m_nBodySize) memcpy(b.data() + RTMP_MAX_HEADER_SIZE, p->m_body, p->m_nBodySize);
    char* body = p->m_body;
    p->m_body = b.data() + RTMP_MAX_HEADER_SIZE;
    int ret = (RTMP_SendPacket)(r, p, q);
    p->m_body = body;
    return ret;
}
extern "C" {
ssize_t recv(int fd, void* p, size_t n, int fl) {
    if (auto r = of(fd)) {
        SpsSockBuf sb{r};
        int k = r->hook->RTMPSockBuf_Fill(&sb, (char*) p, (int) n);
        if (k < 0) errno = ECONNRESET;
        return k;
    }
    static auto f = (ssize_t (*)(int, void*, size_t, int)) dlsym(RTLD_NEXT, "recv");
    return f(fd, p, n, fl);
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    if (auto r = of(fd)) {
        SpsSockBuf sb{r};
        int k = r->hook->RTMPSockBuf_Send(&sb, (const char*) p, (int) n);
        if (k < 0) errno = ECONNRESET;
        return k;
    }
    static auto f = (ssize_t (*)(int, const void*, size_t, int)) dlsym(RTLD_NEXT, "send");
    return f(fd, p, n, fl);
}
int close(int fd) {
    if (fd >= kFirst) return 0;
    static auto f = (int (*)(int)) dlsym(RTLD_NEXT, "close");
    return f(fd);
}
}
