// what the harnesses of installed servers share: ports, an upstream, fresh processes
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>

#include "stnet.hpp"
#include "http_model.hpp"
#include "ref_tls.hpp"

#include <sps_host_global_module.hpp>
#include <sps_host_loc_module.hpp>
#include <sps_http_module.hpp>
#include <sps_io_memory.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_root_module.hpp>
#include <sps_server_module.hpp>
#include <sps_stream_module.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_tcp.hpp>
#include <sps_upstream_module.hpp>

using namespace sps;

static int up_fd, up_port, base_port;
static int bound(int port, bool listening, bool reuse) {
    int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    if (reuse) setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port);
    if (bind(s, (sockaddr*) &a, sizeof a) || (listening && listen(s, 64))) { close(s); return -1; }
    return s;
}
static const int kPorts = 4;
static void setup() {
    quiet_log();
    auto& r = SingleInstance<ModuleFactoryRegister>::get_instance();
#define REG(n) { auto f = std::make_shared<n##ModuleFactory>(); r.reg(f->module, f); }
    REG(Root) REG(Http) REG(Server) REG(Host) REG(GlobalHost) REG(Location) REG(Stream) REG(UpStream)
    SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<HttpURLProtocolFactory>());
    // a block of ports of our own: the first one stays taken as a lock
    for (int i = 0; i < 300 && !base_port; ++i) {
        int b = 30000 + ((getpid() + i * 37) % 300) * 8;
        if (bound(b, true, false) < 0) continue;
        bool ok = true;
        for (int k = 1; k <= kPorts; ++k) { int t = bound(b + k, true, true); if (t < 0) ok = false; else close(t); }
        if (ok) base_port = b;
    }
    up_fd = bound(0, true, false);
    sockaddr_in a{};
    socklen_t n = sizeof a;
    if (!base_port || up_fd < 0 || getsockname(up_fd, (sockaddr*) &a, &n)) { fprintf(stderr, "no free port\n"); _exit(3); }
    up_port = ntohs(a.sin_port);
}

// ---- in the child
static void* upstream_conn(void* p) {
    st_netfd_t fd = (st_netfd_t) p;
    sockaddr_in a{};
    socklen_t n = sizeof a;
    getsockname(st_netfd_fileno(fd), (sockaddr*) &a, &n);
    std::string who = std::to_string((ntohl(a.sin_addr.s_addr) & 255) - 1);
    Bytes in;
    char t[2000];
    while (in.find("\r\n\r\n") == Bytes::npos) {
        ssize_t k = st_read(fd, t, sizeof t, 20000000);
        if (k <= 0) { st_netfd_close(fd); return nullptr; }
        in.append(t, (size_t) k);
    }
    std::string r = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(who.size()) + "\r\n\r\n" + who;
    st_write(fd, r.data(), r.size(), 20000000);
    st_netfd_close(fd);
    return nullptr;
}
static void* upstream_main(void*) {
    st_netfd_t l = st_netfd_open_socket(up_fd);
    while (true) {
        st_netfd_t fd = st_accept(l, nullptr, nullptr, ST_UTIME_NO_TIMEOUT);
        if (fd) st_thread_create(upstream_conn, fd, 0, 0);
    }
    return nullptr;
}
// runs f in a fresh process and hands its answer to done
static void run_child(Ctx& c, std::function<std::string()> f, std::function<void(const std::string&)> done) {
    int fd[2];
    if (pipe(fd)) pbt::fail("harness: pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); throw pbt::Discard(); }
    if (pid == 0) {
        close(fd[0]);
        alarm(60);
        std::string r;
        try { r = f(); } catch (const pbt::Failure& f) { r = f.msg; }
        if (write(fd[1], r.data(), r.size()) < 0) _exit(4);
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char t[4096];
    ssize_t n;
    while ((n = read(fd[0], t, sizeof t)) > 0) r.append(t, (size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    CHECK_MSG(WIFEXITED(st), "the server died of signal " << WTERMSIG(st));
    if (r.empty() && WEXITSTATUS(st) == 255) r = "refused";      // the loader ends the process on some errors
    CHECK_MSG(!r.empty(), "the server died with exit status " << WEXITSTATUS(st));
    done(r);
}

