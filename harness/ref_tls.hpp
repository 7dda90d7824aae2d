// A TLS peer made of plain OpenSSL over any transport of the project, as the reference in P24 and P37.
#pragma once
#include <openssl/err.h>
#include <openssl/ssl.h>

#include "certs.hpp"
#include "stnet.hpp"

static std::string f_cert[2], f_key[2];
static void cert_files() {
    f_cert[0] = stn::mem_file("ca", cert_a); f_key[0] = stn::mem_file("ka", key_a);
    f_cert[1] = stn::mem_file("cb", cert_b); f_key[1] = stn::mem_file("kb", key_b);
}

using namespace sps;
// the reference peer: OpenSSL driven straight over the same transport
class RefTls : public IReaderWriter {
 public:
    RefTls(PIReaderWriter io, bool server, const std::string& sni, int cert) : io(io), server(server) {
        ctx = SSL_CTX_new(TLS_method());
        ssl = SSL_new(ctx);
        r = BIO_new(BIO_s_mem()); w = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, r, w);
        if (server) {
            SSL_use_certificate_file(ssl, f_cert[cert].c_str(), SSL_FILETYPE_PEM);
            SSL_use_RSAPrivateKey_file(ssl, f_key[cert].c_str(), SSL_FILETYPE_PEM);
            SSL_set_accept_state(ssl);
        } else {
            if (!sni.empty()) SSL_set_tlsext_host_name(ssl, sni.c_str());
            SSL_set_connect_state(ssl);
        }
    }
    ~RefTls() { SSL_free(ssl); SSL_CTX_free(ctx); }
    void set_recv_timeout(utime_t tm) override {}
    utime_t get_recv_timeout() override { return -1; }
    void set_send_timeout(utime_t tm) override {}
    utime_t get_send_timeout() override { return -1; }
    error_t flush() {
        char b[20000];
        int n;
        while ((n = BIO_read(w, b, sizeof b)) > 0) { error_t e = io->write(b, n); if (e != SUCCESS) return e; }
        return SUCCESS;
    }
    error_t fill() {
        char b[5000];
        size_t n = 0;
        error_t e = io->read(b, sizeof b, n);
        if (e != SUCCESS) return e;
        BIO_write(r, b, (int) n);
        return SUCCESS;
    }
    error_t init() {
        for (;;) {
            ERR_clear_error();
            int n = SSL_do_handshake(ssl), why = SSL_get_error(ssl, n);
            error_t e = flush();
            if (e != SUCCESS) return e;
            if (n == 1) return SUCCESS;
            if (why != SSL_ERROR_WANT_READ) { ERR_clear_error(); return ERROR_SSL_HANDSHAKE; }
            if ((e = fill()) != SUCCESS) return e;
        }
    }
    error_t read(void* buf, size_t size, size_t& nread) override {
        for (;;) {
            ERR_clear_error();
            int n = SSL_read(ssl, buf, (int) size);
            if (n > 0) { nread = n; return SUCCESS; }
            if (SSL_get_error(ssl, n) != SSL_ERROR_WANT_READ) { ERR_clear_error(); return ERROR_SSL_READ; }
            error_t e = fill();
            if (e != SUCCESS) return e;
        }
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread = nullptr) override {
        size_t got = 0;
        while (got < size) {
            size_t n = 0;
            error_t e = read((char*) buf + got, size - got, n);
            if (e != SUCCESS) return e;
            got += n;
        }
        if (nread) *nread = got;
        return SUCCESS;
    }
    error_t write(void* buf, size_t size) override {
        if (SSL_write(ssl, buf, (int) size) <= 0) return ERROR_SSL_WRITE;
        return flush();
    }
    std::string peer_cn() {
        X509* x = SSL_get_peer_certificate(ssl);
        if (!x) return "";
        char b[256] = "";
        X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, b, sizeof b);
        X509_free(x);
        return b;
    }
    PIReaderWriter io;
    bool server;
    SSL_CTX* ctx; SSL* ssl; BIO* r; BIO* w;
};

