// Helpers for the TLS classes.
#pragma once
#include "common.h"
#include <functional>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLContext.h>

static inline std::string cert(const char *n) { return certs_dir() + "/" + n; }
static inline std::shared_ptr<fr::SSLContext> tls_context(bool ca = true, const char *file = "ca.pem")
{
    auto c = std::make_shared<fr::SSLContext>();
    if(ca && !c->load_ca_certs_from_file(cert(file))) fail("setup", "can't load %s", cert(file).c_str());
    return c;
}
static inline std::unique_ptr<fr::SSLListener> tls_listener(const std::shared_ptr<fr::SSLContext> &c, const std::string &name = "good")
{
    auto l = std::make_unique<fr::SSLListener>(c, cert((name + ".pem").c_str()), cert((name + ".key").c_str()));
    l->set_inet_version(fr::Socket::IP::v4);
    return l;
}
struct TlsPair
{
    std::shared_ptr<fr::SSLContext> cc, sc; std::unique_ptr<fr::SSLListener> listener;
    std::shared_ptr<fr::SSLSocket> a, b; // a connected, b accepted
};
static inline void make_tls_pair(TlsPair &p, const char *port = "9443")
{
    if(!p.cc) { p.cc = tls_context(); p.sc = tls_context(false); dns("server.test", {Addr{"10.0.0.1"}}); }
    p.a = std::make_shared<fr::SSLSocket>(p.cc); p.b = std::make_shared<fr::SSLSocket>(p.sc);
    p.a->set_inet_version(fr::Socket::IP::v4);
    if(!p.listener)
    {
        p.listener = tls_listener(p.sc);
        St s = p.listener->listen(port);
        if(s != St::Success) fail("setup", "TLS listen failed without faults: %s", sname(s));
    }
    auto a = p.a; std::string prt = port;
    int t = spawn("tls-connect", [a, prt] {
        St s = a->connect("server.test", prt, std::chrono::seconds(30));
        if(s != St::Success) fail("setup", "TLS connect failed without faults: %s (-0x%x)", sname(s), -errno);
    });
    St s = p.listener->accept(*p.b);
    if(s != St::Success) fail("setup", "TLS accept failed without faults: %s (-0x%x)", sname(s), -errno);
    join(t);
}
// A TLS endpoint made of mbedtls and a scripted socket: it can do what the library's classes can't (close_notify, half a handshake, ...).
struct XTls
{
    SockP s; mbedtls_ssl_context ssl; mbedtls_ssl_config conf; mbedtls_x509_crt crt; mbedtls_pk_context key; mbedtls_ctr_drbg_context rng; mbedtls_entropy_context ent; ns deadline = -1; std::string keyname; bool completed = false; size_t left = (size_t)-1; // bytes it may still send
    std::function<void(size_t)> on_out; // before bytes go on the wire
    XTls() { mbedtls_ssl_init(&ssl); mbedtls_ssl_config_init(&conf); mbedtls_x509_crt_init(&crt); mbedtls_pk_init(&key); mbedtls_ctr_drbg_init(&rng); mbedtls_entropy_init(&ent); }
    ~XTls() { mbedtls_ssl_free(&ssl); mbedtls_ssl_config_free(&conf); mbedtls_x509_crt_free(&crt); mbedtls_pk_free(&key); mbedtls_ctr_drbg_free(&rng); mbedtls_entropy_free(&ent); }
    static int out(void *c, const unsigned char *b, size_t n) { auto x = (XTls *)c; size_t k = n < x->left ? n : x->left; if(x->left != (size_t)-1) x->left -= k; if(x->on_out) x->on_out(k); return xsend(x->s, b, k, x->deadline) && k == n ? (int)n : MBEDTLS_ERR_NET_SEND_FAILED; }
    static int in(void *c, unsigned char *b, size_t n) { auto x = (XTls *)c; bool t = false, e = false; size_t k = xrecv(x->s, b, n, x->deadline, &t, &e); return t ? MBEDTLS_ERR_SSL_TIMEOUT : e ? MBEDTLS_ERR_NET_CONN_RESET : (int)k; }
    // 0 on success
    int start(SockP sock, bool server, const char *name = "good", bool verify = false)
    {
        s = sock;
        int r = mbedtls_ctr_drbg_seed(&rng, mbedtls_entropy_func, &ent, nullptr, 0);
        if(!r) r = mbedtls_ssl_config_defaults(&conf, server ? MBEDTLS_SSL_IS_SERVER : MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
        mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &rng);
        mbedtls_ssl_conf_authmode(&conf, verify ? MBEDTLS_SSL_VERIFY_REQUIRED : MBEDTLS_SSL_VERIFY_NONE);
        if(!r && server)
        {
            r = mbedtls_x509_crt_parse_file(&crt, cert((std::string(name) + ".pem").c_str()).c_str());
            if(!r) r = mbedtls_pk_parse_keyfile(&key, cert(((keyname.empty() ? name : keyname.c_str()) + std::string(".key")).c_str()).c_str(), nullptr);
            if(!r) r = mbedtls_ssl_conf_own_cert(&conf, &crt, &key);
            if(r) fail("setup", "scripted TLS server: -0x%x", -r);
        }
        if(!r) r = mbedtls_ssl_setup(&ssl, &conf);
        if(!r && !server) r = mbedtls_ssl_set_hostname(&ssl, "server.test");
        mbedtls_ssl_set_bio(&ssl, this, out, in, nullptr);
        return r ? r : mbedtls_ssl_handshake(&ssl);
    }
    bool send(const std::string &d) { size_t o = 0; while(o < d.size()) { int k = mbedtls_ssl_write(&ssl, (const unsigned char *)d.data() + o, d.size() - o); if(k <= 0) return false; o += k; } return true; }
    int recv(char *b, size_t n) { return mbedtls_ssl_read(&ssl, (unsigned char *)b, n); }
    void notify() { mbedtls_ssl_close_notify(&ssl); }
};
// A library TLS socket connected to a scripted TLS peer, as client or as accepted end.
struct ScriptedTls { TlsPair tp; std::shared_ptr<fr::SSLSocket> sock; std::unique_ptr<XTls> peer; };
static inline void make_scripted_tls(ScriptedTls &p, bool accepted)
{
    auto *x = new XTls; p.peer.reset(x);
    dns("server.test", {Addr{"10.0.0.1"}, });
    p.tp.cc = tls_context(); p.tp.sc = tls_context(false);
    if(accepted)
    {
        p.sock = std::make_shared<fr::SSLSocket>(p.tp.sc);
        p.tp.listener = tls_listener(p.tp.sc);
        if(p.tp.listener->listen("9446") != St::Success) fail("setup", "TLS listen");
        int t = spawn("tls-peer", [x] { SockP s = xconnect("10.0.0.1", 9446, "10.7.0.3", now() + 30 * SEC); if(!s) fail("setup", "no connection"); int r = x->start(s, false); if(r) fail("setup", "scripted TLS client: -0x%x", -r); });
        St s = p.tp.listener->accept(*p.sock);
        if(s != St::Success) fail("setup", "TLS accept without faults: %s (-0x%x)", sname(s), -errno);
        join(t);
    }
    else
    {
        p.sock = std::make_shared<fr::SSLSocket>(p.tp.cc); p.sock->set_inet_version(fr::Socket::IP::v4);
        SockP l = xlisten("10.0.0.1", 9447);
        int t = spawn("tls-peer", [x, l] { SockP s = xaccept(l, now() + 60 * SEC); if(!s) fail("setup", "no connection"); int r = x->start(s, true); if(r) fail("setup", "scripted TLS server: -0x%x", -r); });
        St s = p.sock->connect("server.test", "9447", std::chrono::seconds(30));
        if(s != St::Success) fail("setup", "TLS connect without faults: %s (-0x%x)", sname(s), -errno);
        join(t); xclose(l);
    }
}
