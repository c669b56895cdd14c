// Framed messages: independent encoders (this file never calls the library's encoders) and receivers that compare.
#pragma once
#include "common.h"
#include <frnetlib/WebFrame.h>
#include <frnetlib/WebSocket.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>

enum Kind { K_PACKET = 0, K_WS_SERVER /*read by a server*/, K_WS_CLIENT /*read by a client*/, K_REQUEST, K_RESPONSE, K_CHUNKED, K_COUNT };
static const char *const kind_names[] = {"packet", "ws-frame-to-server", "ws-frame-to-client", "http-request", "http-response", "http-chunked-response"};

struct Msg
{
    Kind kind; std::string wire, payload;
    int opcode = 2; bool fin = true;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string uri; std::vector<std::pair<std::string, std::string>> get;
    int status = 200;
    fr::Http::RequestType type = fr::Http::RequestType::Get;
    std::vector<std::pair<std::string, std::string>> form; // arguments in the body
    bool v10 = false, declared = false, lib_form = false;  // HTTP/1.0; the length of the body is known from the header; body written by the library from the arguments
    size_t body_at = 0; // offset of the payload in the wire form
};

static inline std::string be(uint64_t v, int n) { std::string s; for(int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); return s; }
static inline std::string ws_encode(int opcode, bool fin, const std::string &payload, bool mask, const std::string &key, int force_form = 0)
{
    std::string o;
    o += (char)((fin ? 0x80 : 0) | opcode);
    int m = mask ? 0x80 : 0;
    size_t n = payload.size();
    int form = force_form ? force_form : n < 126 ? 1 : n < 65536 ? 2 : 8;
    if(form == 1) o += (char)(m | n);
    else if(form == 2) { o += (char)(m | 126); o += be(n, 2); }
    else { o += (char)(m | 127); o += be(n, 8); }
    if(mask) { o += key; for(size_t i = 0; i < n; ++i) o += (char)(payload[i] ^ key[i % 4]); }
    else o += payload;
    return o;
}
struct WsDec { bool ok = false; int opcode = 0; bool fin = false, masked = false; std::string payload; size_t used = 0; int form = 1; int rsv = 0; };
// Decodes one frame; used == 0: not complete yet.
static inline WsDec ws_decode(const std::string &b, size_t at = 0)
{
    WsDec d; size_t n = b.size() - at;
    auto u = [&](size_t i) { return (unsigned char)b[at + i]; };
    if(n < 2) return d;
    d.opcode = u(0) & 15; d.fin = u(0) >> 7; d.rsv = (u(0) >> 4) & 7; d.masked = u(1) >> 7;
    uint64_t len = u(1) & 127; size_t h = 2;
    if(len == 126) { if(n < 4) return d; len = u(2) << 8 | u(3); h = 4; d.form = 2; }
    else if(len == 127) { if(n < 10) return d; len = 0; for(int i = 0; i < 8; ++i) len = len << 8 | u(2 + i); h = 10; d.form = 8; }
    size_t k = d.masked ? 4 : 0;
    if(len > (1u << 28) || n < h + k + len) return d;
    d.payload = b.substr(at + h + k, len);
    if(d.masked) for(size_t i = 0; i < len; ++i) d.payload[i] = (char)(d.payload[i] ^ b[at + h + i % 4]);
    d.used = h + k + len; d.ok = true;
    return d;
}
static inline std::string wtoken(size_t max)
{
    static const char a[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    std::string s; size_t n = 1 + wl((uint32_t)max);
    for(size_t i = 0; i < n; ++i) s += a[wl(36)];
    return s;
}
// header names that nothing in the library gives a meaning to
static inline void add_headers(Msg &m, std::string &w, const std::string &eol, int max = 4)
{
    int n = (int)wl(max + 1);
    if(wchance(0.25)) // headers that are common in practice and have no bearing on where a message ends
    {
        static const char *const usual[][2] = {{"Connection", "close"}, {"connection", "keep-alive"}, {"Connection", "Keep-Alive"}, {"Server", "nginx/1.25"}, {"Date", "Tue, 14 Nov 2023 22:13:20 GMT"}, {"Accept", "*/*"}, {"Set-Cookie", "a=b; Path=/; HttpOnly"}, {"ETag", "\"x:y\""}, {"Cache-Control", "no-cache"}, {"Expect", "nothing"}, {"Keep-Alive", "timeout=5"}, {"Accept-Encoding", "gzip, deflate"}, {"X-Content-Length", "7"}, {"Age", "0"}, {"Via", "1.1 proxy"}};
        auto *u = usual[wl(sizeof usual / sizeof *usual)]; bool dup = false;
        for(auto &x : m.headers) if(!strcasecmp(x.first.c_str(), u[0])) dup = true;
        if(!dup) { m.headers.emplace_back(u[0], u[1]); w += std::string(u[0]) + ": " + u[1] + eol; }
    }
    if(max > 1 && wchance(0.05) && w.size() < 2000) // a header section near, but within, the limit
    {
        m.headers.emplace_back("X-Long", std::string(MAX_HTTP_HEADER_SIZE - 2200 + wl(1050) - w.size(), 'p'));
        w += "X-Long: " + m.headers.back().second + eol; n = 0;
    }
    for(int i = 0; i < n; ++i)
    {
        std::string k = "X-" + std::to_string(m.headers.size()) + "-" + wtoken(8), v = wtoken(12);
        if(wchance(0.3)) v += " " + wtoken(5) + ": ;=/?";
        if(wchance(0.1)) v += std::string(60 + wl(800), 'q');
        if(wchance(0.04)) v.clear();
        m.headers.emplace_back(k, v);
        w += k + (wchance(0.2) ? ":" : ": ") + v + eol;
    }
}
// the text of an argument: escapes and punctuation are handed through as they are
static inline std::string warg(size_t max)
{
    std::string s = wtoken(max);
    if(wchance(0.15)) { static const char *const v[] = {"%20", "+", "%3D", "%26x", "a=b", ":/", "%0D%0A", ".", "~_-", "%", "%%", "1,2;3"}; s += v[wl(12)]; if(wchance(0.5)) s += wtoken(3); }
    return s;
}
static inline std::string wargval(size_t max)
{
    std::string s = warg(max);
    if(wchance(0.06)) { static const char *const v[] = {"?", "?a", "//x", "=", "/?", ":8080/", "'()*", "@!$"}; s += v[wl(8)]; if(wchance(0.5)) s += wtoken(3); }
    return s;
}
// some of them mention the protocol
static inline std::string whttp(std::string s) { if(s.size() > 1 && (s[0] + s[1]) % 12 == 0) s.insert((size_t)s[0] % s.size(), (s[1] & 1) ? "HTTP" : "HTTP/1.0"); return s; }
static inline std::string wargname(size_t max, int i)
{
    return (wchance(0.15) ? "Na" : "") + wtoken(wchance(0.08) ? 40 : max) + (wchance(0.05) ? "[x]" : wchance(0.05) ? "-_.y" : "") + std::to_string(i);
}
// payload bytes, optionally salted with sequences that look like framing
static inline std::string wpayload(uint64_t id, size_t n)
{
    std::string s = patstr(id, 0, n);
    if(wchance(0.25))
    {
        static const char *bad[] = {"\r\n\r\n", "\n\n", "\r\n", "HTTP/1.1", "0\r\n\r\n", "\xff\xff\xff\xff", "a=b&c=d", "GET / HTTP/1.1\r\n\r\n"};
        int k = 1 + wl(3);
        while(k--) { const char *b = bad[wl(8)]; size_t l = strlen(b); if(l <= n) s.replace(wl((uint32_t)(n - l + 1)), l, b); }
    }
    return s;
}
static inline std::string chunk_encode(const std::string &p, bool allow_ext = true)
{
    std::string o; size_t at = 0;
    while(at < p.size())
    {
        size_t n = wchance(0.3) ? p.size() - at : std::min(p.size() - at, wsize(3000));
        char b[32]; snprintf(b, sizeof b, wchance(0.3) ? "%zX" : "%zx", n);
        o += wchance(0.1) ? std::string("00") + b : b;
        if(allow_ext && wchance(0.1)) o += ";ext=" + wtoken(4);
        o += "\r\n"; o += p.substr(at, n); o += "\r\n";
        at += n;
    }
    return o + "0\r\n\r\n";
}
static inline Msg make_msg(Kind k, uint64_t id, size_t n)
{
    Msg m; m.kind = k;
    m.payload = wpayload(id, n);
    switch(k)
    {
        case K_PACKET: m.wire = be(n, 4); m.body_at = 4; m.wire += m.payload; break;
        case K_WS_SERVER: case K_WS_CLIENT:
        {
            static const int op[] = {2, 1, 0, 8, 9, 10};
            m.opcode = op[wl(6)]; m.fin = !wchance(0.25);
            std::string key = be(wl(0xffffffff), 4);
            m.wire = ws_encode(m.opcode, m.fin, m.payload, k == K_WS_SERVER, key);
            m.body_at = m.wire.size() - n;
            break;
        }
        case K_REQUEST:
        {
            std::string eol = wchance(0.12) ? "\n" : "\r\n";
            static const char *names[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
            int t = n == 0 ? (int)wl(5) : 1 + (int)wl(4);
            if(n && wchance(0.2)) // a form
            {
                t = 1; m.payload.clear();
                for(int i = 1 + (int)wl(4); i > 0; --i) { m.form.emplace_back(wargname(5, i), wchance(0.1) ? "" : wargval(wchance(0.1) ? 300 : 8)); m.payload += (m.payload.empty() ? "" : "&") + m.form.back().first + "=" + m.form.back().second; }
                n = m.payload.size();
            }
            m.v10 = wchance(0.15);
            m.type = (fr::Http::RequestType)t;
            m.uri = "/";
            for(int i = (int)wl(3); i > 0; --i) m.uri += whttp(warg(6)) + (i > 1 ? "/" : "");
            std::string w = std::string(names[t]) + " " + m.uri;
            int g = (int)wl(3);
            for(int i = 0; i < g; ++i) { m.get.emplace_back(wargname(4, i), wchance(0.15) ? "" : whttp(wargval(wchance(0.05) ? 200 : 6))); w += (i ? "&" : "?") + m.get.back().first + "=" + m.get.back().second; }
            w += (m.v10 ? " HTTP/1.0" : " HTTP/1.1") + eol;
            add_headers(m, w, eol);
            if(n || wchance(0.3)) { m.declared = true; w += (wchance(0.5) ? "Content-Length: " : "content-length: ") + std::to_string(n) + eol; }
            add_headers(m, w, eol, 1);
            w += eol; m.body_at = w.size();
            m.wire = w + m.payload;
            break;
        }
        case K_RESPONSE: case K_CHUNKED:
        {
            std::string eol = wchance(0.12) ? "\n" : "\r\n";
            static const int st[] = {200, 404, 500, 301, 201};
            m.status = st[wl(5)];
            m.v10 = k == K_RESPONSE && wchance(0.15);
            std::string w = (m.v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string(m.status) + (wchance(0.5) ? " Some Reason" : " ") + eol;
            add_headers(m, w, eol);
            if(k == K_RESPONSE) { if(n || wchance(0.5)) { m.declared = true; w += "Content-Length: " + std::to_string(n) + eol; } }
            else { m.declared = true; w += std::string("Transfer-Encoding: ") + (wchance(0.15) ? "gzip, chunked" : wchance(0.1) ? "gzip,chunked" : "chunked") + eol; }
            add_headers(m, w, eol, 1);
            w += eol; m.body_at = w.size();
            m.wire = w + (k == K_RESPONSE ? m.payload : chunk_encode(m.payload));
            break;
        }
        default: break;
    }
    return m;
}

static inline std::string frame_diff(fr::WebFrame &f, const Msg &m)
{
    if(f.get_payload() != m.payload) return "payload: " + first_diff(f.get_payload(), m.payload);
    if((int)f.get_opcode() != m.opcode) return "opcode " + std::to_string((int)f.get_opcode()) + " instead of " + std::to_string(m.opcode);
    if(f.is_final() != m.fin) return "final flag differs";
    return "";
}
static inline std::string http_diff(fr::Http &h, const Msg &m, bool exact_body = true)
{
    if(exact_body && !m.lib_form && h.get_body() != m.payload) return "body: " + first_diff(h.get_body(), m.payload);
    for(auto &x : m.headers)
    {
        if(!x.second.empty() && !h.header_exists(x.first)) return "header " + x.first + " is missing";
        if(h.header(x.first) != x.second) return "header " + x.first + " is '" + h.header(x.first) + "' instead of '" + x.second + "'";
    }
    if((h.get_version() == fr::Http::RequestVersion::V1) != m.v10) return "version differs";
    if(m.kind == K_REQUEST)
    {
        for(auto &x : m.form) if(!h.post_exists(x.first) || h.post(x.first) != x.second) return "form argument " + x.first + " is '" + (h.post_exists(x.first) ? h.post(x.first) : "(missing)") + "' instead of '" + x.second + "'";
        if(h.get_type() != m.type) return "request type differs";
        if(h.get_uri() != m.uri) return "uri '" + h.get_uri() + "' instead of '" + m.uri + "'";
        for(auto &x : m.get) if(!h.get_exists(x.first) || h.get(x.first) != x.second) return "argument " + x.first + " is '" + (h.get_exists(x.first) ? h.get(x.first) : "(missing)") + "' instead of '" + x.second + "'";
    }
    else if((int)h.get_status() != m.status) return "status " + std::to_string((int)h.get_status()) + " instead of " + std::to_string(m.status);
    return "";
}
static inline std::string packet_diff(fr::Packet &p, const std::string &payload)
{
    if(p.size() != payload.size()) return "packet holds " + std::to_string(p.size()) + " bytes instead of " + std::to_string(payload.size());
    if(p.get_cursor() != 0) return "the read position of a received packet is " + std::to_string(p.get_cursor());
    std::string s(payload.size(), 0);
    if(!s.empty()) p.extract_raw(&s[0], s.size());
    if(s != payload) return first_diff(s, payload);
    if(p.get_bytes_remaining() != 0) return "bytes left over";
    return "";
}

// Receives one message of the kind and compares it; objects may be reused from call to call.
struct Receiver
{
    fr::Packet packet; fr::ServerWebFrame sframe; fr::ClientWebFrame cframe;
    bool reuse = false;
    St recv(fr::Socket &s, const Msg &m, std::string &diff)
    {
        St st; diff.clear();
        switch(m.kind)
        {
            case K_PACKET:
            {
                if(!reuse) { fr::Packet p; st = LIB(s.receive(p)); if(st == St::Success) diff = packet_diff(p, m.payload); }
                else { st = LIB(s.receive(packet)); if(st == St::Success) diff = packet_diff(packet, m.payload); }
                return st;
            }
            case K_WS_SERVER:
            {
                if(!reuse) { fr::ServerWebFrame f; st = LIB(s.receive(f)); if(st == St::Success) diff = frame_diff(f, m); }
                else { st = LIB(s.receive(sframe)); if(st == St::Success) diff = frame_diff(sframe, m); }
                return st;
            }
            case K_WS_CLIENT:
            {
                if(!reuse) { fr::ClientWebFrame f; st = LIB(s.receive(f)); if(st == St::Success) diff = frame_diff(f, m); }
                else { st = LIB(s.receive(cframe)); if(st == St::Success) diff = frame_diff(cframe, m); }
                return st;
            }
            case K_REQUEST: { fr::HttpRequest r; st = LIB(s.receive(r)); if(st == St::Success) diff = http_diff(r, m); return st; }
            default: { fr::HttpResponse r; st = LIB(s.receive(r)); if(st == St::Success) diff = http_diff(r, m); return st; }
        }
    }
};

// A library socket connected to a scripted peer.
struct Scripted
{
    fr::TcpListener listener; std::shared_ptr<fr::TcpSocket> sock; SockP peer;
};
static inline void make_scripted(Scripted &p, const char *port = "9100")
{
    if(!p.sock) p.sock = std::make_shared<fr::TcpSocket>();
    if(wchance(0.5))
    {
        p.listener.set_inet_version(fr::Socket::IP::v4);
        St s = p.listener.listen(port);
        if(s != St::Success) fail("setup", "listen failed without faults: %s", sname(s));
        auto *pp = &p; int prt = atoi(port);
        int t = spawn("peer-connect", [pp, prt] { pp->peer = xconnect("10.0.0.1", prt, "10.7.0.3", now() + 30 * SEC); });
        s = p.listener.accept(*p.sock);
        if(s != St::Success) fail("setup", "accept failed without faults: %s", sname(s));
        join(t);
    }
    else
    {
        SockP l = xlisten("10.9.0.1", atoi(port));
        auto sk = p.sock; std::string prt = port;
        int t = spawn("connect", [sk, prt] { St s = sk->connect("10.9.0.1", prt, std::chrono::seconds(30)); if(s != St::Success) fail("setup", "connect failed without faults: %s", sname(s)); });
        p.peer = xaccept(l, now() + 60 * SEC);
        join(t);
        xclose(l);
    }
    if(!p.peer) fail("setup", "no connection");
}
// random cut points for what the scripted peer sends, including one-byte pieces around interesting offsets
static inline std::vector<size_t> wcuts(size_t total, size_t hot)
{
    std::vector<size_t> cuts;
    switch(wl(5))
    {
        case 0: return cuts;
        case 1: { size_t a = 1 + wl((uint32_t)std::max<size_t>(1, std::min<size_t>(total, hot + 8))); cuts = {a}; break; }
        case 2: { size_t at = 0; while(at < total && cuts.size() < 60) { size_t n = 1 + wl(3); cuts.push_back(n); at += n; } break; }
        case 3: { size_t at = 0; while(at < total && cuts.size() < 60) { size_t n = wsize(total); cuts.push_back(n); at += n; } break; }
        case 4: { if(total > 1) { size_t tail = 1 + wl(std::min<uint32_t>(6, (uint32_t)total - 1)); cuts = {total - tail}; for(size_t i = 0; i < tail; ++i) cuts.push_back(1); } break; }
    }
    return cuts;
}
