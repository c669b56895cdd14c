// Independent SHA-1, Base64 and WebSocket handshake helpers.
#pragma once
#include "msg.h"
static inline std::string x_sha1(const std::string &in)
{
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    std::string m = in; m += (char)0x80;
    while(m.size() % 64 != 56) m += '\0';
    m += be((uint64_t)in.size() * 8, 8);
    auto rol = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
    for(size_t o = 0; o < m.size(); o += 64)
    {
        uint32_t w[80];
        for(int i = 0; i < 16; ++i) w[i] = (uint32_t)(unsigned char)m[o + 4 * i] << 24 | (uint32_t)(unsigned char)m[o + 4 * i + 1] << 16 | (uint32_t)(unsigned char)m[o + 4 * i + 2] << 8 | (unsigned char)m[o + 4 * i + 3];
        for(int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int i = 0; i < 80; ++i)
        {
            uint32_t f, k;
            if(i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; }
            else if(i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
            else if(i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; }
            else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string o; for(auto v : h) o += be(v, 4);
    return o;
}
static inline std::string x_b64(const std::string &in)
{
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; size_t i = 0;
    for(; i + 2 < in.size(); i += 3)
    {
        uint32_t v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8 | (unsigned char)in[i + 2];
        o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63];
    }
    if(i + 1 == in.size()) { uint32_t v = (unsigned char)in[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; }
    else if(i + 2 == in.size()) { uint32_t v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += '='; }
    return o;
}
static inline std::string x_accept(const std::string &key) { return x_b64(x_sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
static inline std::string lower(std::string s) { for(auto &c : s) c = (char)tolower(c); return s; }
// Reads an HTTP header byte by byte (never past its end); empty when the stream ended first.
static inline std::string x_read_header(const SockP &p, ns deadline)
{
    std::string h;
    while(h.size() < 20000)
    {
        char c;
        if(xrecv(p, &c, 1, deadline) != 1) return "";
        h += c;
        if(h.size() >= 4 && h.compare(h.size() - 4, 4, "\r\n\r\n") == 0) return h;
    }
    return h;
}
static inline std::string x_header(const std::string &h, const std::string &name) // first value of a header, "" when missing
{
    size_t at = h.find("\r\n");
    while(at != std::string::npos && at + 2 < h.size())
    {
        at += 2;
        size_t e = h.find("\r\n", at); std::string l = h.substr(at, e - at);
        size_t c = l.find(':');
        if(c != std::string::npos && lower(l.substr(0, c)) == name) { size_t v = l.find_first_not_of(' ', c + 1); return v == std::string::npos ? "" : l.substr(v); }
        at = e;
    }
    return "";
}
static inline bool x_send_cut(const SockP &p, const std::string &w, size_t hot)
{
    if(wchance(0.5)) xsegment(p, wcuts(w.size(), hot));
    size_t at = 0; int n = 0;
    while(at < w.size())
    {
        size_t k = w.size() - at;
        if(n++ < 10 && wchance(0.4)) k = std::min(k, hot > at && wchance(0.4) ? std::max<size_t>(1, hot - at - 2 + wl(5)) : wsize(k));
        if(!xsend(p, w.data() + at, k, now() + 900 * SEC)) return false;
        at += k;
        if(at < w.size() && wchance(0.3)) sleep_ns((ns)wl(30) * 10 * MS);
    }
    return true;
}
typedef fr::WebSocket<fr::TcpSocket> WS;
struct Frame { int opcode; bool fin; std::string payload; };
static inline Frame make_frame(uint64_t id, size_t n) { static const int op[] = {2, 1, 0, 9, 10, 8}; Frame f; f.opcode = op[wl(6)]; f.fin = !wchance(0.25); f.payload = wpayload(id, n); return f; }
template<class F> std::string same_frame(F &f, const Frame &w)
{
    if(f.get_payload() != w.payload) return "payload: " + first_diff(f.get_payload(), w.payload);
    if((int)f.get_opcode() != w.opcode) return "opcode " + std::to_string((int)f.get_opcode()) + " instead of " + std::to_string(w.opcode);
    if(f.is_final() != w.fin) return "final flag differs";
    return "";
}
template<class F> void fill(F &f, const Frame &w) { f.set_opcode((fr::WebFrame::Opcode)w.opcode); f.set_final(w.fin); f.set_payload(w.payload); }
