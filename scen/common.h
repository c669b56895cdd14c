// Helpers shared by the scenarios.  C++14: the library's headers are included here.
#pragma once
#include "../sim/sim.h"
#include <chrono>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Packet.h>

using namespace sim;
typedef fr::Socket::Status St;
#define LIB(expr) ([&]() -> decltype(auto) { sim::Lib lib_; return (expr); }())
#define LIBV(expr) do { sim::Lib lib_; (void)(expr); } while(0)

static inline const char *sname(St s)
{
    static const char *n[] = {"Unknown", "Success", "ListenFailed", "BindFailed", "Disconnected", "Error", "WouldBlock", "ConnectionFailed", "HandshakeFailed", "VerificationFailed",
                              "MaxPacketSizeExceeded", "NotEnoughData", "ParseError", "HttpHeaderTooBig", "HttpBodyTooBig", "AddressLookupFailure", "SendError", "ReceiveError",
                              "AcceptError", "SSLError", "NoRouteToHost", "Timeout"};
    int i = (int)s;
    return i >= 0 && i < (int)(sizeof n / sizeof *n) ? n[i] : "(invalid status)";
}
static inline bool idle(St s) { return s == St::WouldBlock || s == St::Timeout; }

// Position dependent bytes: any loss, duplication, reordering or mixing of streams changes what a position holds.
static inline unsigned char pat(uint64_t stream, uint64_t pos)
{
    uint64_t x = (stream + 1) * 0x9e3779b97f4a7c15ull ^ (pos * 0xd1342543de82ef95ull);
    x ^= x >> 32; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29;
    return (unsigned char)x;
}
static inline std::string patstr(uint64_t stream, uint64_t pos, size_t n)
{
    std::string s(n, 0);
    for(size_t i = 0; i < n; ++i) s[i] = (char)pat(stream, pos + i);
    return s;
}
// sizes biased to boundaries; 0th choice is the smallest
static inline size_t wsize(size_t max)
{
    static const size_t b[] = {1, 2, 3, 4, 5, 16, 60, 125, 126, 127, 128, 255, 256, 1000, 4095, 4096, 4097, 8192, 16384, 65534, 65535, 65536, 65537, 100000, 200000};
    size_t n = 0;
    while(n < sizeof b / sizeof *b && b[n] <= max) ++n;
    if(n == 0) return 1;
    switch(wl(3))
    {
        case 0: return b[wl((uint32_t)std::min<size_t>(n, 7))];
        case 1: return b[wl((uint32_t)n)];
        default: return 1 + wl((uint32_t)max);
    }
}
// What a patient application does when a call made no progress for the k-th time.
static inline void backoff(int k) { if(k > 2) sleep_ns(k > 12 ? 5 * SEC : (20 * MS) << (k - 3 > 8 ? 8 : k - 3)); }
static inline std::string hexs(const std::string &s, size_t max = 24)
{
    std::string o; char b[4];
    for(size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    if(s.size() > max) o += "...";
    return o;
}
static inline std::string first_diff(const std::string &got, const std::string &want)
{
    size_t i = 0;
    while(i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    char b[200];
    snprintf(b, sizeof b, "got %zu bytes, expected %zu, first difference at %zu (got %s, expected %s)", got.size(), want.size(), i, hexs(i < got.size() ? got.substr(i) : "", 8).c_str(), hexs(i < want.size() ? want.substr(i) : "", 8).c_str());
    return b;
}

// An application that gives up on a connection: both directions shut, and whatever still arrives thrown away.
static inline void give_up(fr::Socket &s)
{
    s.shutdown();
    char junk[4096]; size_t g = 0;
    for(int k = 0; k < 20000; ++k)
    {
        St e = s.receive_raw(junk, sizeof junk, g);
        if(e != St::Success && !idle(e)) return;
        if(idle(e)) sleep_ns(SEC);
    }
}
struct TcpPair
{
    fr::TcpListener listener;
    std::shared_ptr<fr::TcpSocket> a, b; // a connected, b accepted
};
// Establishes a connection with syscall faults held back: setup is another property's business.
static inline void make_pair(TcpPair &p, const char *port = "9000", const char *src = "10.1.0.5")
{
    p.a = std::make_shared<fr::TcpSocket>(); p.b = std::make_shared<fr::TcpSocket>();
    if(!p.listener.connected())
    {
        p.listener.set_inet_version(fr::Socket::IP::v4);
        St s = p.listener.listen(port);
        if(s != St::Success) fail("setup", "listen failed without faults: %s", sname(s));
    }
    auto a = p.a; std::string prt = port, sr = src;
    int t = spawn("connect", [a, prt, sr] {
        next_source(sr);
        St s = a->connect("10.0.0.1", prt, std::chrono::seconds(30));
        if(s != St::Success) fail("setup", "connect failed without faults: %s", sname(s));
    });
    St s = p.listener.accept(*p.b);
    if(s != St::Success) fail("setup", "accept failed without faults: %s", sname(s));
    join(t);
}
