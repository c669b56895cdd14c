// S20: the event-loop HTTP server of the examples, with every kind of client.
#include "wsutil.h"
#define main example_main
#include <examples/concurrent_http_server/ConcurrentHTTPServer.cpp>
#undef main

namespace {
const std::string PAGE = "<h1>Hello World!</h1>";
enum Who { C_GOOD, C_SLOW, C_KEEPALIVE, C_HALF, C_STALL, C_VANISH, C_RESET, C_CLOSE, C_GARBAGE, C_EARLY, C_HUGE, C_SILENT, C_BADREQ, C_N };
const char *const who_names[] = {"good", "slow", "keep-alive", "half-closing", "stalling", "vanishing", "resetting", "closing", "garbage", "reset at once", "huge header", "silent", "malformed"};
struct Shared { int served = 0, good = 0; bool open_end = false; int vanished = 0; };

// Reads exactly one response; returns false if the connection ended first.
bool read_response(const SockP &s, ns bound, std::string &err)
{
    std::string h = x_read_header(s, bound);
    if(h.empty()) { err = now() >= bound ? "no response in time" : "the connection ended without a response"; return false; }
    if(h.compare(0, 12, "HTTP/1.1 200") && h.compare(0, 12, "HTTP/1.0 200")) { err = "not a 200: " + h.substr(0, 30); return false; }
    std::string cl = x_header(h, "content-length");
    if(cl != std::to_string(PAGE.size())) { err = "Content-Length '" + cl + "'"; return false; }
    std::string b; if(!xread_exact(s, b, PAGE.size(), bound)) { err = "the body is missing"; return false; }
    if(b != PAGE) { err = "another page: " + b; return false; }
    return true;
}
bool send_pieces(const SockP &s, const Msg &m, ns gap, int style)
{
    const std::string &w = m.wire; size_t at = 0; int n = 0;
    while(at < w.size())
    {
        size_t k = w.size() - at;
        if(style == 1) k = 1;                                                          // byte by byte
        else if(style == 2 && n++ < 20) k = std::min(k, wsize(k));                      // random pieces
        else if(style == 3 && n++ < 20) k = m.body_at > at && m.body_at - at > 2 ? m.body_at - at - 2 : 1; // around the end of the header
        if(style == 1 && at > 200) k = w.size() - at;
        if(!xsend(s, w.data() + at, k, now() + 900 * SEC)) return false;
        at += k;
        if(at < w.size() && gap && wchance(0.7)) sleep_ns(gap);
    }
    return true;
}
void run_client(Who who, int i, Shared *sh)
{
    std::string src = "10.4." + std::to_string(i) + ".1";
    SockP s;
    for(int k = 0; k < 50 && !s; ++k) { s = xconnect("10.0.0.1", 8080, src, now() + 30 * SEC); if(!s) sleep_ns(SEC); }
    if(!s) { if(who <= C_HALF) fail("not-accepting", "the server does not take connections"); return; }
    Msg m = make_msg(K_REQUEST, 60 + i, wchance(0.4) ? 0 : wsize(wchance(0.15) ? 30000 : 600));
    std::string err; char b[600];
    switch(who)
    {
        case C_GOOD: case C_SLOW: case C_KEEPALIVE: case C_HALF:
        {
            int rounds = who == C_KEEPALIVE ? 2 + (int)wl(4) : 1;
            for(int k = 0; k < rounds; ++k)
            {
                if(k) m = make_msg(K_REQUEST, 60 + i + 100 * k, wchance(0.4) ? 0 : wsize(600));
                ns gap = who == C_SLOW ? (ns)(1 + wl(200)) * 100 * MS : wchance(0.3) ? (ns)wl(300) * MS : 0;
                if(!send_pieces(s, m, gap, who == C_SLOW ? 1 + (int)wl(3) : (int)wl(4))) fail("broken", "the server broke the connection of a %s client inside its request", who_names[who]);
                if(who == C_HALF) xshutdown(s);
                ns t0 = now(), s0 = stalled();
                if(!read_response(s, t0 + 400 * SEC, err)) fail("unanswered", "%s client, request %d (%s, %zu bytes): %s", who_names[who], k, m.wire.substr(0, 20).c_str(), m.wire.size(), err.c_str());
                (void)s0; ++sh->good; nontrivial();
            }
            // nothing else comes
            bool to = false; size_t g = xrecv(s, b, sizeof b, now() + 3 * SEC, &to);
            if(g) fail("extra", "more bytes behind the response: %s", hexs(std::string(b, g)).c_str());
            if(!to && who != C_HALF) fail("broken", "the server closed the connection after the response");
            probe(who_names[who]);
            break;
        }
        case C_STALL: case C_VANISH: case C_RESET: case C_CLOSE:
        {
            size_t cut = wchance(0.3) ? m.wire.size() : wl((uint32_t)m.wire.size() + 1); if(cut) xsend(s, m.wire.data(), cut, now() + 900 * SEC);
            sleep_ns((ns)wl(4000) * MS);
            if(who == C_VANISH) { xvanish(s); ++sh->vanished; }
            if(who == C_RESET) xreset(s);
            if(who == C_STALL) sleep_ns((ns)(20 + wl(200)) * SEC);
            probe(who_names[who]);
            break;
        }
        case C_GARBAGE:
        {
            std::string d = patstr(90 + i, 0, 1 + wl(3000)); if(wchance(0.5)) d = m.wire.substr(0, m.wire.size() / 2) + d;
            for(int k = 0; k < 4; ++k) { if(!xsend(s, d.data(), d.size(), now() + 100 * SEC)) break; sleep_ns((ns)wl(500) * MS); }
            probe(who_names[who]); break;
        }
        case C_EARLY: if(wchance(0.5)) sleep_ns((ns)wl(200) * US); if(wchance(0.5)) xreset(s); else xclose(s); probe(who_names[who]); return;
        case C_HUGE:
        {
            std::string d = "GET / HTTP/1.1\r\nX-A: " + std::string(wchance(0.5) ? 60000 : 6000, 'a'); bool sent = xsend(s, d.data(), d.size(), now() + 900 * SEC);
            bool to = false; while(sent && xrecv(s, b, sizeof b, now() + 300 * SEC, &to)) {}
            if(sent && to) fail("limit", "a header beyond the limit keeps its connection");
            probe(who_names[who]); break;
        }
        case C_SILENT: sleep_ns((ns)(20 + wl(200)) * SEC); probe(who_names[who]); break;
        case C_BADREQ:
        {
            static const char *const bad[] = {"BREW / HTTP/1.1\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n", "\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\nabcde"};
            const char *d = bad[wl(8)]; xsend(s, d, strlen(d), now() + 100 * SEC); sleep_ns(5 * SEC); probe(who_names[who]); break;
        }
        default: break;
    }
    if(who != C_VANISH && who != C_RESET) xclose(s);
}
}

SCENARIO(S20)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    static const size_t caps[] = {0, 3000, 20000}; next_connect_cap(caps[wl(3)]);
    auto *sh = new Shared;
    spawn("server", [] { { Lib l; example_main(); } fail("stopped", "the server returned"); }, true);
    block_until([] { return listening(8080); }, 100 * SEC);
    if(!listening(8080)) fail("setup", "the server does not listen");
    block_until([] { return open_fds() >= 2; }, 200 * SEC);     // the listener and the selector
    sleep_ns(SEC);
    int base = open_fds();
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.08}, {F_STALL, 0.02}, {F_SHORT_READ, 0.3}, {F_SHORT_WRITE, 0.3}, {F_SEND_EINTR, 0.2}, {F_EPOLL_EINTR, 0.15}, {F_EPOLL_FEW, 0.3}, {F_EPOLL_SHUFFLE, 0.4}, {F_ACCEPT_EINTR, 0.2}, {F_NAMEINFO_FAIL, 0.1}, {F_CPU_STALL, 0.003}});
    int n = 1 + (int)wl(wchance(0.1) ? 80 : 10); bool mixed = wchance(0.75);
    std::vector<int> ts; std::string l; std::vector<Who> ws;
    for(int i = 0; i < n; ++i) { Who w = mixed ? (Who)wl(C_N) : (Who)wl(C_HALF + 1); ws.push_back(w); if(i < 6) l += std::string(" ") + who_names[w]; }
    note("%d clients:%s", n, l.c_str());
    for(int i = 0; i < n; ++i)
    {
        Who w = ws[i]; ns d = wchance(0.5) ? 0 : (ns)wl(5000) * MS;
        ts.push_back(spawn(std::string(who_names[w]) + std::to_string(i), [=] { sleep_ns(d); run_client(w, i, sh); }));
    }
    for(int t : ts) join(t);
    // when the clients and the faults are gone: everything has been cleaned up, and the next client is served at once
    quiesce();
    sleep_ns(400 * SEC);
    run_client(C_GOOD, 200, sh);
    Msg m = make_msg(K_REQUEST, 7, 100);
    SockP s = xconnect("10.0.0.1", 8080, "10.4.9.9", now() + SEC); std::string err;
    if(!s) fail("not-accepting", "the server does not take connections any more");
    xsend(s, m.wire.data(), m.wire.size(), now() + SEC); ns t0 = now(), s0 = stalled();
    if(!read_response(s, now() + 60 * SEC, err)) fail("unanswered", "after all is over: %s", err.c_str());
    if(now() - t0 > SEC + 2 * (stalled() - s0)) fail("slow", "the server took %.1fs with nothing else to do", (now() - t0) / 1e9);
    xclose(s);
    sleep_ns(5 * SEC + 2 * (stalled() - s0));
    block_until([base, sh] { return open_fds() <= base + sh->vanished; }, now() + 100 * SEC);
    if(open_fds() > base + sh->vanished || open_fds() < base) fail("leak", "%d descriptors are open, %d clients (vanished ones) still are", open_fds() - base, sh->vanished);
    if(bad_closes()) fail("double-close", "a descriptor was closed twice");
    nontrivial();
}
