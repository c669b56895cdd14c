// S08: the WebSocket handshake.
#include "wsutil.h"

namespace {
void more_headers(std::string &w, int max) { for(int i = (int)wl(max + 1); i > 0; --i) w += "X-" + wtoken(6) + std::to_string(i) + ": " + wtoken(10) + "\r\n"; }

// ---- the library as client, a scripted server
enum Answer { Good, WrongToken, NoToken, OtherStatus, Truncated, Garbled, Silence, Gone, NAnswer };
struct Cli
{
    Answer what; int token_how = 0, cut_how = 0; std::vector<Frame> frames; bool coalesce = false; std::string path; std::vector<std::string> protocols;
    std::vector<std::string> seen; // keys of earlier connections
    bool answered = false, closed_seen = false, server_done = false; std::string back;
};
void server(Cli &c, SockP l)
{
    SockP p = xaccept(l, now() + 300 * SEC);
    if(!p) fail("client", "the client never connected");
    if(c.what == Gone && wchance(0.5)) { if(wchance(0.5)) xreset(p); else xclose(p); c.server_done = true; return; }
    std::string h = x_read_header(p, now() + 300 * SEC);
    if(h.empty()) { if(c.what == Gone) return; fail("client", "the client's upgrade request did not arrive"); }
    size_t e = h.find("\r\n");
    if(h.substr(0, e) != "GET " + c.path + " HTTP/1.1") fail("client-request", "the request line is '%s'", h.substr(0, e).c_str());
    if(lower(x_header(h, "upgrade")) != "websocket" || lower(x_header(h, "connection")).find("upgrade") == std::string::npos || x_header(h, "sec-websocket-version") != "13" || x_header(h, "host").empty())
        fail("client-request", "the upgrade request is not one");
    std::string key = x_header(h, "sec-websocket-key");
    if(key.empty()) fail("client-request", "the upgrade request has no key");
    // 16 bytes, encoded: 24 characters of which the last two are padding and the one before them has four bits to spare
    bool fine = key.size() == 24 && key.substr(22) == "==" && std::string("AQgw").find(key[21]) != std::string::npos;
    for(size_t i = 0; fine && i < 22; ++i) fine = isalnum((unsigned char)key[i]) || key[i] == '+' || key[i] == '/';
    if(!fine) fail("client-request", "the key '%s' isn't the encoding of 16 bytes", key.c_str());
    for(auto &k : c.seen) if(k == key) fail("client-request", "the key '%s' has been used before", key.c_str());
    c.seen.push_back(key);
    std::string pr; for(auto &x : c.protocols) pr += (pr.empty() ? "" : ", ") + x;
    if(x_header(h, "sec-websocket-protocol") != pr) fail("client-request", "the requested protocols are '%s'", x_header(h, "sec-websocket-protocol").c_str());
    if(wchance(0.4)) sleep_ns((ns)wl(20) * 20 * MS);
    if(c.what == Gone) { if(wchance(0.5)) xreset(p); else if(wchance(0.5)) xclose(p); else xshutdown(p); c.server_done = true; return; }
    std::string tok = x_accept(key);
    if(c.what == WrongToken)
        switch(c.token_how = (int)wl(c.seen.size() > 1 ? 10 : 8))
        {
            case 0: { size_t i = wl((uint32_t)tok.size()); tok[i] = tok[i] == 'A' ? 'B' : 'A'; break; }
            case 1: tok.pop_back(); break;
            case 2: tok += 'A'; break;
            case 3: { std::string f = lower(tok); if(f == tok) f += "x"; tok = f; break; }
            case 4: tok = x_accept(key + " "); break;
            case 5: tok = key; break;
            case 6: tok = x_accept(""); break;
            case 7: tok = tok.substr(0, 1); break;
            case 8: case 9: tok = x_accept(c.seen[c.seen.size() - 2]); break; // the answer to an earlier connection once more
        }
    int status = 101;
    if(c.what == OtherStatus) { static const int st[] = {200, 100, 301, 400, 404, 426, 500, 102, 1010}; status = st[wl(9)]; }
    std::string w = "HTTP/1.1 " + std::to_string(status) + (wchance(0.7) ? " Switching Protocols\r\n" : " \r\n");
    bool c1 = wchance(0.5);
    more_headers(w, 3);
    w += c1 ? "Upgrade: websocket\r\nConnection: Upgrade\r\n" : "upgrade: websocket\r\nconnection: upgrade\r\n";
    if(c.what != NoToken) w += (c1 ? "Sec-WebSocket-Accept: " : "sec-websocket-accept: ") + tok + "\r\n";
    more_headers(w, 2);
    w += "\r\n";
    size_t hdr = w.size();
    if(c.what == Truncated) { w.resize(wchance(0.5) ? wl((uint32_t)hdr) : hdr - 1 - wl(4)); }
    if(c.what == Garbled) { if(wchance(0.5)) { w = patstr(77, wl(1000), 1 + wl(200)) + "\r\n\r\n"; } else { size_t i = 9 + wl(3); w[i] = (char)(w[i] ^ (1 << wl(7))); } } // the status
    std::string fr;
    for(auto &f : c.frames) fr += ws_encode(f.opcode, f.fin, f.payload, false, "");
    if(c.what == Truncated) fr.clear();
    if(c.what == Silence) { if(wchance(0.5)) w.clear(); else w.resize(wl((uint32_t)hdr)); fr.clear(); }
    if(c.coalesce) w += fr;
    c.answered = true;
    bool sent = x_send_cut(p, w, hdr);
    if(c.what == Truncated) { if(wchance(0.5)) xshutdown(p); else if(wchance(0.5)) xclose(p); else xreset(p); }
    if(c.what == Good)
    {
        if(!sent) fail("client", "the client closed the connection during a genuine handshake");
        if(!c.coalesce && !xsend(p, fr.data(), fr.size(), now() + 900 * SEC) && !fr.empty()) fail("client", "the client closed the connection after a genuine handshake");
        // one frame back
        char b[512];
        for(;;)
        {
            WsDec d = ws_decode(c.back);
            if(d.ok) { if(!d.masked || d.payload != "pong") fail("client-frame", "the first frame of the client is wrong"); break; }
            size_t n = xrecv(p, b, sizeof b, now() + 900 * SEC);
            if(!n) fail("client", "the client's first frame did not arrive");
            c.back.append(b, n);
        }
    }
    else
    { // the refused server sees the connection end
        char b[512]; bool to = false;
        while(xrecv(p, b, sizeof b, now() + 900 * SEC, &to)) {}
        if(to) fail("left-open", "a client whose handshake failed keeps the connection open");
        c.closed_seen = true;
    }
    c.server_done = true;
}
void client_round(WS &ws, std::vector<std::string> &seen, int round)
{
    Cli c; c.seen = seen;
    c.what = wchance(0.35) ? Good : (Answer)wl(NAnswer);
    int nf = c.what == Good || wchance(0.3) ? (int)wl(4) : 0;
    for(int i = 0; i < nf; ++i) c.frames.push_back(make_frame(800 + i, wchance(0.2) ? 0 : wsize(wchance(0.2) ? 9000 : 200)));
    c.coalesce = wchance(0.6);
    c.path = wchance(0.5) ? "/" : "/" + wtoken(8) + "/" + wtoken(4);
    for(int i = (int)wl(3); i > 0; --i) c.protocols.push_back(wtoken(5));
    SockP l = xlisten("10.9.0.2", 8080);
    int shape = (int)wl(2);
    ws.set_inet_version(fr::Socket::IP::v4);
    if(c.what == Silence) ws.set_receive_timeout(100 + wl(3000));
    else ws.set_receive_timeout(wchance(0.3) ? 3600 * 1000 : 0);
    if(c.protocols.empty() && shape == 0) c.path = "/";
    note("client: answer %d, %d frames%s", (int)c.what, nf, c.coalesce ? " directly behind" : "");
    Cli *pc = &c;
    int t = spawn("server", [pc, l] { server(*pc, l); });
    St st;
    if(c.protocols.empty() && shape == 0) st = LIB(ws.connect("10.9.0.2", "8080", std::chrono::seconds(60)));
    else st = LIB(ws.connect("10.9.0.2", "8080", c.path, c.protocols, std::chrono::seconds(60)));
    nontrivial();
    if(c.what == Good)
    {
        if(st != St::Success) fail("refused", "a genuine handshake ended with %s", sname(st));
        if(!ws.connected()) fail("refused", "a successful handshake left the socket unconnected");
        for(size_t i = 0; i < c.frames.size(); ++i)
        {
            fr::ClientWebFrame f; St s2 = LIB(ws.receive(f));
            if(s2 != St::Success) fail("frame-lost", "receiving frame %zu sent %s the handshake returned %s", i, c.coalesce ? "directly behind" : "after", sname(s2));
            std::string d = same_frame(f, c.frames[i]);
            if(!d.empty()) fail("frame-lost", "frame %zu sent %s the handshake: %s", i, c.coalesce ? "directly behind" : "after", d.c_str());
        }
        if(nf && c.coalesce) probe("frames behind the answer");
        fr::ClientWebFrame f; f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_payload("pong");
        if(LIB(ws.send(f)) != St::Success) fail("client", "sending after the handshake failed");
    }
    else
    {
        static const char *n[] = {"", "with a wrong token", "without a token", "with another status", "cut short", "garbled", "missing (silence)", "missing (connection lost)"};
        if(st == St::Success) fail("false-success", "the connect succeeded with an answer %s (variant %d)", n[c.what], c.token_how);
        if(ws.connected()) fail("left-connected", "the connect failed with %s but the socket is still connected", sname(st));
        probe(n[c.what]);
    }
    join(t);
    LIBV((ws.disconnect(), 0));
    xclose(l);
    seen = c.seen;
    if(round) probe("several connections in a row");
}
void client_run()
{
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_CPU_STALL, 0.01}});
    std::vector<std::string> seen; WS one; bool same = wchance(0.5);
    for(int r = 0, n = wchance(0.5) ? 1 : 2 + (int)wl(2); r < n; ++r)
    {
        WS own; client_round(same ? one : own, seen, r);
    }
}

// ---- the library as server, a scripted client
void server_run()
{
    int what = wchance(0.4) ? 0 : (int)wl(8); // 0 good; 1 method, 2 no upgrade, 3 other upgrade, 4 truncated, 5 garbled, 6 silence, 7 gone
    std::vector<Frame> frames; int nf = (int)wl(3);
    for(int i = 0; i < nf; ++i) frames.push_back(make_frame(850 + i, wchance(0.2) ? 0 : wsize(wchance(0.2) ? 9000 : 200)));
    bool coalesce = wchance(0.5);
    fr::TcpListener l; l.set_inet_version(fr::Socket::IP::v4);
    if(l.listen("8081") != St::Success) fail("setup", "listen");
    WS ws;
    if(what == 6) ws.set_receive_timeout(100 + wl(3000));
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_CPU_STALL, 0.01}});
    bool send_fails = what == 0 && wchance(0.2); // the answer may not get out
    if(send_fails) enable(F_SEND_FAIL, 0.3 + 0.1 * wl(6));
    note("server: request %d, %d frames%s", what, nf, coalesce ? " directly behind" : "");
    struct { std::string answer, key; bool got101 = false, ok_frame = false, unsent = false; } r; auto *pr = &r; auto *pf = &frames;
    int t = spawn("client", [pr, what, pf, coalesce] {
        SockP p = xconnect("10.0.0.1", 8081, "10.7.0.9", now() + 300 * SEC);
        if(!p) fail("setup", "the client cannot connect");
        std::string key = wchance(0.5) ? x_b64(patstr(55, 0, 16)) : wtoken(24);
        pr->key = key;
        static const char *met[] = {"POST", "PUT", "DELETE", "PATCH"};
        std::string path = "/" + wtoken(5);
        std::string w = std::string(what == 1 ? met[wl(4)] : "GET") + " " + path + " HTTP/1.1\r\nHost: somewhere\r\n";
        more_headers(w, 2);
        bool c1 = wchance(0.5);
        if(what == 3) w += "Upgrade: h2c\r\n"; else if(what != 2) w += c1 ? "Upgrade: websocket\r\n" : "upgrade: websocket\r\n";
        w += "Connection: Upgrade\r\n";
        w += (c1 ? "Sec-WebSocket-Key: " : "sec-websocket-key: ") + key + "\r\n";
        if(wchance(0.8)) w += "Sec-WebSocket-Version: 13\r\n";
        more_headers(w, 2);
        w += "\r\n";
        size_t hdr = w.size();
        if(what == 4) w.resize(wchance(0.5) ? wl((uint32_t)hdr) : hdr - 1 - wl(4));
        if(what == 5) { if(wchance(0.5)) w = patstr(77, wl(1000), 1 + wl(200)) + "\r\n\r\n"; else w[wl(3)] = (char)('a' + wl(20)); }
        if(what == 6) w.resize(wchance(0.4) ? 0 : wl((uint32_t)hdr));
        std::string fr;
        for(auto &f : *pf) fr += ws_encode(f.opcode, f.fin, f.payload, true, be(wl(0xffffffff), 4));
        if(what == 5) fr.clear();
        bool early = coalesce && (what == 0 || wchance(0.3)) && what != 4 && what != 6 && what != 7;
        if(early) w += fr;
        if(what == 7) { w.resize(wl((uint32_t)hdr)); }
        if(!w.empty()) x_send_cut(p, w, hdr);
        if(what == 7) { if(wchance(0.5)) xreset(p); else xclose(p); return; }
        if(what == 4) xshutdown(p);
        if(what == 5 && wchance(0.5)) xshutdown(p);
        pr->answer = x_read_header(p, now() + 900 * SEC);
        if(what != 0 || (pr->unsent && pr->answer.empty())) return;
        if(pr->answer.empty()) fail("refused", "a genuine upgrade request was not answered");
        if(pr->answer.compare(0, 12, "HTTP/1.1 101") != 0) fail("server-answer", "the answer starts with '%s'", pr->answer.substr(0, 30).c_str());
        if(x_header(pr->answer, "sec-websocket-accept") != x_accept(key)) fail("server-answer", "the accept token for key '%s' is '%s' instead of '%s'", key.c_str(), x_header(pr->answer, "sec-websocket-accept").c_str(), x_accept(key).c_str());
        if(lower(x_header(pr->answer, "upgrade")) != "websocket" || lower(x_header(pr->answer, "connection")).find("upgrade") == std::string::npos) fail("server-answer", "the answer has no upgrade headers");
        if(!early && !fr.empty()) x_send_cut(p, fr, 2);
        std::string b; char ch[256];
        for(;;)
        {
            WsDec d = ws_decode(b);
            if(d.ok) { if(d.masked || d.payload != "ping") fail("server-frame", "the first frame of the server is wrong"); break; }
            size_t n = xrecv(p, ch, sizeof ch, now() + 900 * SEC);
            if(!n && pr->unsent) return;
            if(!n) fail("server", "the server's first frame did not arrive");
            b.append(ch, n);
        }
    });
    St st = St::Unknown; bool threw = false;
    try { st = LIB(l.accept(ws)); } catch(const std::runtime_error &) { threw = true; }
    nontrivial();
    enable(F_SEND_FAIL, 0);
    if(send_fails && (threw || st != St::Success))
    {
        if(!faults_fired(F_SEND_FAIL)) fail("refused", "a genuine upgrade request was refused (%s)", threw ? "exception" : sname(st));
        r.unsent = true;
        LIBV((ws.disconnect(), 0));
        join(t);
        probe("answer could not be sent");
    }
    else if(what == 0)
    {
        if(threw || st != St::Success) fail("refused", "a genuine upgrade request was refused (%s)", threw ? "exception" : sname(st));
        for(size_t i = 0; i < frames.size(); ++i)
        {
            fr::ServerWebFrame f; St s2 = LIB(ws.receive(f));
            if(s2 != St::Success) fail("frame-lost", "receiving frame %zu sent %s the handshake returned %s", i, coalesce ? "directly behind" : "after", sname(s2));
            std::string d = same_frame(f, frames[i]);
            if(!d.empty()) fail("frame-lost", "frame %zu sent %s the handshake: %s", i, coalesce ? "directly behind" : "after", d.c_str());
        }
        fr::ServerWebFrame f; f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_payload("ping");
        if(LIB(ws.send(f)) != St::Success) fail("server", "sending after the handshake failed");
        join(t);
        LIBV((ws.disconnect(), 0));
    }
    else
    {
        if(!threw && st == St::Success) fail("false-success", "a request that is no GET upgrade request (variant %d) was accepted", what);
        LIBV((ws.disconnect(), 0));
        join(t);
        if(r.answer.find(" 101") != std::string::npos) fail("false-success", "a request that is no GET upgrade request (variant %d) was answered with 101", what);
        probe("bad request refused");
    }
}
// ---- both ends are the library
void both_run()
{
    fr::TcpListener l; l.set_inet_version(fr::Socket::IP::v4);
    if(l.listen("8082") != St::Success) fail("setup", "listen");
    WS a, b; auto *pa = &a; auto *pl = &l; auto *pb = &b; (void)pl; (void)pb;
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_CPU_STALL, 0.01}, {F_CLOCK_JUMP, 0.05}});
    set_wall_offset((ns)wl(100000) * SEC);
    Frame fa = make_frame(860, wsize(2000)), fb = make_frame(861, wsize(2000)); auto *pfa = &fa, *pfb = &fb;
    note("both ends are the library");
    int t = spawn("client", [pa, pfa, pfb] {
        St s = LIB(pa->connect("10.0.0.1", "8082", std::chrono::seconds(60)));
        if(s != St::Success) fail("refused", "the library's client cannot connect to its own server: %s", sname(s));
        fr::ClientWebFrame f; fill(f, *pfa);
        if(LIB(pa->send(f)) != St::Success) fail("refused", "send after the handshake");
        fr::ClientWebFrame g; if(LIB(pa->receive(g)) != St::Success || !same_frame(g, *pfb).empty()) fail("frame-lost", "the server's frame behind its handshake was not received");
    });
    St st = LIB(l.accept(b));
    if(st != St::Success) fail("refused", "accept: %s", sname(st));
    fr::ServerWebFrame f; fill(f, fb);
    if(LIB(b.send(f)) != St::Success) fail("refused", "send after the handshake");
    fr::ServerWebFrame g; if(LIB(b.receive(g)) != St::Success || !same_frame(g, fa).empty()) fail("frame-lost", "the client's frame behind its handshake was not received");
    nontrivial();
    join(t);
    LIBV((a.disconnect(), 0)); LIBV((b.disconnect(), 0));
}
}

SCENARIO(S08)
{
    sched_mode();
    switch(wl(5)) { case 0: case 1: client_run(); break; case 2: case 3: server_run(); break; case 4: both_run(); break; }
}
