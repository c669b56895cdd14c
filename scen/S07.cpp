// S07: hostile bytes.
#include "http.h"

namespace {
struct Plan { Kind kind; std::string bytes; int how_end; bool nb, manual; size_t bufsz; uint32_t tmo; int expect_refusal = 0; size_t valid_prefix = 0; };

const char *nasty_req[] = {
    "GET\r\n\r\n", "GET \r\n\r\n", "GET /\r\n\r\n", "GET HTTP/1.1\r\n\r\n", "GET ? HTTP/1.1\r\n\r\n", "GET /? HTTP/1.1\r\n\r\n", "GET /?= HTTP/1.1\r\n\r\n", "GET /?& HTTP/1.1\r\n\r\n", "GET /?a=&=b&& HTTP/1.1\r\n\r\n",
    "POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551616\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc",
    "POST / HTTP/1.1\r\nContent-Length: 0x10\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: \r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length:\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: abc\r\n\r\nabc",
    "POST / HTTP/1.1\r\n\r\n\r\n\r\n", "POST / HTTP/1.1\r\n\r\n=\r\n\r\n", "POST / HTTP/1.1\r\n\r\n\n\n", "POST / HTTP/1.1\r\n\r\na=\r\n\r\n\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\n\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n\r\n",
    "\r\n\r\n", "\n\n", "G\n\n", "GET\n\n", "HTTP /GET\r\n\r\n", "GET HTTP / HTTP\r\n\r\n", "GET xHTTP/\r\n\r\n", "GET ?/HTTP\r\n\r\n", "GETHTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n:\r\n\r\n", "GET / HTTP/1.1\r\n: x\r\n\r\n", "GET / HTTP/1.1\r\nA:\r\n\r\n", "GET / HTTP/1.1\r\nA: \r\n\r\n",
    "GET / HTTP/1.1\r\ntransfer-encoding: ,,,\r\n\r\n", "GET / HTTP/1.1\r\nA: \x80\xff\r\n\r\n", "GET HTTP?/ \r\n\r\n", "PUT /HTTP?\r\n\r\n"};
const char *nasty_res[] = {
    "HTTP\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 \r\n\r\n", "HTTP/1.1 x\r\n\r\n", "HTTP/1.1 99999999999999999999\r\n\r\n", "HTTP/1.1 -1 \r\n\r\n", "HTTP 200\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\nx",
    "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nx", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nx", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\nx", "HTTP\n\n", "H\n\n", "\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: , ,\r\n\r\n"};
const char *nasty_chunk[] = {
    "\r\n", "x\r\n", "-1\r\n", "-\r\n", " \r\n", "ffffffff\r\n", "fffffffc\r\n", "fffffffb\r\nabc", "100000000\r\nabc\r\n", "ffffffffffffffff\r\nabc\r\n", "10000000000000000\r\nabc\r\n", "7fffffff\r\nabc\r\n", "0x5\r\nabcde\r\n0\r\n\r\n", "+3\r\nabc\r\n0\r\n\r\n",
    "3\r\nabcde\r\n0\r\n\r\n", "3\r\nabc0\r\n\r\n", "3;\r\nabc\r\n0;x\r\n\r\n", "00000000000000000000000000000003\r\nabc\r\n000\r\n\r\n", "g\r\n\r\n", "\r\n\r\n0\r\n\r\n", "5\r\nab", "fffffffe\r\n\r\n\r\n\r\n", "3\nabc\n0\n\n", "\x80\r\nabc\r\n", "0\r\n", "0\r", "0\r\n\r", "0\r\nX: y\r\n\r\n"};

void mutate(std::string &s)
{
    int k = 1 + (int)wl(4);
    while(k-- && !s.empty())
    {
        size_t i = wchance(0.6) ? wl((uint32_t)std::min<size_t>(s.size(), 60)) : wl((uint32_t)s.size());
        switch(wl(8))
        {
            case 0: s[i] = (char)(s[i] ^ (1 << wl(8))); break;
            case 1: { static const char v[] = "\0\xff\r\n :;=&?0/%-"; s[i] = v[wl(15)]; break; }
            case 2: s.erase(i, 1 + wl(4)); break;
            case 3: s.insert(i, 1 + wl(3), s[i]); break;
            case 4: s.resize(i); break;
            case 5: { static const char *v[] = {"\r\n\r\n", "\n\n", "\r\n", "Content-Length: 9999999999\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: -2\r\n", "HTTP/1.1", "ffffffff\r\n", "\r\nContent-Length: 3\r\n"}; s.insert(i, v[wl(9)]); break; }
            case 6: { size_t j = wl((uint32_t)s.size()); s.insert(i, s.substr(j, 1 + wl(40))); break; }
            case 7: s[i] = (char)wl(256); break;
        }
    }
}
// numbers around the places where counters wrap or change sign
uint64_t edge(bool &big)
{
    static const uint64_t at[] = {0, 0x7f, 0xff, 0x7fff, 0xffff, 0x7fffffff, 0xffffffff, 0x7fffffffffffffff, 0xffffffffffffffff, MAX_HTTP_BODY_SIZE, MAX_HTTP_HEADER_SIZE};
    uint64_t v = at[wl(11)] + (uint64_t)wl(13) - 6;
    big = v > MAX_HTTP_BODY_SIZE;
    return v;
}
std::string edge_number(bool hex, bool &big)
{
    uint64_t v = edge(big); char b[40];
    snprintf(b, sizeof b, hex ? (wchance(0.5) ? "%llx" : "%llX") : "%llu", (unsigned long long)v);
    std::string s = b;
    if(wchance(0.15)) s = std::string(1 + wl(30), '0') + s;
    if(wchance(0.15)) { s = "-" + s; big = (uint64_t)0 - v > MAX_HTTP_BODY_SIZE; }
    if(wchance(0.1)) { s += "0"; big = v != 0 && (v > MAX_HTTP_BODY_SIZE); if(s[0] == '-') big = false; }
    return s;
}
Plan make_plan()
{
    Plan p; p.kind = (Kind)wl(K_COUNT);
    bool http = p.kind >= K_REQUEST;
    Msg m = make_msg(p.kind, 700, wchance(0.2) ? 0 : wsize(wchance(0.2) ? 9000 : 200));
    uint32_t what = http ? wl(8) : wchance(0.35) ? 8 : wl(3);
    switch(what)
    {
        case 0: p.bytes = m.wire; mutate(p.bytes); break;
        case 1: { int n = 1 + (int)wl(3); for(int i = 0; i < n; ++i) p.bytes += make_msg(p.kind, 701 + i, wl(50)).wire; mutate(p.bytes); break; }
        case 2:
            p.bytes = patstr(710 + wl(1000), 0, 1 + wl(400));
            if(http && wchance(0.7)) p.bytes = (p.kind == K_REQUEST ? "GET " : "HTTP") + p.bytes;
            if(!http && wchance(0.5)) p.bytes = m.wire.substr(0, wl(12)) + p.bytes;
            break;
        case 3:
            if(p.kind == K_REQUEST) p.bytes = nasty_req[wl(sizeof nasty_req / sizeof *nasty_req)];
            else if(wchance(0.35)) p.bytes = nasty_res[wl(sizeof nasty_res / sizeof *nasty_res)];
            else
            {
                p.bytes = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
                for(int i = (int)wl(3); i > 0; --i) p.bytes += "4\r\nwxyz\r\n";
                p.bytes += nasty_chunk[wl(sizeof nasty_chunk / sizeof *nasty_chunk)];
            }
            if(wchance(0.2)) mutate(p.bytes);
            break;
        case 4: // a header without end
        {
            p.expect_refusal = 1;
            p.bytes = p.kind == K_REQUEST ? "GET / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n";
            size_t n = MAX_HTTP_HEADER_SIZE + 4200 + wl(wchance(0.3) ? 200000 : 60000);
            uint32_t shape = wl(4);
            while(p.bytes.size() < n) p.bytes += shape == 0 ? "A" : shape == 1 ? "A: b\r\n" : shape == 2 ? ":::::\r\n" : "Transfer-Encoding: chunked\r\n";
            if(wchance(0.4)) p.bytes += "\r\n\r\n";
            break;
        }
        case 5: // a body beyond the limit
        {
            p.expect_refusal = 1;
            size_t n = MAX_HTTP_BODY_SIZE + (p.kind == K_CHUNKED ? 5000 : 1) + wl(wchance(0.5) ? 10 : 100000);
            if(p.kind == K_CHUNKED)
            {
                p.bytes = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
                if(wchance(0.3)) p.bytes += "ffffff\r\n" + patstr(3, 0, n);
                else p.bytes += chunk_encode(std::string(n, 'z'));
            }
            else p.bytes = (p.kind == K_REQUEST ? "POST / HTTP/1.1\r\nContent-Length: " : "HTTP/1.1 200 OK\r\nContent-Length: ") + std::to_string(wchance(0.2) ? n + (1ull << 32) * wl(3) : n) + "\r\n\r\n" + std::string(n, 'z');
            break;
        }
    }
    if(http && what == 6 && p.kind == K_CHUNKED) // good chunks, then one whose length is at the edge of a number's range
    {
        p.bytes = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
        for(int i = (int)wl(4); i > 0; --i) { std::string d = wchance(0.2) ? "aaa" : wtoken(9); char b[20]; snprintf(b, sizeof b, "%zx\r\n", d.size()); p.bytes += b + d + "\r\n"; }
        bool big; p.bytes += edge_number(true, big); p.expect_refusal = big;
        p.bytes += "\r\n" + wtoken(12) + "\r\n"; if(wchance(0.7)) p.bytes += "0\r\n\r\n";
        if(wchance(0.3)) p.bytes += "0\r\n\r\n0\r\n\r\n";
    }
    else if(http && what >= 6)
    {
        bool big; std::string n = edge_number(false, big); p.expect_refusal = big;
        p.bytes = (p.kind == K_REQUEST ? (wchance(0.5) ? "POST / HTTP/1.1\r\n" : "PUT /a?b=c HTTP/1.1\r\n") : "HTTP/1.1 200 OK\r\n") + std::string(wchance(0.3) ? "Host: x\r\n" : "") + "Content-Length: " + n + "\r\n\r\n" + wtoken(40);
    }
    else if(!http && what == 8) // a frame or packet put together from arbitrary fields
    {
        for(int i = 1 + (int)wl(3); i > 0; --i)
        {
            std::string d = patstr(720 + i, 0, wchance(0.6) ? wl(9) : wsize(300));
            if(p.kind == K_PACKET) { bool big; p.bytes += be(wchance(0.6) ? d.size() : edge(big), 4) + d; continue; }
            bool mask = wchance(0.85) ? p.kind == K_WS_SERVER : p.kind != K_WS_SERVER;
            std::string f = ws_encode((int)wl(16), wchance(0.6), d, mask, patstr(730 + i, 0, 4), d.size() < 126 && wchance(0.7) ? 1 : d.size() < 65536 && wchance(0.7) ? 2 : 8);
            if(wchance(0.15)) f[0] = (char)(f[0] | 0x10 << wl(3));
            if(wchance(0.15) && f.size() > 10) { bool big; f.replace(1, 9, std::string(1, (char)((mask ? 0x80 : 0) | 127)) + be(edge(big), 8)); }
            p.bytes += f;
        }
    }
    p.how_end = (int)wl(4); // FIN, close, RST, silence (only with a receive timeout)
    p.nb = wchance(0.3); p.manual = http && wchance(0.3); p.bufsz = 1 + wsize(5000);
    p.tmo = p.how_end == 3 ? 50 + wl(3000) : 0;
    if(p.tmo) { p.nb = false; p.manual = false; }
    return p;
}
void accessors(fr::HttpRequest &r) { r.get_uri(); r.get_body(); r.get_type(); r.get_version(); r.header_exists("a"); r.header("content-length"); r.get_exists("a"); r.post("b"); r.construct("host"); }
void accessors(fr::HttpResponse &r) { r.get_status(); r.get_body(); r.header("content-length"); r.construct("host"); }
template<class H> St one_http(fr::Socket &s, const Plan &p, size_t &body)
{
    H h; St st = http_recv(s, h, p.manual, p.bufsz);
    body = h.get_body().size();
    accessors(h);
    return st;
}
}

SCENARIO(S07)
{
    sched_mode();
    Scripted sp; make_scripted(sp);
    Plan p = make_plan();
    swarm({{F_RECV_EINTR, 0.25}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_RESET, wchance(0.2) ? 0.01 : 0}, {F_CPU_STALL, 0.01}});
    fr::TcpSocket &s = *sp.sock; int fd = s.get_socket_descriptor();
    bool http = p.kind >= K_REQUEST;
    uint32_t limit = 1 + wl(70000); bool unlimited = !http && wchance(0.4); // (the default)
    if(unlimited) { limit = (uint32_t)p.bytes.size(); if(wchance(0.5)) s.set_max_receive_size(0); probe("no receive limit"); }
    else s.set_max_receive_size(limit);
    if(p.tmo) s.set_receive_timeout(p.tmo);
    if(p.nb) s.set_blocking(false);
    const size_t HL = MAX_HTTP_HEADER_SIZE, BL = MAX_HTTP_BODY_SIZE;
    set_alloc_limit(http ? 3 * (HL + BL) + 65536 : 2 * limit + (unlimited ? 262144 : 65536), http ? 8 * (HL + BL) + 262144 : 4 * limit + (unlimited ? 1048576 : 262144));
    note("%s, %zu bytes, limit %u, end %d, nb %d, manual %d", kind_names[p.kind], p.bytes.size(), limit, p.how_end, (int)p.nb, (int)p.manual);
    SockP peer = sp.peer; Plan *pp = &p;
    bool stop = false; bool *pstop = &stop;
    int t = spawn("peer", [peer, pp, pstop] {
        std::string &w = pp->bytes; size_t at = 0; int n = 0;
        if(wchance(0.5)) xsegment(peer, wcuts(w.size(), std::min<size_t>(w.size(), 40)));
        while(at < w.size() && !*pstop)
        {
            size_t k = w.size() - at;
            if(n++ < 20 && wchance(0.5)) k = std::min(k, wsize(k));
            if(!xsend(peer, w.data() + at, k, now() + 900 * SEC)) return;
            at += k;
            if(at < w.size() && wchance(0.3)) sleep_ns((ns)wl(20) * 5 * MS);
        }
        if(wchance(0.3)) sleep_ns((ns)wl(20) * 20 * MS);
        if(pp->how_end == 0) xshutdown(peer); else if(pp->how_end == 1) xclose(peer); else if(pp->how_end == 2) xreset(peer);
    });
    int calls = 0, idles = 0; ns since = now();
    for(;;)
    {
        uint64_t r0 = fd_read(fd); St st; size_t body = 0;
        try
        {
            switch(p.kind)
            {
                case K_PACKET: { fr::Packet x; st = LIB(s.receive(x)); body = x.size(); break; }
                case K_WS_SERVER: { fr::ServerWebFrame f; st = LIB(s.receive(f)); body = f.get_payload().size(); break; }
                case K_WS_CLIENT: { fr::ClientWebFrame f; st = LIB(s.receive(f)); body = f.get_payload().size(); break; }
                case K_REQUEST: st = one_http<fr::HttpRequest>(s, p, body); break;
                default: st = one_http<fr::HttpResponse>(s, p, body); break;
            }
        }
        catch(const std::exception &e) { fail("exception", "receiving a %s let an exception escape: %s", kind_names[p.kind], e.what()); }
        uint64_t used = fd_read(fd) - r0;
        nontrivial();
        if((int)st < 1 || (int)st > 21 || st == St::NotEnoughData) fail("status", "receiving a %s ended with %s (%d)", kind_names[p.kind], sname(st), (int)st);
        if(http && used > HL + BL + 4 * 4096 + 4096) fail("bloat", "%llu bytes were taken in for one %s", (unsigned long long)used, kind_names[p.kind]);
        if(st == St::Success)
        {
            if(http && p.expect_refusal) fail("limit", "a %s beyond the limits (%zu bytes) was received", kind_names[p.kind], p.bytes.size());
            if(http && body > BL) fail("limit", "a %s with a body of %zu bytes was received", kind_names[p.kind], body);
            if(!http && body > limit) fail("limit", "a %s of %zu bytes was received, the limit is %u", kind_names[p.kind], body, limit);
            if(used == 0) fail("phantom", "a %s was received out of nothing", kind_names[p.kind]);
            idles = 0;
            if(++calls > 400) break;
            continue;
        }
        if(idle(st))
        {
            if(used) fail("idle-consumed", "%s after consuming %llu bytes", sname(st), (unsigned long long)used);
            if(p.tmo) { if(finished(t) && ++idles > 3) break; continue; }
            if(!p.nb) fail("status", "%s on a blocking socket without a timeout", sname(st));
            backoff(++idles);
            if(idles > 200 && finished(t)) fail("status", "the stream has ended but the receive still says %s", sname(st));
            continue;
        }
        if(p.expect_refusal && http) probe("over-limit message refused");
        break;
    }
    (void)since;
    stop = true;
    LIBV((s.disconnect(), 0));
    xclose(peer); join(t);
    quiesce();
    set_alloc_limit(0, 0);
    // somebody else's connection
    TcpPair q; make_pair(q, "9300");
    int t2 = spawn("other", [&q] { fr::Packet x; x << std::string("still") << (uint32_t)7; if(LIB(q.a->send(x)) != St::Success) fail("aftermath", "a later connection cannot send"); fr::HttpRequest r; r.set_uri("/after"); if(LIB(q.a->send(r)) != St::Success) fail("aftermath", "a later connection cannot send"); });
    fr::Packet x; std::string a; uint32_t b = 0;
    if(LIB(q.b->receive(x)) != St::Success) fail("aftermath", "a later connection cannot receive");
    x >> a >> b;
    fr::HttpRequest r;
    if(a != "still" || b != 7 || LIB(q.b->receive(r)) != St::Success || r.get_uri() != "/after") fail("aftermath", "a later connection receives something else");
    join(t2);
}
