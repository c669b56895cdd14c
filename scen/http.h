// Shared by S05 and S06: HTTP messages from a scripted conforming peer or from the library itself, received by the library.
#pragma once
#include "msg.h"

template<class H> struct HttpKind;
template<> struct HttpKind<fr::HttpRequest> { static Kind pick_kind() { return K_REQUEST; } };
template<> struct HttpKind<fr::HttpResponse> { static Kind pick_kind() { return wchance(0.5) ? K_RESPONSE : K_CHUNKED; } };

// What the library is asked to send for m; the wire form is the library's business.
static inline void build(fr::HttpRequest &r, Msg &m)
{
    r.set_type(m.type); r.set_uri(m.uri);
    r.set_version(m.v10 ? fr::Http::RequestVersion::V1 : fr::Http::RequestVersion::V1_1);
    for(auto &x : m.headers) r.header(x.first) = x.second;
    for(auto &x : m.get) r.get(x.first) = x.second;
    if(!m.form.empty()) { for(auto &x : m.form) r.post(x.first) = x.second; m.lib_form = true; }
    else r.set_body(m.payload);
}
static inline void build(fr::HttpResponse &r, Msg &m)
{
    r.set_status((fr::Http::RequestStatus)m.status);
    r.set_version(m.v10 ? fr::Http::RequestVersion::V1 : fr::Http::RequestVersion::V1_1);
    for(auto &x : m.headers) r.header(x.first) = x.second;
    r.set_body(m.payload);
}
// One message through Socket::receive or through an application's own receive_raw/parse loop.
template<class H> St http_recv(fr::Socket &s, H &h, bool manual, size_t bufsz)
{
    if(!manual) return LIB(s.receive(h));
    std::string buf(bufsz, 0); size_t total = 0; int idles = 0;
    for(;;)
    {
        size_t got = 0;
        St st = LIB(s.receive_raw(&buf[0], buf.size(), got));
        if(st != St::Success)
        {
            if(idle(st) && total) { backoff(++idles); continue; }
            return st;
        }
        idles = 0; total += got;
        st = LIB(h.parse(buf.data(), got));
        if(st != St::NotEnoughData) return st;
    }
}
struct HttpRun
{
    std::shared_ptr<fr::TcpSocket> rx, tx; SockP peer; // tx for library senders, peer for scripted ones
    std::vector<Msg> msgs; int done = 0; bool stop = false;
    int cut_msg = -1; size_t cut_at = 0; int cut_how = 0; bool ended = false;
    std::string tail; // follows the last message on the wire
};
static inline void http_scripted_sender(HttpRun &h)
{
    for(size_t i = 0; i < h.msgs.size() && !h.stop; ++i)
    {
        const Msg &m = h.msgs[i]; std::string w = m.wire; bool last = i + 1 == h.msgs.size();
        if((int)i == h.cut_msg) w = w.substr(0, h.cut_at);
        else if(last) w += h.tail;
        if(wchance(0.5)) xsegment(h.peer, wcuts(w.size(), m.body_at));
        size_t at = 0; int n = 0;
        while(at < w.size())
        {
            size_t k = w.size() - at;
            if(n++ < 12 && wchance(0.4)) k = std::min(k, m.body_at > at && wchance(0.3) ? std::max<size_t>(1, m.body_at - at - 3 + wl(6)) : wsize(k));
            if(!xsend(h.peer, w.data() + at, k, now() + 900 * SEC)) return;
            at += k;
            if(at < w.size() && wchance(0.3)) sleep_ns((ns)wl(30) * 10 * MS);
        }
        if((int)i == h.cut_msg)
        {
            if(h.cut_how == 0) xshutdown(h.peer); else if(h.cut_how == 1) xclose(h.peer); else xreset(h.peer);
            h.ended = true; return;
        }
        HttpRun *p = &h; int k = (int)i;
        block_until([p, k] { return p->done > k || p->stop; }, now() + 3000 * SEC, "turn");
    }
}
template<class H> void http_lib_sender(HttpRun &h)
{
    for(size_t i = 0; i < h.msgs.size() && !h.stop; ++i)
    {
        H r; build(r, h.msgs[i]);
        St st = LIB(h.tx->send(r));
        if(st != St::Success) fail("send", "sending an HTTP message on a healthy connection returned %s", sname(st));
        HttpRun *p = &h; int k = (int)i;
        block_until([p, k] { return p->done > k || p->stop; }, now() + 3000 * SEC, "turn");
    }
}
template<class H> void http_body()
{
    sched_mode();
    HttpRun h; Scripted sp; TcpPair tp;
    bool by_lib = wchance(0.35);
    if(by_lib) { if(wchance(0.5)) { static const size_t caps[] = {500, 1500, 5000}; next_connect_cap(caps[wl(3)]); } make_pair(tp); h.tx = tp.a; h.rx = tp.b; if(wchance(0.3)) h.tx->set_blocking(false); }
    else { make_scripted(sp); h.rx = sp.sock; h.peer = sp.peer; }
    int n = 1 + (int)wl(3);
    for(int i = 0; i < n; ++i)
    {
        static const size_t big[] = {32768, 65535, 65536, 70000, MAX_HTTP_BODY_SIZE};
        Kind k = HttpKind<H>::pick_kind();
        size_t sz = wchance(0.25) ? 0 : wchance(0.1) ? (k == K_CHUNKED ? 20000 + (wchance(0.5) ? 46000 + wl(10000) : 0) : big[wl(5)]) : wsize(wchance(0.2) ? 20000 : 600);
        if(by_lib && k == K_CHUNKED) k = K_RESPONSE;
        h.msgs.push_back(make_msg(k, 500 + i, sz));
    }
    bool chunked = h.msgs.back().kind == K_CHUNKED;
    if(!by_lib)
    {
        if(wchance(0.3)) { h.cut_msg = (int)wl(n); const Msg &m = h.msgs[h.cut_msg]; h.cut_how = (int)wl(3);
            switch(wl(4)) { case 0: h.cut_at = wl((uint32_t)m.wire.size()); break; case 1: h.cut_at = m.wire.size() - 1 - wl(std::min<uint32_t>(6, (uint32_t)m.wire.size() - 1)); break; case 2: h.cut_at = std::min(m.body_at, m.wire.size() - 1); break; case 3: h.cut_at = std::min(m.body_at + wl(8), m.wire.size() - 1); break; } }
        else if(h.msgs.back().declared && wchance(0.4))
        { // the next message follows closely; it belongs to whoever reads on, not to this body
            h.tail = wchance(0.5) ? make_msg(h.msgs.back().kind, 600, wsize(chunked ? 200 : 3000)).wire : patstr(600, 0, wsize(chunked ? 200 : 3000));
        }
    }
    bool manual = wchance(0.35); size_t bufsz = 16 + wsize(wchance(0.4) ? 40000 : 5000);
    int mode = (int)wl(3); // blocking, non-blocking, with a timeout longer than any delay here
    if(mode == 1 && h.rx->set_blocking(false) != St::Success) fail("setup", "set_blocking");
    if(mode == 2) h.rx->set_receive_timeout(3600 * 1000);
    swarm({{F_RECV_EINTR, 0.25}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_CPU_STALL, 0.01}});
    note("%s sender, %d messages, first %s of %zu bytes, cut %d at %zu, tail %zu, mode %d, manual %d/%zu", by_lib ? "library" : "scripted", n, kind_names[h.msgs[0].kind], h.msgs[0].wire.size(), h.cut_msg, h.cut_at, h.tail.size(), mode, (int)manual, bufsz);
    HttpRun *p = &h;
    int t = spawn("sender", [p, by_lib] { if(by_lib) http_lib_sender<H>(*p); else http_scripted_sender(*p); });
    int fd = h.rx->get_socket_descriptor(), idles = 0;
    uint64_t start = fd_read(fd);
    for(int i = 0; i < n;)
    {
        H r; const Msg &m = h.msgs[i];
        St st = http_recv(*h.rx, r, manual, bufsz);
        if(idle(st))
        {
            if(mode != 1) fail("status", "%s on a blocking socket", sname(st));
            backoff(++idles); continue;
        }
        idles = 0;
        if(st != St::Success)
        {
            if(i == h.cut_msg || (h.ended && h.cut_how >= 1)) { probe("cut message refused"); nontrivial(); break; }
            fail("refused", "a valid %s (%zu bytes, body %zu) was answered with %s", kind_names[m.kind], m.wire.size(), m.payload.size(), sname(st));
        }
        uint64_t used = fd_read(fd) - start;
        if(i == h.cut_msg) fail("partial-success", "a %s of which only %zu of %zu bytes were ever sent was reported as received", kind_names[m.kind], h.cut_at, m.wire.size());
        if(!by_lib && used < m.wire.size()) fail("early", "a %s of %zu bytes was reported complete after %llu", kind_names[m.kind], m.wire.size(), (unsigned long long)used);
        std::string d = http_diff(r, m);
        if(!d.empty()) fail("wrong-message", "%s %d: %s", kind_names[m.kind], i, d.c_str());
        if(!h.tail.empty() && i + 1 == n && used > m.wire.size()) probe("next message in the same read");
        start = fd_read(fd);
        h.done = ++i; nontrivial();
    }
    h.stop = true;
    LIBV((h.rx->disconnect(), 0));
    join(t);
}
