// S04: the receive size limit.
#include "msg.h"

namespace {
struct Conn
{
    int id; Scripted p; Kind kind; uint32_t limit; uint32_t limit2; int change_at = -1; // limit2 applies from message change_at on
    std::vector<Msg> ok; bool oversize = false; uint64_t declared = 0; std::string head; bool nb = false, reuse = false;
    uint32_t limit_at(int i) const { return change_at >= 0 && i >= change_at ? limit2 : limit; }
};
uint32_t wlimit()
{
    static const uint32_t l[] = {0, 1, 2, 10, 100, 124, 125, 126, 127, 1000, 4096, 65534, 65535, 65536, 65537, 100000, 0x7fffffff, 0x80000000u, 0xffffffffu};
    return wchance(0.25) ? 1 + wl(5000) : l[wl(19)];
}
size_t wfit(uint32_t limit) // a payload size the limit allows, biased to the limit itself
{
    size_t top = limit == 0 || limit > 150000 ? 150000 : limit;
    switch(wl(4)) { case 0: return top > 70000 && !wchance(0.2) ? wsize(2000) : top; case 1: return top > 1 && top < 70000 ? top - 1 : 1; case 2: return 0; default: return std::min(top, wsize(std::min<size_t>(top, 70000))); }
}
void peer(Conn &c)
{
    std::string all;
    for(auto &m : c.ok) all += m.wire;
    size_t hot = all.size();
    if(c.oversize) { all += c.head; all += patstr(99, 0, wl(200)); }
    if(wchance(0.5)) xsegment(c.p.peer, wcuts(all.size(), hot));
    size_t at = 0; int n = 0;
    while(at < all.size())
    {
        size_t k = all.size() - at;
        if(n++ < 10 && wchance(0.5)) k = std::min(k, at < hot && wchance(0.5) ? hot - at + wl(12) : wsize(k)); // cuts inside the offending header
        if(k == 0) k = 1;
        if(!xsend(c.p.peer, all.data() + at, k, now() + 900 * SEC)) return;
        at += k;
        if(wchance(0.3)) sleep_ns((ns)wl(20) * 10 * MS);
    }
}
void reader(Conn &c)
{
    fr::TcpSocket &s = *c.p.sock;
    Receiver r; r.reuse = c.reuse; std::string diff; int idles = 0;
    for(size_t i = 0; i < c.ok.size();)
    {
        if((int)i == c.change_at) s.set_max_receive_size(c.limit2);
        St st = r.recv(s, c.ok[i], diff);
        if(idle(st) && c.nb) { backoff(++idles); continue; }
        idles = 0;
        uint32_t lim = c.limit_at((int)i);
        if(st != St::Success) fail("refused", "connection %d: a %s of %zu bytes was refused with %s although the limit is %u", c.id, kind_names[c.kind], c.ok[i].payload.size(), sname(st), lim);
        if(!diff.empty()) fail("wrong-message", "connection %d: %s", c.id, diff.c_str());
        if(s.get_max_receive_size() != lim) fail("limit", "the limit of connection %d reads %u instead of %u", c.id, s.get_max_receive_size(), lim);
        if(lim && c.ok[i].payload.size() == lim) probe("message of exactly the limit");
        ++i;
        nontrivial();
    }
    if(c.oversize)
    {
        uint32_t lim = c.limit_at((int)c.ok.size());
        if((int)c.ok.size() == c.change_at) s.set_max_receive_size(c.limit2);
        Msg m; m.kind = c.kind; St st; idles = 0;
        do { st = r.recv(s, m, diff); if(idle(st)) backoff(++idles); } while(idle(st) && c.nb);
        if(st != St::MaxPacketSizeExceeded) fail("not-refused", "connection %d: a %s declared as %llu bytes was answered with %s although the limit is %u", c.id, kind_names[c.kind], (unsigned long long)c.declared, sname(st), lim);
        probe("oversize message refused");
        nontrivial();
    }
}
}

SCENARIO(S04)
{
    sched_mode();
    Conn c[2]; int n = wchance(0.4) ? 2 : 1;
    size_t biggest = 0;
    for(int i = 0; i < n; ++i)
    {
        Conn &k = c[i]; k.id = i;
        k.kind = (Kind)wl(3); k.limit = wlimit(); k.reuse = wchance(0.5);
        int cnt = (int)wl(4);
        if(cnt && wchance(0.3)) { k.change_at = (int)wl(cnt + 1); k.limit2 = wlimit(); }
        for(int j = 0; j < cnt; ++j) k.ok.push_back(make_msg(k.kind, 40 + i * 10 + j, wfit(k.limit_at(j))));
        uint32_t lim = k.limit_at(cnt);
        uint64_t top = k.kind == K_PACKET ? 0xffffffffull : ~0ull;
        if(lim && lim < top && !wchance(0.2))
        {
            k.oversize = true;
            uint64_t d;
            switch(wl(8))
            {
                case 0: d = (uint64_t)lim + 1; break;
                case 1: d = (uint64_t)lim + 1 + wl(1000); break;
                case 2: d = (uint64_t)lim * 2; break;
                case 3: d = (uint64_t)lim + 65536; break;
                case 4: d = 0xffffffffull - wl(3); break;
                case 5: d = k.kind == K_PACKET ? 0x80000000ull : ((uint64_t)(1 + wl(0x7fffffff)) << 32) + wl(lim); break; // the low half alone would be fine
                case 6: d = k.kind == K_PACKET ? 0x7fffffffull : 1ull << 63 | wl(lim); break;
                default: d = top - wl(2); break;
            }
            if(d > top) d = top;
            if(d <= lim) d = (uint64_t)lim + 1;
            k.declared = d;
            if(k.kind == K_PACKET) k.head = be(d, 4);
            else
            {
                static const int ops[] = {2, 1, 0, 8, 9, 10};
                std::string h(1, (char)((wchance(0.35) ? 0 : 0x80) | ops[wl(6)])); int m = k.kind == K_WS_SERVER ? 0x80 : 0;
                if(d < 126) h += (char)(m | d);
                else if(d < 65536) { h += (char)(m | 126); h += be(d, 2); }
                else { h += (char)(m | 127); h += be(d, 8); }
                if(m) h += be(wl(0xffffffff), 4);
                k.head = h;
            }
        }
        for(auto &m : k.ok) biggest = std::max(biggest, m.payload.size());
        bool before = wchance(0.5);
        k.p.sock = std::make_shared<fr::TcpSocket>();
        if(before) k.p.sock->set_max_receive_size(k.limit);
        make_scripted(k.p, i ? "9101" : "9100");
        if(!before) k.p.sock->set_max_receive_size(k.limit);
        k.nb = wchance(0.3);
        if(k.nb) k.p.sock->set_blocking(false);
        note("connection %d: %s, limit %u, %d messages, oversize %llu", i, kind_names[k.kind], k.limit, cnt, (unsigned long long)k.declared);
    }
    swarm({{F_RECV_EINTR, 0.25}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.4}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_CPU_STALL, 0.01}});
    set_alloc_limit(2 * biggest + 16384, 0); // what an accepted message may need; anything of a refused length is beyond it (or small)
    std::vector<int> t;
    for(int i = 0; i < n; ++i)
    {
        Conn *k = &c[i];
        t.push_back(spawn("peer" + std::to_string(i), [k] { peer(*k); }));
        t.push_back(spawn("reader" + std::to_string(i), [k] { reader(*k); }));
    }
    for(int x : t) join(x);
}
