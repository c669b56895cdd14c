// S23: fetching a URL. The HTTP client and server programs of the examples, unmodified, against each other and against other servers and clients.
#include "wsutil.h"
#include <frnetlib/URL.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/TcpListener.h>
#include <iostream>
#include <sstream>
struct Console { std::istringstream in; std::ostringstream out, err; };
static thread_local Console *console; // every simulated program has its own
namespace std { static istream &sim_in() { return console->in; } static ostream &sim_out() { return console->out; } static ostream &sim_err() { return console->err; } }
#define cin sim_in()
#define cout sim_out()
#define cerr sim_err()
int main() __asm__("example_client_main"); // still main to the compiler, so that it may end without a return
#include <examples/simple_http_server_and_client/SimpleHttpClient.cpp>
#define main server_main
#include <examples/simple_http_server_and_client/SimpleHttpServer.cpp>
#undef main
#undef cin
#undef cout
#undef cerr
extern "C" int client_main() __asm__("example_client_main");

namespace {
const ns LONG = 20 * 3600 * SEC; // for what a slow link may hold up
const std::string PAGE = "<h1>Hello, World!</h1>", PROMPT = "Enter URL: ";
struct Link { std::string text, host, port, path, query, fragment; };
std::string word(const char *alphabet, size_t min, size_t max) { std::string s; size_t n = min + wl((uint32_t)(max - min + 1)), k = strlen(alphabet); while(s.size() < n) s += alphabet[wl((uint32_t)k)]; return s; }
// a URL whose parts are known
Link make_link(const std::string &host, uint16_t port, const char *scheme, bool name_port)
{
    Link l; l.host = host; l.port = std::to_string(port);
    if(*scheme) { l.text = scheme; if(wchance(0.2)) for(auto &c : l.text) if(wchance(0.5)) c = (char)toupper(c); l.text += "://"; }
    l.text += host; if(name_port) l.text += ":" + l.port;
    bool slash = !wchance(0.2);
    if(slash) { l.path = "/"; for(int k = (int)wl(4); k > 0; --k) l.path += word(k == 1 ? "abcXYZ019-._~:@%+,;=!$'()*&" : "abcXYZ019-._~%+", wchance(0.08) ? 0 : 1, 6) + (k > 1 || wchance(0.3) ? "/" : ""); }
    if(wchance(0.4)) { for(int k = 1 + (int)wl(3); k > 0; --k) l.query += (l.query.empty() ? "" : "&") + word("abcxyz", 1, 4) + "=" + word("abcXYZ019-._~%+:/?@,", 1, 8); static const char *const more[] = {"&at=10:30", "&to=/a/b", "&to=http://other.test:81/b?c", "&a=b&&c"}; if(wchance(0.4)) l.query += more[wl(4)]; }
    if(wchance(0.2)) l.fragment = word("abcxyz019/?:#&", 1, 6);
    l.text += l.path + (l.query.empty() ? "" : "?" + l.query) + (l.fragment.empty() ? "" : "#" + l.fragment);
    return l;
}
const char *default_scheme(uint16_t port) { switch(port) { case 80: return "http"; case 443: return "https"; case 21: return "ftp"; case 22: return "sftp"; case 6697: return "irc"; default: return ""; } }
struct Site { std::string host, ip; SockP l; uint16_t port; int served = 0; };
enum How { H_FULL, H_CUT, H_JUNK, H_N };
// one connection of a site: judges the request, then answers it
void serve(SockP p, const Link *l, const Msg *m, How how, bool *asked)
{
    std::string h = x_read_header(p, now() + LONG);
    if(h.empty()) { xclose(p); fail("request", "no complete request arrives for %s", l->text.c_str()); }
    std::string line = h.substr(0, h.find("\r\n")), want = "GET " + (l->path.empty() ? "/" : l->path) + (l->query.empty() ? "" : "?" + l->query);
    std::string w1 = want + " HTTP/1.1", w2 = want + "#" + l->fragment + " HTTP/1.1";
    if(line != w1 && (l->fragment.empty() || line != w2)) fail("request", "fetching %s asks for '%s'", l->text.c_str(), line.c_str());
    std::string host = x_header(h, "host");
    if(host != l->host + ":" + l->port && (host != l->host || l->port != "80")) fail("request", "fetching %s names the host '%s'", l->text.c_str(), host.c_str());
    *asked = true;
    std::string w = m->wire;
    if(how == H_CUT) w.resize(wchance(0.5) ? wl((uint32_t)w.size()) : w.size() - 1 - wl((uint32_t)std::min<size_t>(4, w.size() - 1)));
    if(how == H_JUNK) w = (wchance(0.5) ? "220 ready\r\n\r\n" : "SSH-2.0-x\r\n") + patstr(77, 0, wl(200));
    if(wchance(0.5)) xsegment(p, wcuts(w.size(), m->body_at));
    size_t at = 0; int n = 0;
    while(at < w.size())
    {
        size_t k = w.size() - at; if(n++ < 10 && wchance(0.4)) k = wsize(k);
        if(!xsend(p, w.data() + at, k, now() + LONG)) break;
        at += k; if(at < w.size() && wchance(0.3)) sleep_ns((ns)wl(300) * 10 * MS);
    }
    if(how == H_CUT && wchance(0.3)) { if(wchance(0.5)) sleep_ns(100 * SEC); xreset(p); return; }
    if(how == H_FULL) { char b[100]; bool to = false; if(xrecv(p, b, sizeof b, now() + LONG, &to)) fail("request", "more bytes behind the request"); if(to) fail("left-open", "the client keeps its connection after the response"); }
    xclose(p);
}
// runs the client program; true if it printed a page
bool fetch(const std::string &url, std::string &page, std::string &err)
{
    Console c; c.in.str(url + "\n"); console = &c;
    { Lib l; client_main(); }
    console = nullptr;
    std::string o = c.out.str(); err = c.err.str();
    if(o.compare(0, PROMPT.size(), PROMPT)) fail("output", "the client printed '%s'", o.substr(0, 60).c_str());
    o.erase(0, PROMPT.size());
    if(o.empty()) { if(err.empty()) fail("output", "the client says neither what it got nor why it failed for %s", url.c_str()); return false; }
    if(!err.empty()) fail("output", "the client printed a page as well as '%s'", err.c_str());
    if(o.back() != '\n') fail("output", "the page doesn't end with the line");
    o.pop_back(); page = o;
    return true;
}
// the parts of a link as the library sees them
void same_parts(const fr::URL &u, const Link &l, const char *how)
{
    std::string path = l.path.empty() && (!l.query.empty() || !l.fragment.empty()) ? "/" : l.path, got = u.get_path();
    if(got == "" && path == "/") got = "/";
    if(u.get_host() != l.host || u.get_port() != l.port || got != path || u.get_query() != l.query || u.get_fragment() != l.fragment)
        fail("parts", "%s, %s has host '%s' port '%s' path '%s' query '%s' fragment '%s'", how, l.text.c_str(), u.get_host().c_str(), u.get_port().c_str(), u.get_path().c_str(), u.get_query().c_str(), u.get_fragment().c_str());
}
// a program that follows redirections, with one URL, one socket and one request for all of them
void crawler(int i, const std::vector<Site *> *sites)
{
    fr::URL u; fr::TcpSocket c; fr::HttpRequest q; Link l; Site *at = nullptr;
    int hops = 2 + (int)wl(5); bool blocking = wchance(0.7), fresh = wchance(0.3);
    for(int k = 0; k < hops; ++k)
    {
        Link n; bool relative = at && wchance(0.35);
        if(!relative) at = (*sites)[wl((uint32_t)sites->size())];
        const char *scheme = default_scheme(at->port); bool named = !*scheme || wchance(0.3);
        if(named && wchance(0.3)) scheme = wchance(0.7) ? "http" : "";
        n = make_link(at->host, at->port, scheme, named);
        if(relative) { while(!n.path.compare(0, 2, "//")) n.path.erase(0, 1); if(n.path.empty()) n.path = "/"; n.text = n.path + (n.query.empty() ? "" : "?" + n.query) + (n.fragment.empty() ? "" : "#" + n.fragment); }
        l = n;
        if(!relative && wchance(0.2)) // a link that leads nowhere
        {
            Link o = make_link(at->host, 0, wchance(0.3) ? "other" : "", false); o.port = "";
            if(o.text != o.host) { LIBV(u.parse(o.text)); same_parts(u, o, "parsed"); }
        }
        {
            Lib lib;
            if(relative) { fr::URL r(l.text); if(!r.get_host().empty()) fail("parts", "%s has the host '%s'", l.text.c_str(), r.get_host().c_str()); u.set_path(r.get_path()); u.set_query(r.get_query()); u.set_fragment(r.get_fragment()); }
            else u.parse(l.text);
        }
        same_parts(u, l, relative ? "relative to the last one" : "parsed");
        { fr::URL v; { Lib lib; v.parse(u.get_url()); } if(!(v == u)) same_parts(v, l, "written out and parsed again"); }
        { // put together instead of parsed, in memory that was something else before
            alignas(fr::URL) char mem[sizeof(fr::URL)]; memset(mem, (int)wl(3), sizeof mem); fr::URL *w = new(mem) fr::URL; bool ok;
            { Lib lib; w->set_host(l.host); w->set_port(l.port); w->set_path(u.get_path()); w->set_query(l.query); w->set_fragment(l.fragment); fr::URL v(w->get_url()); ok = v == *w; if(!ok) same_parts(v, l, "put together from its parts"); }
            if(!ok) fail("parts", "put together from its parts, %s is %s", l.text.c_str(), w->get_url().c_str());
            w->~URL();
        }
        Msg m; m.wire = "HTTP/1.1 302 Found\r\nLocation: next" + std::to_string(k) + "\r\nContent-Length: 0\r\n\r\n"; m.body_at = m.wire.size();
        bool asked = false, *pa = &asked; Link *pl = &l; Msg *pm = &m; SockP ls = at->l;
        int t = spawn("site", [=] { SockP p = xaccept(ls, now() + LONG); if(p) serve(p, pl, pm, H_FULL, pa); else fail("request", "nobody connects to %s port %s for %s", pl->host.c_str(), pl->port.c_str(), pl->text.c_str()); });
        St st = LIB(c.connect(u.get_host(), u.get_port(), {}));
        if(st != St::Success) fail("failed", "connecting for %s: %s", l.text.c_str(), sname(st));
        if(!blocking) c.set_blocking(false);
        if(fresh) q = fr::HttpRequest();
        { Lib lib; q.set_uri(u.get_uri().empty() ? "/" : u.get_uri()); } // (an empty one changes nothing)
        st = LIB(c.send(q)); if(st != St::Success) fail("failed", "sending the request for %s: %s", l.text.c_str(), sname(st));
        fr::HttpResponse r; int idles = 0;
        while((st = LIB(c.receive(r))) == St::WouldBlock && !blocking) backoff(++idles);
        if(st != St::Success) fail("failed", "receiving the response for %s: %s", l.text.c_str(), sname(st));
        if((int)r.get_status() != 302 || r.header("location") != "next" + std::to_string(k)) fail("page", "the redirection for %s is '%s'", l.text.c_str(), r.header("location").c_str());
        LIBV((c.disconnect(), 0)); join(t);
        note("%s followed", l.text.c_str()); nontrivial(); probe("redirection followed");
        if(wchance(0.3)) sleep_ns((ns)wl(3000) * MS);
    }
}
void fetcher(int i, const std::vector<Site *> *sites)
{
    int rounds = 1 + (int)wl(4);
    for(int k = 0; k < rounds; ++k)
    {
        int what = (int)wl(10); std::string page, err; ns t0 = now();
        if(what < 6) // one of the sites of this client
        {
            Site &s = *(*sites)[wl((uint32_t)sites->size())];
            const char *scheme = default_scheme(s.port); bool dflt = *scheme;
            if(!dflt) scheme = wchance(0.5) ? "http" : wchance(0.2) ? "other" : "";
            else if(wchance(0.2)) scheme = s.port == 80 ? "https" : "http", dflt = false;
            Link l = make_link(wchance(0.2) ? s.ip : s.host, s.port, scheme, !dflt || wchance(0.3));
            How how = wchance(0.7) ? H_FULL : (How)(1 + wl(H_N - 1));
            Msg m = make_msg(wchance(0.6) ? K_RESPONSE : K_CHUNKED, 800 + 10 * i + k, wsize(wchance(0.1) ? 30000 : 600));
            bool asked = false, *pa = &asked; Link *pl = &l; Msg *pm = &m; SockP ls = s.l; bool over = false, *po = &over;
            int t = spawn("site", [=] { SockP p = xaccept(ls, now() + LONG); if(p) serve(p, pl, pm, how, pa); else if(!*po) fail("request", "nobody connects to %s port %s for %s", pl->host.c_str(), pl->port.c_str(), pl->text.c_str()); });
            bool ok = fetch(l.text, page, err); over = true; join(t);
            note("%s -> %s", l.text.c_str(), ok ? "page" : err.c_str());
            if(ok && !asked) fail("invented", "fetching %s yields a page that nobody sent", l.text.c_str());
            if(how == H_FULL && !ok) fail("failed", "fetching %s failed: %s", l.text.c_str(), err.c_str());
            if(how == H_FULL && page != m.payload) fail("page", "fetching %s yields another page: %s", l.text.c_str(), first_diff(page, m.payload).c_str());
            if(how != H_FULL && ok) fail("page", "fetching %s yields a page of %zu bytes although the response was %s", l.text.c_str(), page.size(), how == H_CUT ? "cut off" : "nonsense");
            nontrivial(); probe(how == H_FULL ? "fetched" : how == H_CUT ? "cut-off response" : "nonsense response");
        }
        else if(what < 8) // the server program
        {
            Link l = make_link(wchance(0.5) ? "home.test" : "10.0.0.1", 8081, wchance(0.5) ? "http" : "", true);
            if(!fetch(l.text, page, err)) fail("failed", "fetching %s failed: %s", l.text.c_str(), err.c_str());
            if(page != PAGE) fail("page", "the server program answers '%s'", page.c_str());
            nontrivial(); probe("client and server program");
        }
        else // nobody
        {
            static const char *const bad[] = {"http://refuses.test/a", "http://unknown.test/", "refuses.test:81/x?y=1", "http://silent.test:90/"};
            const char *u = bad[wl(4)];
            if(fetch(u, page, err)) fail("invented", "fetching %s yields '%s'", u, page.substr(0, 40).c_str());
            if(now() - t0 > 60 * SEC + stalled()) fail("slow", "fetching %s took %.1fs to fail", u, (now() - t0) / 1e9);
            probe("nobody there");
        }
        if(wchance(0.3)) sleep_ns((ns)wl(3000) * MS);
    }
}
// clients of the server program
void visitor(int i)
{
    SockP s; std::string src = "10.4." + std::to_string(i) + ".1"; char b[600];
    for(int k = 0; k < 100 && !s; ++k) { s = xconnect("10.0.0.1", 8081, src, now() + 30 * SEC); if(!s) sleep_ns(SEC); }
    if(!s) fail("not-accepting", "the server program does not take connections");
    Msg m = make_msg(K_REQUEST, 60 + i, wchance(0.4) ? 0 : wsize(wchance(0.15) ? 30000 : 600));
    switch(wl(6))
    {
        case 0: case 1: case 2:
        {
            const std::string &w = m.wire; size_t at = 0; int n = 0, style = (int)wl(3);
            while(at < w.size())
            {
                size_t k = w.size() - at; if(n++ < 20 && style) k = style == 1 ? 1 : wsize(k);
                if(!xsend(s, w.data() + at, k, now() + LONG)) fail("broken", "the server broke the connection inside a request");
                at += k; if(at < w.size() && wchance(0.5)) sleep_ns((ns)wl(500) * MS);
            }
            std::string h = x_read_header(s, now() + LONG), body;
            if(h.compare(0, 12, "HTTP/1.1 200")) fail("unanswered", "the server program answers '%s'", h.substr(0, 40).c_str());
            if(x_header(h, "content-length") != std::to_string(PAGE.size()) || !xread_exact(s, body, PAGE.size(), now() + LONG) || body != PAGE) fail("unanswered", "the server program's response carries '%s' bytes: '%s'", x_header(h, "content-length").c_str(), body.c_str());
            bool to = false; size_t g = xrecv(s, b, sizeof b, now() + LONG, &to);
            if(g) fail("extra", "more bytes behind the response");
            if(to) fail("left-open", "the server program keeps the connection after its response");
            nontrivial(); probe("visitor served"); break;
        }
        case 3: if(wchance(0.5)) sleep_ns((ns)wl(2000) * US); if(wchance(0.5)) { xreset(s); probe("gone at once"); return; } probe("gone at once"); break;
        case 4: { size_t cut = wl((uint32_t)m.wire.size()); xsend(s, m.wire.data(), cut, now() + LONG); sleep_ns((ns)wl(4000) * MS); probe("gone inside the request"); if(wchance(0.4)) { xreset(s); return; } break; }
        default:
        {
            std::string d = patstr(90 + i, 0, 1 + wl(3000)); xsend(s, d.data(), d.size(), now() + LONG); sleep_ns((ns)wl(2000) * MS); probe("nonsense request"); break;
        }
    }
    xclose(s);
}
}

SCENARIO(S23)
{
    sched_mode();
    time_limit(300 * 3600 * SEC);
    static const size_t caps[] = {0, 600, 3000, 20000}; next_connect_cap(caps[wl(4)]);
    dns("home.test", {Addr{"10.0.0.1"}}); dns("refuses.test", {Addr{"10.31.0.1", Refuse}}); dns_error("unknown.test", -2); dns("silent.test", {Addr{"10.31.0.2", Blackhole}});
    static Console sc; spawn("server", [] { console = &sc; { Lib l; server_main(); } fail("stopped", "the server program returned"); }, true);
    block_until([] { return listening(8081); }, 100 * SEC);
    if(!listening(8081)) fail("setup", "the server does not listen");
    int base = open_fds();
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.08}, {F_STALL, 0.02}, {F_SHORT_READ, 0.3}, {F_SHORT_WRITE, 0.3}, {F_SEND_EINTR, 0.2}, {F_RECV_EINTR, 0.2}, {F_ACCEPT_EINTR, 0.2}, {F_NAMEINFO_FAIL, 0.1}, {F_SELECT_EINTR, 0.2}, {F_CONNECT_NOW, 0.3}, {F_CPU_STALL, 0.003}});
    int n = (int)wl(4), v = (int)wl(n ? 8 : 12); std::vector<int> ts;
    if(!n && !v) n = 1;
    std::vector<std::unique_ptr<Site>> all; std::vector<std::vector<Site *>> of(n);
    for(int i = 0; i < n; ++i)
        for(int k = 0; k < 2; ++k)
        {
            static const uint16_t ports[] = {80, 80, 80, 443, 8080, 1, 65535, 21, 3000, 22, 6697};
            auto s = std::make_unique<Site>(); s->ip = "10.30." + std::to_string(i) + "." + std::to_string(k + 1); s->host = wchance(0.5) ? "www" + std::to_string(k) + ".site" + std::to_string(i) + ".test" : "s" + std::to_string(10 * i + k);
            s->port = ports[wl(11)]; s->l = xlisten(s->ip, s->port);
            if(wchance(0.2)) dns(s->host, {Addr{"10.31.0.1", Refuse}, Addr{s->ip}}); else dns(s->host, {Addr{s->ip}});
            of[i].push_back(s.get()); all.push_back(std::move(s));
        }
    note("%d clients, %d visitors", n, v);
    for(int i = 0; i < n; ++i) { auto *o = &of[i]; ns d = (ns)wl(3000) * MS; ts.push_back(spawn("client" + std::to_string(i), [=] { sleep_ns(d); if(wchance(0.3)) crawler(i, o); else fetcher(i, o); })); }
    for(int i = 0; i < v; ++i) { ns d = wchance(0.5) ? 0 : (ns)wl(5000) * MS; ts.push_back(spawn("visitor" + std::to_string(i), [=] { sleep_ns(d); visitor(i); })); }
    for(int t : ts) join(t);
    quiesce();
    sleep_ns(100 * SEC);
    // when all that is over, the server program is as it was
    std::string page, err; ns t0 = now(), s0 = stalled();
    if(!fetch("http://home.test:8081", page, err) || page != PAGE) fail("failed", "after all is over the server program answers '%s' (%s)", page.c_str(), err.c_str());
    if(now() - t0 > SEC + 2 * (stalled() - s0)) fail("slow", "after all is over a fetch took %.1fs", (now() - t0) / 1e9);
    sleep_ns(5 * SEC + 2 * (stalled() - s0));
    if(open_fds() != base) fail("leak", "%d descriptors are open that were not at the beginning", open_fds() - base);
    if(bad_closes()) fail("double-close", "a descriptor was closed twice");
    nontrivial();
}
