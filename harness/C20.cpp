// C20: truncated or damaged serialized data is rejected.
#include "remote.hpp"
#include <Pothos/Archive.hpp>
#include <Pothos/Object/Serialize.hpp>
using namespace remote;

//! up to n positions in [0, size), always including the ends
static std::vector<size_t> positions(Src &s, size_t size, size_t n)
{
    std::vector<size_t> r;
    if (size <= n) { for (size_t i = 0; i < size; i++) r.push_back(i); return r; }
    r = {0, 1, size - 1, size - 2};
    while (r.size() < n) r.push_back(size_t(s.draw(size - 1)));
    return r;
}

static void truncated(Case &c)
{
    auto &s = c.s;
    auto in = genObject(s, unsigned(s.draw(3)));
    c.desc << in.getTypeString() << " " << text(in).substr(0, 200);
    std::ostringstream os; in.serialize(os); const auto bytes = os.str();
    const bool second = s.flip(); // the cut may hit a later value of the stream
    size_t n = 0;
    for (auto cut : positions(s, bytes.size(), 40))
    {
        std::istringstream is((second ? bytes : std::string()) + bytes.substr(0, cut));
        if (second) { Pothos::Object a; a.deserialize(is); PBT_CHECK(text(a) == text(in), "the complete value before the cut one changed"); }
        Pothos::Object out;
        bool threw = false;
        try { out.deserialize(is); } catch (const Pothos::ObjectSerializeError &) { threw = true; }
        PBT_CHECK(threw, "cut to " << cut << " of " << bytes.size() << " bytes, deserializing returned " << text(out).substr(0, 200)); n++;
    }
    // and the complete one is fine
    std::istringstream is(bytes); Pothos::Object out; out.deserialize(is);
    PBT_CHECK(text(out) == text(in), "complete value changed");
    c.count("cuts", n); c.nontrivial = n > 4;
}

static void archive(Case &c)
{
    auto &s = c.s;
    const std::vector<long long> nums = {genInt<long long>(s), genInt<int>(s)}; const std::string str = genString(s); const double d = genFloat<double, uint64_t>(s);
    std::map<std::string, std::vector<unsigned>> m; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) { auto k = genString(s, 6); m[k].push_back(genInt<unsigned>(s)); }
    const auto buf = genBuffer(s);
    std::ostringstream os; size_t head;
    { Pothos::Archive::OStreamArchiver oa(os); oa << nums; oa << str; oa << d; oa << m; oa << buf; }
    const auto bytes = os.str();
    c.desc << bytes.size() << " bytes";
    auto load = [](std::istream &is) { Pothos::Archive::IStreamArchiver ia(is); std::vector<long long> a; std::string b; double c; std::map<std::string, std::vector<unsigned>> m; Pothos::BufferChunk k; ia >> a; ia >> b; ia >> c; ia >> m; ia >> k; };
    for (auto cut : positions(s, bytes.size(), 40))
    {
        std::istringstream is(bytes.substr(0, cut));
        PBT_CHECK(throws<Pothos::ArchiveException>([&](void) { load(is); }), "archive cut to " << cut << " of " << bytes.size() << " bytes was read without an error");
    }
    std::istringstream is(bytes); load(is);
    c.nontrivial = bytes.size() > 20;
}

// a request as the client frames it
static std::string frame(const std::string &payload)
{
    std::string r = "PRPC"; for (int i = 3; i >= 0; i--) r += char(payload.size() >> (8 * i));
    return r + payload + "CPRP";
}
//! does a byte string start with a complete frame?
static bool framed(const std::string &b, std::string &payload)
{
    if (b.size() < 12 || b.substr(0, 4) != "PRPC") return false;
    size_t n = 0; for (int i = 0; i < 4; i++) n = (n << 8) | (unsigned char)b[4 + i];
    if (b.size() < n + 12 || b.substr(8 + n, 4) != "CPRP") return false;
    payload = b.substr(8, n); return true;
}
static std::string damage(Src &s, const std::string &good, std::ostream &desc)
{
    std::string b = good;
    const size_t n = b.size() - 12;
    switch (s.draw(4))
    {
    case 0: { const size_t cut = size_t(s.draw(b.size() - 1)); b.resize(cut); desc << " cut to " << cut << " of " << good.size(); break; }
    case 1: { const size_t i = size_t(s.draw(3)); b[i] ^= char(1 + s.draw(254)); desc << " header byte " << i; break; }
    case 2: { const size_t i = 8 + n + size_t(s.draw(3)); b[i] ^= char(1 + s.draw(254)); desc << " trailer byte " << i; break; }
    case 3: { const size_t i = 5 + size_t(s.draw(2)); b[i] ^= char(1 + s.draw(i == 5 ? 1 : 254)); desc << " length byte " << i; break; }
    default: // a frame whose payload is incomplete
    { const size_t cut = size_t(s.draw(n - 1)); b = frame(good.substr(8, cut)); desc << " payload " << cut << " of " << n; break; }
    }
    return b;
}

static void server(Case &c)
{
    auto &s = c.s;
    Pothos::ObjectKwargs req; req["tid"] = Pothos::Object(genInt<uint32_t>(s)); req["action"] = Pothos::Object("RemoteProxyEnvironment"); req["name"] = Pothos::Object("managed");
    if (s.flip()) { req["extra"] = genObject(s, 2); }
    std::ostringstream os; Pothos::Object(req).serialize(os);
    const auto good = frame(os.str());
    const size_t before = size_t(s.small(0, 3));
    const auto bad = damage(s, good, c.desc);
    std::string p;
    std::string all; for (size_t i = 0; i < before; i++) all += good;
    all += bad;
    if (s.flip() && bad.size() >= good.size()) all += good; // more data follows: it must not hide the damage
    if (framed(all.substr(before * good.size()), p) && p.size() >= os.str().size()) { c.tag("still-framed"); return; } // happens to be a well-formed frame
    std::istringstream is(all); std::ostringstream out;
    Pothos::RemoteHandler h("peer");
    for (size_t i = 0; i < before; i++)
    {
        const size_t was = out.str().size();
        PBT_CHECK(!h.runHandlerOnce(is, out), "handler said done");
        std::string rp; PBT_CHECK(framed(out.str().substr(was), rp), "the reply to a good request is not a frame");
        std::istringstream ri(rp); Pothos::Object ro; ro.deserialize(ri);
        PBT_CHECK(ro.extract<Pothos::ObjectKwargs>().at("tid").extract<uint32_t>() == req["tid"].extract<uint32_t>(), "tid of the reply");
    }
    const size_t was = out.str().size();
    PBT_CHECK(throws<Pothos::Exception>([&](void) { Pothos::RemoteHandler h2("peer"); h2.runHandler(is, out); }), "a damaged request was not reported");
    PBT_CHECK(out.str().size() == was, "a damaged request was answered");
    // others are still served
    std::istringstream is2(good); std::ostringstream out2; Pothos::RemoteHandler h3("other");
    h3.runHandlerOnce(is2, out2); PBT_CHECK(framed(out2.str(), p), "another connection is not served any more");
    c.nontrivial = true; c.count("requests", before + 1);
}

static void client(Case &c)
{
    auto &s = c.s;
    const size_t at = size_t(s.small(0, 12)); const auto seed = s.draw(100000); std::string what;
    std::vector<uint64_t> sub; for (int i = 0; i < 3; i++) sub.push_back(s.draw(1 << 20));
    SyncLink link([&](size_t i, const std::string &rep) { if (i != at) return rep; Src ds(sub); std::ostringstream d; auto b = rep; // scaled to the reply's real size
        switch (sub[0] % 5) { case 0: b.resize(size_t(sub[1] % b.size())); d << "cut to " << b.size() << " of " << rep.size(); break; case 1: b[sub[1] % 4] ^= char(1 + sub[2] % 255); d << "header"; break;
        case 2: b[b.size() - 1 - sub[1] % 4] ^= char(1 + sub[2] % 255); d << "trailer"; break; case 3: b[6 + sub[1] % 2] ^= char(1 + sub[2] % 255); d << "length"; break; default: b = frame(rep.substr(8, size_t(sub[1] % (rep.size() - 12)))); d << "payload"; }
        what = d.str(); return b; });
    size_t ops = 0; bool failed = false;
    {
        Pothos::ProxyEnvironment::Sptr env; std::vector<Pothos::Proxy> live;
        auto op = [&](const std::function<void(void)> &f, bool drops = false) // drops: a handle is released on the way, whose reply nobody needs
        {
            const bool hit = link.closed;
            try { f(); PBT_CHECK(drops || !link.closed, "an operation succeeded although its reply was damaged (" << what << ")"); ops++; }
            catch (const Pothos::Exception &ex) { PBT_CHECK(link.closed, "operation failed before any damage: " << ex.displayText()); failed = true; }
        };
        op([&](void) { env = Pothos::RemoteClient::makeEnvironment(link.is, link.os, "managed"); });
        for (size_t i = 0; i < 8 && env; i++)
        {
            const int v = int(s.range(-1000, 1000));
            switch (s.draw(3))
            {
            case 0: op([&](void) { auto p = env->makeProxy(v); live.push_back(p); }); break;
            case 1: op([&](void) { auto p = env->makeProxy(v); PBT_CHECK(p.convert<int>() == v, "value"); live.push_back(p); }); break;
            case 2: op([&](void) { auto p = env->findProxy("Pothos/DType"); auto d = p.call("()", "int32"); PBT_CHECK(d.call<size_t>("size") == 4, "dtype size"); }, true); break;
            default: if (!live.empty()) op([&](void) { (void)live.back().toString(); }); break;
            }
        }
        live.clear();
    }
    c.desc << "damage at reply " << at << ": " << what << ", " << ops << " operations before"; 
    c.nontrivial = failed || !what.empty();
}

// several client threads share a connection that is cut somewhere: each gets its right answer or an error, none waits forever
static void cut(Case &c)
{
    auto &s = c.s;
    const size_t limit = 400 + size_t(s.small(0, 20000)); const size_t nt = size_t(s.range(2, 6)); const size_t ops = size_t(s.range(2, 40));
    c.desc << nt << " threads, " << ops << " operations each, cut after " << limit << " bytes";
    auto link = std::make_shared<Link>(limit, s.flip());
    struct State { std::mutex m; std::condition_variable cv; size_t finished = 0; std::string error; size_t good = 0, bad = 0; };
    auto st = std::make_shared<State>();
    Pothos::ProxyEnvironment::Sptr env;
    try { env = link->connect(); } catch (const Pothos::Exception &) { return; }
    std::vector<std::thread> ths;
    for (size_t t = 0; t < nt; t++) ths.emplace_back([=](void)
    {
        size_t good = 0, bad = 0; std::string err;
        {
            auto e = env;
            for (size_t i = 0; i < ops && err.empty(); i++)
            {
                try { auto p = e->makeProxy(int(t * 1000 + i)); if (p.convert<int>() != int(t * 1000 + i)) err = "a thread got another thread's answer"; good++; }
                catch (const Pothos::Exception &) { bad++; }
                catch (const std::exception &ex) { err = std::string("unexpected error ") + ex.what(); }
            }
        }
        std::lock_guard<std::mutex> l(st->m); st->finished++; st->good += good; st->bad += bad; if (!err.empty()) st->error = err; st->cv.notify_all();
    });
    bool all;
    { std::unique_lock<std::mutex> l(st->m); all = st->cv.wait_for(l, std::chrono::seconds(20), [&](void) { return st->finished == nt; }); }
    if (!all) { const bool stuck = othersAsleep(3); for (auto &t : ths) t.detach(); link->server.detach(); new std::shared_ptr<Link>(link); new Pothos::ProxyEnvironment::Sptr(env); pbt::fail("a client thread waits forever after the connection was cut", !stuck); }
    for (auto &t : ths) t.join();
    PBT_CHECK(st->error.empty(), st->error);
    env.reset();
    link->join();
    c.nontrivial = st->good > 0 && st->bad > 0;
    if (c.nontrivial) c.tag("cut-in-the-middle");
}

PBT_MAIN("C20", {{"truncate", 6, truncated}, {"archive", 2, archive}, {"server", 4, server}, {"client", 4, client}, {"cut", 4, cut, true}})
