// C03: messages, signals and slot calls are delivered in order, exactly once, with their content.
#include "flow.hpp"
#include "tracked.hpp"
using namespace flow;

struct Msg { uint64_t id, seq; std::string text; };
static std::string textOf(uint64_t id, uint64_t seq) { return "t" + std::to_string(id * 7919 + seq * 31) + std::string(seq % 5, 'x'); }

static Pothos::Object encode(uint64_t id, uint64_t seq)
{
    switch ((id + seq) % 6)
    {
    case 0: return Pothos::Object(Msg{id, seq, textOf(id, seq)});
    case 1: return Pothos::Object(std::to_string(id) + ":" + std::to_string(seq) + ":" + textOf(id, seq));
    case 2: { std::vector<uint64_t> v{id, seq}; for (uint64_t i = 0; i < seq % 9; i++) v.push_back(id * i + seq); return Pothos::Object(v); }
    case 3:
        {
            Pothos::Packet p; p.metadata["id"] = Pothos::Object(id); p.metadata["seq"] = Pothos::Object(seq);
            p.payload = Pothos::BufferChunk(typeid(uint64_t), 1 + seq % 4);
            for (size_t i = 0; i < p.payload.elements(); i++) p.payload.as<uint64_t *>()[i] = id + seq * i;
            p.labels.push_back(Pothos::Label("L", seq, seq % 4));
            return Pothos::Object(p);
        }
    case 4: { Pothos::ObjectKwargs k; k["id"] = Pothos::Object(id); k["seq"] = Pothos::Object(seq); return Pothos::Object(k); }
    default: return Pothos::Object(std::make_shared<Msg>(Msg{id, seq, textOf(id, seq)}));
    }
}
//! "" and id/seq, or what is wrong
static std::string decode(const Pothos::Object &o, uint64_t &id, uint64_t &seq)
{
    int kind = -1; bool ok = true;
    if (o.type() == typeid(Msg)) { auto &m = o.extract<Msg>(); id = m.id; seq = m.seq; ok = m.text == textOf(id, seq); kind = 0; }
    else if (o.type() == typeid(std::string)) { const auto &s = o.extract<std::string>(); id = std::stoull(s); const auto p = s.find(':'); seq = std::stoull(s.substr(p + 1)); ok = s.substr(s.find(':', p + 1) + 1) == textOf(id, seq); kind = 1; }
    else if (o.type() == typeid(std::vector<uint64_t>)) { const auto &v = o.extract<std::vector<uint64_t>>(); id = v.at(0); seq = v.at(1); ok = v.size() == 2 + seq % 9; for (uint64_t i = 0; ok && i < seq % 9; i++) ok = v[2 + i] == id * i + seq; kind = 2; }
    else if (o.type() == typeid(Pothos::Packet))
    {
        const auto &p = o.extract<Pothos::Packet>(); id = p.metadata.at("id").extract<uint64_t>(); seq = p.metadata.at("seq").extract<uint64_t>();
        ok = p.payload.elements() == 1 + seq % 4 && p.labels.size() == 1 && p.labels[0].index == seq % 4;
        for (size_t i = 0; ok && i < p.payload.elements(); i++) ok = p.payload.as<const uint64_t *>()[i] == id + seq * i;
        kind = 3;
    }
    else if (o.type() == typeid(Pothos::ObjectKwargs)) { const auto &k = o.extract<Pothos::ObjectKwargs>(); id = k.at("id").extract<uint64_t>(); seq = k.at("seq").extract<uint64_t>(); kind = 4; }
    else if (o.type() == typeid(std::shared_ptr<Msg>)) { const auto &m = o.extract<std::shared_ptr<Msg>>(); id = m->id; seq = m->seq; ok = m->text == textOf(id, seq); kind = 5; }
    else if (o.type() == typeid(Pothos::ObjectVector)) // a signal received on a message port
    {
        const auto &v = o.extract<Pothos::ObjectVector>();
        if (v.size() == 1) { const auto s = v[0].convert<std::string>(); id = std::stoull(s.substr(1)); seq = std::stoull(s.substr(s.find('/') + 1)); return s == "r" + std::to_string(id) + "/" + std::to_string(seq) ? "" : "probe result changed"; }
        if (v.size() != 3) return "signal with " + std::to_string(v.size()) + " arguments";
        id = v[0].convert<uint64_t>(); seq = v[1].convert<uint64_t>();
        return v[2].convert<std::string>() == textOf(id, seq) ? "" : "signal arguments changed";
    }
    else return "message of unexpected type " + o.getTypeString();
    if (kind != int((id + seq) % 6)) return "message of another kind than was sent";
    return ok ? "" : "message content changed";
}

typedef std::map<uint64_t, uint64_t> Counts; // sequence id -> number of items

struct SourceCfg { std::string out; bool signal = false; uint64_t id = 0, count = 0; size_t burst = 1; };
struct ForwardCfg { std::string out; bool signal = false; uint64_t id = 0; };

class Node : public Pothos::Block
{
public:
    Node(Shared &sh, const std::string &name, size_t ins, size_t reserve): shared(sh)
    {
        this->setName(name);
        for (size_t i = 0; i < ins; i++) { this->setupInput(i, typeid(int)); if (reserve) this->input(i)->setReserve(reserve); }
        this->registerCall(this, "slotA", &Node::slotA);
        this->registerCall(this, "slotB", &Node::slotB);
        this->registerCall(this, "slotR", &Node::slotR);
        this->registerCall(this, "query", &Node::query);
        this->registerProbe("query");
        this->registerCall(this, "note", &Node::note);
        this->registerProbe("note", "noted", "takeNote");
        this->registerCall(this, "noted_", &Node::slotNoted);
    }
    void slotA(const uint64_t id, const uint64_t seq, const std::string &s) { this->slot("slotA", id, seq, s); }
    void slotB(const uint64_t id, const uint64_t seq, const std::string &s) { this->slot("slotB", id, seq, s); }
    void slotR(const std::string &r)
    {
        uint64_t id = 0, seq = 0;
        const auto e = decode(Pothos::Object(Pothos::ObjectVector{Pothos::Object(r)}), id, seq);
        if (!e.empty()) FLOW_FAIL(this->getName() << " slotR: " << e);
        this->arrived("slotR", id, seq);
    }
    std::string query(const uint64_t id, const uint64_t seq, const std::string &s)
    {
        if (s != textOf(id, seq)) shared.fail(this->getName() + " query: arguments changed");
        this->arrived("probeQuery", id, seq);
        return "r" + std::to_string(id) + "/" + std::to_string(seq);
    }
    void note(const uint64_t id, const uint64_t seq, const std::string &s)
    {
        if (s != textOf(id, seq)) FLOW_FAIL(this->getName() << " note: arguments changed");
        this->arrived("takeNote", id, seq);
    }
    void slotNoted(void) { noted++; }
    void slot(const std::string &name, uint64_t id, uint64_t seq, const std::string &s)
    {
        if (s != textOf(id, seq)) FLOW_FAIL(this->getName() << " " << name << ": arguments changed: " << id << "," << seq << "," << s);
        this->arrived(name, id, seq);
        if (throwEvery && (seq + 1) % throwEvery == 0) throw Pothos::Exception("a slot that throws");
    }
    //! one item arrived at a port: exactly the next one of its sequence?
    void arrived(const std::string &port, uint64_t id, uint64_t seq)
    {
        if (inside.exchange(true)) FLOW_FAIL(this->getName() << ": two callbacks at once");
        auto &want = expect[port];
        if (!want.count(id)) { inside = false; FLOW_FAIL(this->getName() << " " << port << ": got an item of sequence " << id << ", which is not connected"); }
        auto &n = got[port][id];
        if (seq != n) { inside = false; FLOW_FAIL(this->getName() << " " << port << ": sequence " << id << " item " << seq << ", want " << n); }
        if (n >= want[id]) { inside = false; FLOW_FAIL(this->getName() << " " << port << ": surplus item " << seq << " of sequence " << id); }
        n++;
        for (auto &f : forward[port]) this->post(f.out, f.signal, f.id, sent[f.out + "#" + std::to_string(f.id)]++);
        if (++total == expectTotal) shared.finished();
        inside = false;
    }
    void post(const std::string &out, bool signal, uint64_t id, uint64_t seq)
    {
        if (!signal) { auto o = encode(id, seq); this->output(out)->postMessage(o); return; }
        switch (seq % 3) // arguments of different but convertible types
        {
        case 0: this->emitSignal(out, id, seq, textOf(id, seq)); break;
        case 1: this->emitSignal(out, (unsigned int)id, (unsigned short)seq, textOf(id, seq)); break;
        default: this->emitSignal(out, (long long)id, int(seq), Pothos::Object(textOf(id, seq))); break;
        }
    }
    void work(void)
    {
        if (shared.failed) return;
        bool again = false;
        for (auto &s : sources)
        {
            auto &n = sent["s" + s.out + "#" + std::to_string(s.id)];
            for (size_t k = 0; k < s.burst && n < s.count; k++) this->post(s.out, s.signal, s.id, n++);
            if (n < s.count) again = true;
        }
        for (auto port : this->inputs())
        {
            if (port->isSlot()) continue;
            size_t pops = 0;
            while (port->hasMessage())
            {
                if (pops >= maxPops || rng.chance(lazy, 8)) { again = true; break; }
                uint64_t id = 0, seq = 0;
                if (rng.chance(1, 4)) // looking does not take
                {
                    const auto p = port->peekMessage(); const auto e = decode(p, id, seq);
                    if (!e.empty()) FLOW_FAIL(this->getName() << " peek: " << e);
                }
                const auto before = port->totalMessages();
                const auto m = port->popMessage(); pops++;
                if (port->totalMessages() != before + 1) FLOW_FAIL(this->getName() << ": message total");
                uint64_t id2 = id, seq2 = seq;
                const auto e = decode(m, id2, seq2);
                if (!e.empty()) FLOW_FAIL(this->getName() << " in" << port->name() << ": " << e);
                if (id && (id2 != id || seq2 != seq)) FLOW_FAIL(this->getName() << ": popped another message than peeked");
                this->arrived(port->name(), id2, seq2);
                if (shared.failed) return;
            }
        }
        if (again) this->yield();
    }
    Shared &shared; Rng rng; std::atomic<bool> inside{false};
    std::vector<SourceCfg> sources; std::map<std::string, std::vector<ForwardCfg>> forward;
    std::map<std::string, Counts> expect, got; uint64_t expectTotal = 0, total = 0, noted = 0;
    std::map<std::string, uint64_t> sent; size_t maxPops = 100; unsigned lazy = 0; uint64_t throwEvery = 0;
};

static void network(Case &c)
{
    auto &s = c.s; quietLogs();
    Shared sh;
    const size_t n = size_t(s.range(2, 5));
    const bool big = s.chance(1, 6);
    struct Out { size_t node; std::string name; int kind; Counts counts; }; // kind 0 message, 1 signal, 2 probe result, 3 void probe result
    std::vector<Out> outs; uint64_t nextId = 1;
    std::vector<std::shared_ptr<Node>> nodes;
    struct Link { size_t a; std::string out; size_t b; std::string in; };
    std::vector<Link> links; std::set<std::string> linked; size_t notes = 0;
    std::map<size_t, uint64_t> wantNoted;
    c.desc << (big ? "big " : "");
    for (size_t i = 0; i < n; i++)
    {
        const size_t ins = i == 0 ? 0 : size_t(s.range(1, 3));
        const bool source = i == 0 || s.chance(1, 4);
        const size_t reserve = (!source && s.chance(1, 3)) ? 3 : 0;
        auto nd = std::make_shared<Node>(sh, "n" + std::to_string(i), ins, reserve);
        nd->rng = Rng(uint64_t(s.range(1, 100000))); nd->lazy = unsigned(s.range(0, 4)); nd->maxPops = big ? 1 : size_t(s.range(1, 30)); if (s.chance(1, 6)) nd->throwEvery = uint64_t(s.range(2, 9));
        nodes.push_back(nd);
        // links from earlier nodes
        std::map<std::string, Counts> arrivals;
        if (i > 0) for (size_t k = size_t(s.range(1, 5)); k-- > 0;)
        {
            const auto &o = outs[s.draw(outs.size() - 1)];
            std::string in;
            if (o.kind == 0) in = std::to_string(s.draw(ins - 1));
            else if (o.kind == 1) { const auto r = s.draw(5); in = r < 2 ? "slotA" : r == 2 ? "slotB" : r == 3 ? "probeQuery" : r == 4 ? "takeNote" : std::to_string(s.draw(ins - 1)); }
            else if (o.kind == 2) in = s.flip() ? std::string("slotR") : std::to_string(s.draw(ins - 1));
            else in = "noted_";
            const std::string key = std::to_string(o.node) + "." + o.name + ">" + std::to_string(i) + "." + in;
            if (!linked.insert(key).second) continue;
            // a sequence may come by one way only
            bool clash = false; for (auto &p : o.counts) if (arrivals[in].count(p.first)) clash = true;
            if (clash) { linked.erase(key); continue; }
            links.push_back({o.node, o.name, i, in}); c.desc << key << " ";
            for (auto &p : o.counts) { if (o.kind == 3) wantNoted[i] += p.second; else arrivals[in][p.first] += p.second; }
        }
        for (auto &p : arrivals) for (auto &q : p.second) nd->expectTotal += q.second;
        nd->expect = arrivals;
        // outputs: own sources and forwarding of what arrives
        size_t nmsg = 0, nsig = 0;
        auto newOut = [&](bool signal)
        {
            const std::string name = signal ? "sig" + std::to_string(nsig++) : std::to_string(nmsg++);
            if (signal) nd->registerSignal(name); else nd->setupOutput(name, typeid(int));
            outs.push_back({i, name, signal ? 1 : 0, Counts()});
            return outs.size() - 1;
        };
        if (source) for (size_t k = size_t(s.range(1, 3)); k-- > 0;)
        {
            const bool signal = s.flip();
            const auto oi = newOut(signal);
            SourceCfg sc; sc.out = outs[oi].name; sc.signal = signal; sc.id = nextId++;
            sc.count = big && !signal ? uint64_t(s.range(1, 3000)) : uint64_t(s.small(1, 80)); sc.burst = big ? 1 : size_t(s.range(1, 40));
            nd->sources.push_back(sc); outs[oi].counts[sc.id] = sc.count;
            c.desc << "[n" << i << " " << sc.out << " x" << sc.count << " burst " << sc.burst << "] ";
        }
        for (auto &p : arrivals)
        {
            uint64_t tot = 0; for (auto &q : p.second) tot += q.second;
            if (p.first == "probeQuery") { outs.push_back({i, "queryTriggered", 2, p.second}); continue; }
            if (p.first == "takeNote") { outs.push_back({i, "noted", 3, p.second}); continue; }
            if (!s.chance(1, 2)) continue;
            const bool signal = tot <= 300 && s.flip();
            if (!signal && !big && tot > 600) continue;
            const auto oi = newOut(signal);
            ForwardCfg f; f.out = outs[oi].name; f.signal = signal; f.id = nextId++;
            nd->forward[p.first].push_back(f); outs[oi].counts[f.id] = tot;
            c.desc << "[n" << i << " " << p.first << "=>" << f.out << "] ";
        }
        if (outs.empty()) return;
    }
    size_t finish = 0; for (auto &nd : nodes) if (nd->expectTotal) finish++;
    Pothos::Topology t;
    if (s.flip()) t.setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(size_t(s.range(1, 4)))));
    for (auto &l : links) t.connect(nodes[l.a], l.out, nodes[l.b], l.in);
    t.commit();
    std::string e = sh.wait(finish, LIMIT);
    auto progress = [&](void) { std::ostringstream o; for (auto &nd : nodes) o << nd->getName() << " " << nd->total << "/" << nd->expectTotal << " "; return o.str(); };
    if (e == "timeout") pbt::fail("not everything was delivered: " + progress(), true);
    if (!e.empty()) pbt::fail(e);
    // nothing may arrive after the last expected item
    if (!wantNoted.empty() || s.chance(1, 3)) t.waitInactive(0.005, 5.0);
    t.disconnectAll(); t.commit();
    if (!sh.error.empty()) pbt::fail(sh.error);
    for (auto &p : wantNoted) PBT_CHECK(nodes[p.first]->noted == p.second, "void probe: n" << p.first << " got " << nodes[p.first]->noted << " trigger signals, want " << p.second);
    uint64_t delivered = 0; for (auto &nd : nodes) delivered += nd->total;
    c.nontrivial = delivered > 10 && links.size() > 1;
    c.count("delivered", delivered);
    if (!wantNoted.empty()) c.tag("void-probe");
    for (auto &o : outs) if (o.kind == 2) c.tag("probe");
    if (big) c.tag("back-pressure");
}

// items that come from outside of the topology's threads, also before activation
static void external(Case &c)
{
    auto &s = c.s; quietLogs();
    Shared sh;
    auto a = std::make_shared<Node>(sh, "a", 0, 0), b = std::make_shared<Node>(sh, "b", 1, s.flip() ? 2 : 0), d = std::make_shared<Node>(sh, "d", 1, 0);
    a->registerSignal("sig"); a->registerSignal("sig2");
    a->setupOutput("m", typeid(int)); // feeds b so that b has an ordinary producer as well
    b->lazy = unsigned(s.range(0, 4)); b->maxPops = size_t(s.range(1, 9));
    const uint64_t early = uint64_t(s.small(0, 40)), emits = uint64_t(s.small(1, 200)), pushes = uint64_t(s.small(0, 200)), posts = uint64_t(s.small(0, 200));
    c.desc << early << " messages before commit, " << emits << " external emits to two slots, " << pushes << " pushed and " << posts << " posted messages";
    b->expect["slotA"][1] = emits; d->expect["slotB"][1] = emits; b->expect["0"][2] = early + pushes; b->expect["0"][3] = posts;
    b->expectTotal = emits + early + pushes + posts; d->expectTotal = emits;
    a->sources.push_back({"m", false, 3, posts, size_t(s.range(1, 20))});
    uint64_t pushed = 0;
    Pothos::Topology t;
    if (s.flip()) t.setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(size_t(s.range(1, 3)))));
    t.connect(a, "sig", b, "slotA"); t.connect(a, "sig", d, "slotB"); t.connect(a, "m", b, 0);
    t.commit();
    for (; pushed < early; pushed++) b->input(0)->pushMessage(encode(2, pushed));
    std::thread th([&](void) { for (uint64_t i = 0; i < emits; i++) a->call("sig", i % 2 ? Pothos::Object(uint64_t(1)) : Pothos::Object(int(1)), i, textOf(1, i)); });
    for (uint64_t i = 0; i < pushes; i++, pushed++) b->input(0)->pushMessage(encode(2, pushed));
    th.join();
    const auto e = sh.wait(2, LIMIT);
    if (e == "timeout") pbt::fail("not everything was delivered: b " + std::to_string(b->total) + "/" + std::to_string(b->expectTotal) + " d " + std::to_string(d->total) + "/" + std::to_string(d->expectTotal), true);
    if (!e.empty()) pbt::fail(e);
    t.disconnectAll(); t.commit();
    if (!sh.error.empty()) pbt::fail(sh.error);
    c.nontrivial = emits > 3 && pushes > 3;
}

PBT_MAIN("C03", {{"network", 5, network, true}, {"external", 1, external, true}})
