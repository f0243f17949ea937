// C05: nested topologies are equivalent to the flattened graph.
#include "pbt.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <mutex>
using namespace pbt;
using Pothos::Object; using Pothos::Topology;

//! sends one message per output when told to, remembers everything that arrives
struct Blk: Pothos::Block
{
    int id; std::mutex lock; std::map<std::string, std::multiset<std::string>> got;
    Blk(int id, size_t ins, size_t outs): id(id)
    {
        for (size_t i = 0; i < ins; i++) this->setupInput(i ? "in" + std::to_string(i) : "0"); for (size_t i = 0; i < outs; i++) this->registerSignal(i ? "out" + std::to_string(i) : "0");
        this->registerCall(this, "_send", &Blk::send);
    }
    void send(const int &round) { for (auto p : this->allOutputs()) p.second->postMessage(std::to_string(id) + "[" + p.first + "] in round " + std::to_string(round)); }
    void work(void) { for (auto q : this->allInputs()) { auto p = q.second; while (p->hasMessage()) { const auto m = p->popMessage().convert<std::string>(); std::lock_guard<std::mutex> g(lock); got[p->name()].insert(m); } } }
    std::map<std::string, std::multiset<std::string>> seen(void) { std::lock_guard<std::mutex> g(lock); return got; }
};
struct Conn { int a; std::string ap; int b; std::string bp; bool operator==(const Conn &o) const { return a == o.a && b == o.b && ap == o.ap && bp == o.bp; } };
struct Node { std::shared_ptr<Topology> t; std::shared_ptr<Blk> b; std::vector<int> kids; std::vector<Conn> flows; int depth = 0; };
typedef std::tuple<int, char, std::string> P; // node, 'i'nput or 'o'utput, name
typedef std::tuple<std::string, std::string, std::string, std::string> F;

struct World
{
    Case &c; Src &s; std::vector<Node> nodes; bool proxies; size_t pass = 0;
    World(Case &c): c(c), s(c.s), proxies(s.chance(1, 6)) {}
    std::string label(int i) { return (nodes[i].t ? "t" : "b") + std::to_string(i); }
    Object object(int i) { auto &n = nodes[i]; if (proxies) { auto env = Pothos::ProxyEnvironment::make("managed"); return n.t ? Object(env->makeProxy(n.t)) : Object(env->makeProxy(std::static_pointer_cast<Pothos::Block>(n.b))); } if (n.t) return Object(n.t); return Object(std::static_pointer_cast<Pothos::Block>(n.b)); }
    std::string uid(int i) { return nodes[i].t ? nodes[i].t->uid() : nodes[i].b->uid(); }
    std::vector<std::string> ports(int i, bool in)
    {
        std::vector<std::string> r; if (nodes[i].b) { for (auto &p : in ? nodes[i].b->inputPortNames() : nodes[i].b->outputPortNames()) r.push_back(p); return r; }
        std::set<std::string> u; for (auto &f : nodes[i].flows) { if (in && f.a == i) u.insert(f.ap); if (!in && f.b == i) u.insert(f.bp); } return std::vector<std::string>(u.begin(), u.end());
    }
    bool connectOne(int t)
    {
        static const std::vector<std::string> outer = {"x", "y", "0"}; const bool self = nodes[t].depth > 0 || s.chance(1, 8);
        std::vector<std::pair<int, std::string>> from, to; for (int k : nodes[t].kids) { for (auto &p : ports(k, false)) from.push_back({k, p}); for (auto &p : ports(k, true)) to.push_back({k, p}); }
        // outer ports are a fifth to a half of the ends
        auto end = [&](std::vector<std::pair<int, std::string>> &v, size_t num) { if (v.empty() || (self && s.chance(num, 10))) return self ? std::make_pair(t, s.pick(outer)) : std::make_pair(-1, std::string()); return s.pick(v); };
        const auto a = end(from, 4), b = end(to, a.first == t ? 3 : 4); if (a.first < 0 || b.first < 0) return false;
        const Conn f{a.first, a.second, b.first, b.second}; if (std::find(nodes[t].flows.begin(), nodes[t].flows.end(), f) != nodes[t].flows.end()) return false;
        const auto err = errorOf([&] { nodes[t].t->_connect(object(f.a), f.ap, object(f.b), f.bp); }); PBT_CHECK(err.empty(), "connect " << label(f.a) << "[" << f.ap << "] " << label(f.b) << "[" << f.bp << "] in " << label(t) << ": " << err);
        c.desc << label(t) << " + " << label(f.a) << "[" << f.ap << "] " << label(f.b) << "[" << f.bp << "]; "; nodes[t].flows.push_back(f); if (f.a == t && f.b == t) pass++; return true;
    }
    int build(int depth, size_t &budget)
    {
        const int me = int(nodes.size()); { Node n; n.t = Topology::make(); n.depth = depth; nodes.push_back(n); } std::vector<int> kids;
        for (size_t k = s.draw(depth == 0 ? 3 : 2) + (depth == 0 ? 1 : 0); k > 0 && budget > 0; k--) { budget--; Node n; n.b = std::make_shared<Blk>(int(nodes.size()), 1 + s.draw(1), 1 + s.draw(1)); kids.push_back(int(nodes.size())); nodes.push_back(n); }
        if (depth < 3) for (size_t k = s.draw(2); k > 0; k--) kids.push_back(build(depth + 1, budget));
        nodes[me].kids = kids; for (size_t k = s.draw(6) + (depth == 0 ? 1 : 0); k > 0; k--) connectOne(me); return me;
    }
    //! block inputs reachable from every block output through outer ports of topologies
    std::set<std::pair<P, P>> expected()
    {
        // a topology belongs to the graph when a connection of its parent names it
        std::set<int> in = {0}; for (int t = 0; t < int(nodes.size()); t++) if (nodes[t].t && in.count(t)) for (auto &f : nodes[t].flows) { in.insert(f.a); in.insert(f.b); }
        std::map<P, std::vector<P>> edges; for (int t : in) if (nodes[t].t) for (auto &f : nodes[t].flows)
            edges[P(f.a, f.a == t ? 'i' : 'o', f.ap)].push_back(P(f.b, f.b == t ? 'o' : 'i', f.bp));
        std::set<std::pair<P, P>> r; for (auto &e : edges) if (nodes[std::get<0>(e.first)].b)
        {
            std::set<P> seen; std::vector<P> todo = {e.first}; while (!todo.empty()) { const P p = todo.back(); todo.pop_back(); auto it = edges.find(p); if (it == edges.end()) continue; for (auto &q : it->second) if (seen.insert(q).second) { if (nodes[std::get<0>(q)].b) r.insert({e.first, q}); else todo.push_back(q); } }
        }
        return r;
    }
    std::string show(const F &f) { auto who = [&](const std::string &u) { for (int i = 0; i < int(nodes.size()); i++) if (uid(i) == u) return label(i); return std::string("?"); }; return who(std::get<0>(f)) + "[" + std::get<1>(f) + "] -> " + who(std::get<2>(f)) + "[" + std::get<3>(f) + "]"; }
    void compare(const std::string &mode, const std::set<std::pair<P, P>> &exp)
    {
        const json j = json::parse(nodes[0].t->dumpJSON("{\"mode\":\"" + mode + "\"}")); std::multiset<F> got, want; for (auto &x : j["connections"]) got.insert(F(x["srcId"].get<std::string>(), x["srcName"].get<std::string>(), x["dstId"].get<std::string>(), x["dstName"].get<std::string>()));
        for (auto &e : exp) want.insert(F(uid(std::get<0>(e.first)), std::get<2>(e.first), uid(std::get<0>(e.second)), std::get<2>(e.second)));
        std::string diff; for (auto &f : want) if (got.count(f) == 0) diff += " missing " + show(f) + ";"; for (auto &f : got) if (want.count(f) == 0) diff += " extra " + show(f) + ";"; else if (got.count(f) > 1) diff += " repeated " + show(f) + ";";
        PBT_CHECK(diff.empty(), mode << " view:" << diff);
    }
};

static void nested(Case &c)
{
    auto &s = c.s; World w(c); size_t budget = 7, flows = 0, data = 0; w.build(0, budget); const bool run = s.chance(1, 3); std::map<int, std::map<std::string, std::multiset<std::string>>> want;
    const size_t rounds = 1 + s.draw(2); size_t levels = 0; for (auto &n : w.nodes) levels = std::max(levels, size_t(n.depth)); bool through = false;
    if (run && s.flip()) w.nodes[0].t->setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(1 + s.draw(2))));
    for (size_t r = 0; r < rounds; r++)
    {
        if (r > 0) for (size_t k = 1 + s.draw(3); k > 0; k--)
        {
            std::vector<int> ts; for (int i = 0; i < int(w.nodes.size()); i++) if (w.nodes[i].t) ts.push_back(i); const int t = s.pick(ts); auto &n = w.nodes[t];
            if (n.flows.empty() || s.flip()) w.connectOne(t); else { const size_t i = s.draw(n.flows.size() - 1); const Conn f = n.flows[i]; c.desc << w.label(t) << " - " << w.label(f.a) << "[" << f.ap << "] " << w.label(f.b) << "[" << f.bp << "]; "; const auto err = errorOf([&] { n.t->_disconnect(w.object(f.a), f.ap, w.object(f.b), f.bp); }); PBT_CHECK(err.empty(), "disconnect: " << err); n.flows.erase(n.flows.begin() + i); }
        }
        const auto exp = w.expected(); flows = std::max(flows, exp.size()); w.compare("flat", exp); if (!run) continue;
        const auto err = errorOf([&] { w.nodes[0].t->commit(); }); PBT_CHECK(err.empty(), "commit: " << err); w.compare("rendered", exp); c.desc << "commit; ";
        // every active block sends, everything reachable receives, nothing else does
        std::set<int> senders; for (auto &e : exp) senders.insert(std::get<0>(e.first));
        for (auto &e : exp) want[std::get<0>(e.second)][std::get<2>(e.second)].insert(std::to_string(std::get<0>(e.first)) + "[" + std::get<2>(e.first) + "] in round " + std::to_string(r));
        for (int i : senders) Pothos::ProxyEnvironment::make("managed")->makeProxy(std::static_pointer_cast<Pothos::Block>(w.nodes[i].b)).call("_send", int(r));
        const auto start = std::chrono::steady_clock::now(); std::string lack, extra;
        for (;;)
        {
            lack = extra = ""; for (int i = 0; i < int(w.nodes.size()); i++) if (w.nodes[i].b) { const auto got = w.nodes[i].b->seen(); auto &exp2 = want[i]; for (auto &p : exp2) for (auto &m : std::set<std::string>(p.second.begin(), p.second.end())) { auto it = got.find(p.first); if (it == got.end() || it->second.count(m) < p.second.count(m)) lack = "b" + std::to_string(i) + "[" + p.first + "] did not receive from b" + m; } for (auto &p : got) for (auto &m : p.second) { auto it = exp2.find(p.first); if (it == exp2.end() || it->second.count(m) < p.second.count(m)) extra = "b" + std::to_string(i) + "[" + p.first + "] received " + std::to_string(p.second.count(m)) + " times from b" + m; } }
            PBT_CHECK(extra.empty(), extra); if (lack.empty()) break; if (std::chrono::steady_clock::now() - start > std::chrono::seconds(8)) pbt::fail(lack, true); std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        data += senders.size();
    }
    if (run)
    {
        w.nodes[0].t->disconnectAll(); w.nodes[0].t->commit(); for (int i = 0; i < int(w.nodes.size()); i++) if (w.nodes[i].b) { const auto got = w.nodes[i].b->seen(); auto exp2 = want[i]; for (auto &p : got) PBT_CHECK(exp2[p.first] == p.second, "b" << i << "[" << p.first << "] received more than was sent to it"); }
    }
    // is a flow made of more than one connection?
    for (int t = 1; t < int(w.nodes.size()); t++) if (w.nodes[t].t) for (auto &f : w.nodes[t].flows) through = through || f.a == t || f.b == t;
    c.nontrivial = flows > 1 && levels > 0 && through; c.count("flows", flows); c.count("sends", data); c.count("passthrough", w.pass); c.tag("depth" + std::to_string(levels)); if (run) c.tag("run");
}
PBT_MAIN("C05", (std::vector<Sub>{{"nested", 1, &nested, false}}))
