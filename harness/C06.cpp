// C06: topology edits are validated and failed edits change nothing.
#include "pbt.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
using namespace pbt;
using Pothos::Object; using Pothos::Proxy; using Pothos::Topology;

struct Blk: Pothos::Block
{
    std::set<std::string> ins, outs;
    void in(const std::string &n) { if (ins.insert(n).second) this->setupInput(n, typeid(int)); }
    void out(const std::string &n) { if (outs.insert(n).second) this->setupOutput(n, typeid(float)); }
    void slot(const std::string &n) { if (ins.insert(n).second) this->registerSlot(n); }
    void signal(const std::string &n) { if (outs.insert(n).second) this->registerSignal(n); }
    Pothos::Object opaqueCallHandler(const std::string &name, const Pothos::Object *a, const size_t n) { return Pothos::Block::opaqueCallHandler(name, a, n); }
};
typedef std::tuple<std::string, std::string, std::string, std::string> F; // source uid and port, destination uid and port
struct Node { std::shared_ptr<Topology> t; std::shared_ptr<Blk> b; std::string uid; std::vector<F> flows; std::set<std::string> multi[2]; };
static std::set<std::string> outer(const Node &n, bool in) { std::set<std::string> r; for (auto &f : n.flows) { if (in && std::get<0>(f) == n.uid) r.insert(std::get<1>(f)); if (!in && std::get<2>(f) == n.uid) r.insert(std::get<3>(f)); } return r; }
//! numeric names continue from a lower numbered port
static bool numbered(const std::set<std::string> &fixed, const std::string &name)
{
    if (name.empty()) return false; for (char c : name) if (!isdigit((unsigned char)c)) return false;
    const int n = std::stoi(name); for (auto &f : fixed) { bool digits = !f.empty(); for (char c : f) digits = digits && isdigit((unsigned char)c); if (digits && std::stoi(f) < n) return true; } return false;
}
static bool has(const Node &n, const std::string &port, bool in)
{
    if (n.t) return outer(n, in).count(port) != 0;
    const auto &fixed = in ? n.b->ins : n.b->outs; return fixed.count(port) || numbered(fixed, port);
}
static std::set<std::string> setOf(const std::vector<std::string> &v) { return std::set<std::string>(v.begin(), v.end()); }
static std::string text(const std::set<std::string> &s) { std::string r = "{"; for (auto &x : s) r += x + " "; return r + "}"; }

static void edits(Case &c)
{
    auto &s = c.s; std::vector<Node> nodes; const size_t topos = 1 + s.draw(2), blocks = 1 + s.draw(2);
    for (size_t i = 0; i < topos; i++) { Node n; n.t = Topology::make(); n.uid = n.t->uid(); nodes.push_back(n); }
    for (size_t i = 0; i < blocks; i++)
    {
        Node n; n.b = std::make_shared<Blk>(); n.uid = n.b->uid(); for (size_t k = 1 + s.draw(2); k > 0; k--) { n.b->in(s.pick({std::string("0"), std::string("2"), std::string("a"), std::string("x")})); n.b->out(s.pick({std::string("0"), std::string("1"), std::string("b"), std::string("x")})); }
        if (s.flip()) n.b->slot("go"); if (s.flip()) n.b->signal("done"); nodes.push_back(n);
    }
    auto label = [&](size_t i) { return i < topos ? "t" + std::to_string(i) : "b" + std::to_string(i - topos); };
    // a topology holds only later topologies, so that none contains itself
    auto object = [&](size_t i) -> Object { const Node &n = nodes[i]; if (s.chance(1, 5)) { const auto env = Pothos::ProxyEnvironment::make("managed"); return n.t ? Object(env->makeProxy(n.t)) : Object(env->makeProxy(std::static_pointer_cast<Pothos::Block>(n.b))); } if (n.t) return Object(n.t); return Object(std::static_pointer_cast<Pothos::Block>(n.b)); };
    static const std::vector<std::string> names = {"0", "1", "2", "3", "a", "b", "x", "y", "go", "done", "", "0a", "setName"};
    size_t accepted = 0, rejected = 0; const size_t steps = size_t(s.small(2, 40));
    for (size_t n = 0; n < steps; n++)
    {
        const size_t w = s.draw(topos - 1); Node &t = nodes[w]; std::ostringstream what; what << "step " << n << " t" << w << ": ";
        const size_t op = s.weighted({8, 6, 1, 1});
        if (op <= 1)
        {
            auto pick = [&] { size_t i = w + s.draw(nodes.size() - 1 - w); return i; }; size_t a, b; std::string ap, bp;
            auto portOf = [&](size_t i, bool in) { if (s.chance(4, 5)) { std::vector<std::string> v; if (nodes[i].t) { for (auto &x : outer(nodes[i], i == w ? !in : in)) v.push_back(x); if (i == w && s.flip()) v.assign({"x", "y", "0"}); } else for (auto &x : (in ? nodes[i].b->ins : nodes[i].b->outs)) v.push_back(x); if (!v.empty()) return s.pick(v); } return s.pick(names); };
            if (!t.flows.empty() && s.chance(op == 0 ? 1 : 3, 5)) // an existing connection
            {
                const F f = s.pick(t.flows); a = b = 0; for (size_t i = 0; i < nodes.size(); i++) { if (nodes[i].uid == std::get<0>(f)) a = i; if (nodes[i].uid == std::get<2>(f)) b = i; } ap = std::get<1>(f); bp = std::get<3>(f); if (s.chance(1, 4)) { if (s.flip()) ap = s.pick(names); else bp = s.pick(names); }
            }
            else { a = pick(); b = pick(); ap = portOf(a, false); bp = portOf(b, true); }
            const F f(nodes[a].uid, ap, nodes[b].uid, bp); const bool exists = std::find(t.flows.begin(), t.flows.end(), f) != t.flows.end();
            const bool bad = s.chance(1, 25); Object ao = object(a), bo = object(b); if (bad) (s.flip() ? ao : bo) = s.pick({Object(5), Object("text"), Object(), Object(std::vector<int>())});
            bool want = !bad && (op == 0 ? !exists && (a == w || has(nodes[a], ap, false)) && (b == w || has(nodes[b], bp, true)) : exists);
            if (op == 0 && ((a == w && ap.empty()) || (b == w && bp.empty()))) continue; // an outer port without a name
            what << (op == 0 ? "connect " : "disconnect ") << label(a) << "[" << ap << "] " << label(b) << "[" << bp << "]" << (bad ? " (not connectable)" : ""); c.desc << "t" << w << (op == 0 ? " + " : " - ") << label(a) << "[" << ap << "] " << label(b) << "[" << bp << "]" << (bad ? "!" : "") << "; ";
            const auto err = errorOf([&] { if (op == 0) t.t->_connect(ao, ap, bo, bp); else t.t->_disconnect(ao, ap, bo, bp); });
            if (want) { PBT_CHECK(err.empty(), what.str() << ": rejected: " << err); if (op == 0) t.flows.push_back(f); else t.flows.erase(std::find(t.flows.begin(), t.flows.end(), f)); accepted++; }
            else { PBT_CHECK(!err.empty(), what.str() << ": accepted, want an error"); rejected++; }
        }
        else if (op == 2) // everything, perhaps also in the topologies inside
        {
            const bool rec = s.chance(1, 3); c.desc << "t" << w << " clear" << (rec ? " all" : "") << "; "; what << "disconnectAll(" << rec << ")"; 
            // recursion clears the topologies directly inside
            if (rec) for (auto &f : std::vector<F>(t.flows)) for (size_t i = w + 1; i < topos; i++) if (nodes[i].uid == std::get<0>(f) || nodes[i].uid == std::get<2>(f)) nodes[i].flows.clear();
            t.t->disconnectAll(rec); t.flows.clear();
        }
        else { what << "indices"; size_t b = topos + s.draw(blocks - 1); const F f(t.uid, "0", nodes[b].uid, "0"); const bool exists = std::find(t.flows.begin(), t.flows.end(), f) != t.flows.end(), want = !exists && has(nodes[b], "0", true); c.desc << "t" << w << " + self[0] " << label(b) << "[0]; "; const auto err = errorOf([&] { t.t->connect(t.t, 0, std::static_pointer_cast<Pothos::Block>(nodes[b].b), 0); }); PBT_CHECK(err.empty() == want, what.str() << ": " << (want ? "rejected: " + err : "accepted, want an error")); if (want) t.flows.push_back(f); (want ? accepted : rejected)++; }
        // every topology is as the model says
        for (size_t i = 0; i < topos; i++)
        {
            Node &m = nodes[i]; const auto in = setOf(m.t->inputPortNames()), out = setOf(m.t->outputPortNames()); PBT_CHECK(in == outer(m, true), what.str() << ": outer inputs of t" << i << " are " << text(in) << ", want " << text(outer(m, true))); PBT_CHECK(out == outer(m, false), what.str() << ": outer outputs of t" << i << " are " << text(out) << ", want " << text(outer(m, false))); PBT_CHECK(m.t->inputPortInfo().size() == in.size() && m.t->outputPortInfo().size() == out.size(), what.str() << ": outer ports listed more than once");
            // an outer port that ever stood for several ports at once describes any of them
            for (int dir = 0; dir < 2; dir++) { std::map<std::string, size_t> counts; for (auto &f : m.flows) if ((dir ? std::get<2>(f) : std::get<0>(f)) == m.uid) counts[dir ? std::get<3>(f) : std::get<1>(f)]++; for (auto &x : counts) if (x.second > 1) m.multi[dir].insert(x.first); for (auto &x : std::set<std::string>(m.multi[dir])) if (!counts.count(x)) m.multi[dir].erase(x); }
            if (i != w && n + 1 < steps && !s.chance(1, 8)) continue;
            const json j = json::parse(m.t->dumpJSON("{\"mode\":\"top\"}")); std::multiset<F> got, want(m.flows.begin(), m.flows.end()); for (auto &x : j["connections"]) got.insert(F(x["srcId"].get<std::string>(), x["srcName"].get<std::string>(), x["dstId"].get<std::string>(), x["dstName"].get<std::string>())); PBT_CHECK(got == want, what.str() << ": t" << i << " has " << got.size() << " connections that differ from the " << want.size() << " made");
            std::set<std::string> ids; for (auto &f : m.flows) { if (std::get<0>(f) != m.uid) ids.insert(std::get<0>(f)); if (std::get<2>(f) != m.uid) ids.insert(std::get<2>(f)); } std::set<std::string> seen; for (auto it = j["blocks"].begin(); it != j["blocks"].end(); ++it) seen.insert(it.key()); PBT_CHECK(seen == ids, what.str() << ": t" << i << " lists " << seen.size() << " blocks, want " << ids.size());
            // an outer port describes the only port behind it
            for (int dir = 0; dir < 2; dir++) for (auto &info : dir ? m.t->outputPortInfo() : m.t->inputPortInfo())
            {
                std::vector<F> behind; for (auto &f : m.flows) if (dir ? std::get<2>(f) == m.uid && std::get<3>(f) == info.name : std::get<0>(f) == m.uid && std::get<1>(f) == info.name) behind.push_back(f);
                if (behind.size() != 1 || m.multi[dir].count(info.name)) continue; const std::string uid = dir ? std::get<0>(behind[0]) : std::get<2>(behind[0]), port = dir ? std::get<1>(behind[0]) : std::get<3>(behind[0]);
                for (auto &x : nodes) if (x.b && x.uid == uid) { Pothos::PortInfo inner; for (auto &p : dir ? x.b->outputPortInfo() : x.b->inputPortInfo()) if (p.name == port) inner = p; if (inner.name != port) continue; PBT_CHECK(info.isSigSlot == inner.isSigSlot && info.dtype == inner.dtype, what.str() << ": outer port " << info.name << " of t" << i << " is " << info.dtype.toString() << ", the port behind it " << inner.dtype.toString()); }
            }
        }
    }
    c.nontrivial = accepted > 2 && rejected > 1; c.count("accepted", accepted); c.count("rejected", rejected);
}
PBT_MAIN("C06", (std::vector<Sub>{{"edits", 1, &edits, false}}))
