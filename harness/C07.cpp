// C07: a topology made from a JSON description is the one described.
#include "simdstub.hpp"
#include "values.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Plugin.hpp>
using namespace pbt;
using Pothos::Object; using Pothos::Topology;

static std::vector<std::string> logged; static std::atomic<int> live(0);
template <typename T> static std::string one(const T &v) { return values::text(Object(v)); }
static std::string all(void) { return ""; }
template <typename T, typename... A> static std::string all(const T &v, const A &... m) { return one(v) + "," + all(m...); }
typedef std::vector<int> VI; typedef std::vector<std::string> VS;

struct Blk: Pothos::Block
{
    static int &next(void) { static int n = 0; return n; } static std::map<int, Blk *> &made(void) { static std::map<int, Blk *> m; return m; } int id;
    Blk(const std::string &made): id(next()++)
    {
        live++; logged.push_back(std::to_string(id) + "=" + made); if (made.find("refuse") != std::string::npos) { live--; throw Pothos::InvalidArgumentException("refused", made); }
        Blk::made()[id] = this; this->setupInput(0, typeid(int)); this->setupInput("aux", typeid(int)); this->setupOutput(0, typeid(int)); this->setupOutput("more", typeid(int)); this->registerSignal("changed");
        this->registerCall(this, "setI", &Blk::setI); this->registerCall(this, "setD", &Blk::setD); this->registerCall(this, "setS", &Blk::setS); this->registerCall(this, "setV", &Blk::setV); this->registerCall(this, "setL", &Blk::setL); this->registerCall(this, "add", &Blk::add); this->registerCall(this, "clear", &Blk::clear); this->registerCall(this, "fail", &Blk::fail);
    }
    ~Blk(void) { live--; made().erase(id); }
    void note(const std::string &w) { logged.push_back(std::to_string(id) + "." + w); }
    void setI(int a) { note("setI(" + all(a) + ")"); } void setD(double a) { note("setD(" + all(a) + ")"); } void setS(const std::string &a) { note("setS(" + all(a) + ")"); } void setV(const VI &a) { note("setV(" + all(a) + ")"); } void setL(const VS &a) { note("setL(" + all(a) + ")"); }
    int add(int a, int b) { note("add(" + all(a, b) + ")"); return a + b; } void clear(void) { note("clear()"); } void fail(void) { note("fail()"); throw Pothos::RuntimeException("failed"); }
};
static Pothos::Block *make0(void) { return new Blk("make0()"); }
static Pothos::Block *makeI(int a) { return new Blk("makeI(" + all(a) + ")"); }
static Pothos::Block *makeDS(double a, const std::string &b) { return new Blk("makeDS(" + all(a, b) + ")"); }
static std::shared_ptr<Pothos::Block> makeV(const VI &a, int b) { return std::shared_ptr<Pothos::Block>(new Blk("makeV(" + all(a, b) + ")")); }
static Pothos::Block *makeSID(const std::string &a, int b, double c) { return new Blk("makeSID(" + all(a, b, c) + ")"); }
static Object makeO(const Object *a, const size_t n) { return Object(std::shared_ptr<Pothos::Block>(new Blk("makeO(" + std::to_string(n) + ")"))); }
static std::shared_ptr<Topology> makeT(int a)
{
    auto t = std::shared_ptr<Topology>(Topology::make()); auto b = std::shared_ptr<Pothos::Block>(new Blk("makeT(" + all(a) + ")")); t->connect(t, "0", b, "0"); t->connect(t, "aux", b, "aux"); t->connect(b, "0", t, "0"); t->connect(b, "more", t, "more"); t->connect(b, "changed", t, "changed"); return t;
}
static Pothos::BlockRegistry r0("/verif/c07/make0", &make0), rI("/verif/c07/makeI", &makeI), rDS("/verif/c07/makeDS", &makeDS), rV("/verif/c07/makeV", &makeV), rSID("/verif/c07/makeSID", &makeSID), rO("/verif/c07/makeO", &makeO), rT("/verif/c07/makeT", &makeT);

struct Val { char kind; int i = 0; double d = 0; std::string s; VI v; VS l; }; // kinds I D S V L
typedef std::map<std::string, Val> Vars;
static const std::vector<std::string> varNames = {"x1", "yy", "rate", "title", "zed"};
//! a JSON value that evaluates to a value of this kind under these variables
static json gen(Src &s, char kind, const Vars &vars, Val &v)
{
    v = Val(); v.kind = kind; std::vector<std::string> same, ints; for (auto &x : vars) { if (x.second.kind == kind) same.push_back(x.first); if (x.second.kind == 'I') ints.push_back(x.first); }
    if (!same.empty() && s.chance(2, 5)) { const auto n = s.pick(same); v = vars.at(n); return s.chance(1, 4) ? json(" " + n + " ") : json(n); }
    switch (kind)
    {
    case 'I': if (!ints.empty() && s.chance(1, 4)) { const auto n = s.pick(ints); const int k = int(s.range(0, 9)); if (s.flip()) { v.i = vars.at(n).i + k; return json(n + " + " + std::to_string(k)); } v.i = k * vars.at(n).i; return json(std::to_string(k) + "*" + n); }
        v.i = int(s.range(-1000, 1000)); return s.flip() ? json(v.i) : json(std::to_string(v.i));
    case 'D': v.d = double(s.range(-400, 400)) / 8; if (!ints.empty() && s.chance(1, 5)) { const auto n = s.pick(ints); v.d = vars.at(n).i + 0.5; return json("(" + n + " + 0.5)"); } return s.flip() ? json(v.d) : json(std::to_string(v.d));
    case 'S': { static const VS words = {"plain words here", "hello", "unknown/path", "not an (expression", "weird ] text", "x1x", "ünïcode text", "a, b, c", "50 percent %", "key: value"}; static const VS quoted = {"quoted", "", "with space", "x1", "1 + 1", "[1, 2]", "a,b", "{c}"}; if (s.flip()) { v.s = s.pick(words); return json(v.s); } v.s = s.pick(quoted); return json("\"" + v.s + "\""); }
    case 'V': { std::string t = "["; json j = json::array(); const size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) { int k = int(s.range(-9, 99)); std::string e = std::to_string(k); if (!ints.empty() && s.chance(1, 3)) { e = s.pick(ints); k = vars.at(e).i; } v.v.push_back(k); j.push_back(k); t += (i ? ", " : "") + e; } t += "]"; return s.flip() ? j : json(t); }
    default: { json j = json::array(); std::string t = "["; const size_t n = 1 + s.draw(2); for (size_t i = 0; i < n; i++) { const std::string e = s.pick({std::string("one"), std::string("x1"), std::string("2 + 2"), std::string("a, b"), std::string("")}); v.l.push_back(e); j.push_back(e); t += (i ? "," : "") + std::string("\"") + e + "\""; } t += "]"; return s.flip() ? j : json(t); }
    }
}
static std::string textOf(const Val &v) { switch (v.kind) { case 'I': return one(v.i); case 'D': return one(v.d); case 'S': return one(v.s); case 'V': return one(v.v); default: return one(v.l); } }
static json genVars(Src &s, Vars &vars, const char *, bool local)
{
    const size_t n = s.draw(3); const bool array = s.flip(); json j = array ? json::array() : json::object(); const Vars before = vars; Vars made;
    for (size_t i = 0; i < n; i++)
    {
        const std::string name = s.pick(varNames); if (!array && made.count(name)) continue; Val v; Vars scope = array ? vars : (local ? before : Vars()); if (!array) for (auto &x : varNames) { if (!local) scope.erase(x); }
        // entries of a map have no order: they refer to nothing that the map itself defines
        if (!array && local) for (auto &x : varNames) scope.erase(x);
        const json e = gen(s, s.pick({'I', 'I', 'D', 'S', 'V'}), scope, v); if (array) j.push_back(json{{"name", name}, {"value", e}}); else j[name] = e; made[name] = v; if (array) vars[name] = v;
    }
    if (!array) for (auto &x : made) vars[x.first] = x.second; return j;
}
struct Call { std::string name, kinds; };
struct B { std::string id, pool; bool topo; };
struct Doc { json j; VS log; std::vector<B> blocks; std::vector<std::vector<std::string>> conns; VS pools; };
static Doc genDoc(Src &s, bool variety)
{
    Doc d; d.j = json::object(); Vars globals; json g = genVars(s, globals, "globals", false); if (!g.empty() || s.flip()) d.j["globals"] = g;
    if (s.chance(1, 3)) { const size_t n = 1 + s.draw(1); for (size_t i = 0; i < n; i++) { const std::string name = i ? "pool b" : "main"; json p = json::object(); if (s.flip()) p["numThreads"] = 1 + s.draw(2); if (s.flip()) p["yieldMode"] = s.pick({"CONDITION", "HYBRID", "SPIN", ""}); if (s.flip()) p["priority"] = double(s.range(-2, 2)) / 2; d.j["threadPools"][name] = p; d.pools.push_back(name); } }
    static const std::vector<Call> factories = {{"make0", ""}, {"makeI", "I"}, {"makeDS", "DS"}, {"makeV", "VI"}, {"makeSID", "SID"}, {"makeO", "SV"}, {"makeT", "I"}}, setters = {{"setI", "I"}, {"setD", "D"}, {"setS", "S"}, {"setV", "V"}, {"setL", "L"}, {"add", "II"}, {"clear", ""}};
    static const VS ids = {"a", "block 2", "c3", "Δ", "quo\"te", "x1", "0", "last"}; const size_t n = 1 + s.draw(3); int inst = 0; json blocks = json::array();
    for (size_t i = 0; i < n; i++)
    {
        B b; b.id = ids[(i * 2 + s.draw(1)) % ids.size()]; const auto f = s.pick(factories); b.topo = f.name == "makeT"; json j = json::object(); j["id"] = b.id; j["path"] = "/verif/c07/" + f.name; Vars vars = globals; json locals = s.flip() ? genVars(s, vars, "locals", true) : json(); if (!locals.is_null()) j["locals"] = locals;
        json args = json::array(); std::string text; for (char k : f.kinds) { Val v; args.push_back(gen(s, k, vars, v)); text += textOf(v) + ","; } if (!args.empty() || s.flip()) j["args"] = args; d.log.push_back(std::to_string(inst) + "=" + f.name + "(" + (f.name == "makeO" ? "2" : text) + ")");
        if (!b.topo) { json calls = json::array(); for (size_t k = s.draw(3); k > 0; k--) { const auto &c = s.pick(setters); json one = json::array({c.name}); std::string t; for (char q : c.kinds) { Val v; one.push_back(gen(s, q, vars, v)); t += textOf(v) + ","; } calls.push_back(one); d.log.push_back(std::to_string(inst) + "." + c.name + "(" + t + ")"); } if (!calls.empty() || s.flip()) j["calls"] = calls; }
        if (!d.pools.empty() && s.flip() && !b.topo) { b.pool = s.pick(d.pools); j["threadPool"] = b.pool; } else if (s.chance(1, 6)) j["threadPool"] = ""; inst++; blocks.push_back(j); d.blocks.push_back(b);
    }
    d.j["blocks"] = blocks; json conns = json::array(); static const VS outs = {"0", "more", "changed"}, ins = {"0", "aux"}, outer = {"0", "p", "q"}; static const VS selves = {"self", "this", ""};
    for (size_t k = s.draw(5); k > 0; k--)
    {
        std::string a, ap, b, bp; bool sa = s.chance(1, 5), sb = s.chance(1, 5); if (sa) { a = s.pick(selves); ap = s.pick(outer); } else { a = s.pick(d.blocks).id; ap = s.pick(outs); } if (sb) { b = s.pick(selves); bp = s.pick(outer); } else { b = s.pick(d.blocks).id; bp = s.pick(ins); }
        const std::vector<std::string> key = {sa ? "self" : a, ap, sb ? "self" : b, bp}; if (std::find(d.conns.begin(), d.conns.end(), key) != d.conns.end()) continue; d.conns.push_back(key);
        auto port = [&](const std::string &p) { return p == "0" && s.flip() ? json(0) : json(p); }; conns.push_back(json::array({a, port(ap), b, port(bp)}));
    }
    if (!conns.empty() || s.flip()) d.j["connections"] = conns; return d;
}
static std::string show(const json &j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

static void described(Case &c)
{
    auto &s = c.s; const Doc d = genDoc(s, true); c.desc << show(d.j); logged.clear(); Blk::next() = 0; PBT_CHECK(live == 0, live << " blocks alive before");
    {
        std::shared_ptr<Topology> t; const auto err = errorOf([&] { t = Topology::make(s.flip() ? d.j.dump() : d.j.dump(int(s.draw(4)))); }); PBT_CHECK(err.empty(), "rejected: " << err);
        std::string got, want; for (auto &x : logged) got += x + " "; for (auto &x : d.log) want += x + " "; PBT_CHECK(got == want, "made " << got << ", want " << want);
        // the same graph by id
        const json top = json::parse(t->dumpJSON("{\"mode\":\"top\"}")); std::map<std::string, std::string> name; std::set<std::string> used, listed; for (auto it = top["blocks"].begin(); it != top["blocks"].end(); ++it) { name[it.key()] = it.value()["name"].get<std::string>(); listed.insert(it.value()["name"].get<std::string>()); } name[t->uid()] = "self";
        std::multiset<std::vector<std::string>> conns, wantConns(d.conns.begin(), d.conns.end()); for (auto &x : top["connections"]) conns.insert({name[x["srcId"].get<std::string>()], x["srcName"].get<std::string>(), name[x["dstId"].get<std::string>()], x["dstName"].get<std::string>()});
        std::string diff; for (auto &x : wantConns) if (!conns.count(x)) diff += " missing " + x[0] + "[" + x[1] + "]->" + x[2] + "[" + x[3] + "]"; for (auto &x : conns) if (!wantConns.count(x)) diff += " extra " + x[0] + "[" + x[1] + "]->" + x[2] + "[" + x[3] + "]"; PBT_CHECK(diff.empty() && conns.size() == wantConns.size(), "connections:" << diff);
        for (auto &x : d.conns) { if (x[0] != "self") used.insert(x[0]); if (x[2] != "self") used.insert(x[2]); } PBT_CHECK(listed == used, "the dump lists " << listed.size() << " connected blocks, want " << used.size());
        std::set<std::string> in, out; for (auto &x : d.conns) { if (x[0] == "self") in.insert(x[1]); if (x[2] == "self") out.insert(x[3]); } const auto gi = t->inputPortNames(), go = t->outputPortNames(); PBT_CHECK(std::set<std::string>(gi.begin(), gi.end()) == in && std::set<std::string>(go.begin(), go.end()) == out && gi.size() == in.size() && go.size() == out.size(), "outer ports");
        // thread pools by name
        PBT_CHECK(live == int(used.size()), live << " blocks alive, " << used.size() << " connected");
        std::map<std::string, std::set<std::shared_ptr<void>>> pools; for (size_t i = 0; i < d.blocks.size(); i++) if (!d.blocks[i].topo && used.count(d.blocks[i].id)) pools[d.blocks[i].pool].insert(Blk::made().at(int(i))->getThreadPool().getContainer());
        std::set<std::shared_ptr<void>> distinct; size_t named = 0; for (auto &x : pools) if (!x.first.empty()) { named++; PBT_CHECK(x.second.size() == 1 && *x.second.begin(), "blocks of the pool " << x.first << " are in " << x.second.size() << " pools"); distinct.insert(*x.second.begin()); PBT_CHECK(!pools[""].count(*x.second.begin()), "a block without a pool is in " << x.first); } PBT_CHECK(distinct.size() == named, "two pools are the same");
        c.nontrivial = d.log.size() > 2 && !d.conns.empty(); c.count("calls", d.log.size()); c.count("connections", d.conns.size());
        // two dumps agree
        PBT_CHECK(t->dumpJSON() == t->dumpJSON(), "two dumps differ"); logged.clear();
    }
    PBT_CHECK(live == 0, live << " blocks alive after the topology was destroyed"); PBT_CHECK(logged.empty(), "more calls: " << logged[0]);
}
//! one mistake in a good description
static void mistaken(Case &c)
{
    auto &s = c.s; Doc d = genDoc(s, false); json &j = d.j; std::string text, what; logged.clear(); Blk::next() = 0; const size_t bi = s.draw(d.blocks.size() - 1); json &b = j["blocks"][bi]; bool must = true;
    const std::vector<json> other = {json(), json(5), json(1.5), json("text"), json(true), json::array(), json::object(), json::array({1}), json{{"k", 1}}, json::array({json::array()}), json::array({json::object()})};
    auto wrong = [&](const std::vector<json::value_t> &fine) { std::vector<json> v; for (auto &x : other) if (std::find(fine.begin(), fine.end(), x.type()) == fine.end()) v.push_back(x); return s.pick(v); }; typedef json::value_t T;
    auto conn = [&]() -> json & { if (!j.count("connections") || j["connections"].empty()) j["connections"] = json::array({json::array({d.blocks[0].id, "0", d.blocks[0].id, "aux"})}); return j["connections"][s.draw(j["connections"].size() - 1)]; };
    switch (s.draw(23))
    {
    case 0: what = "no id"; b.erase("id"); break;
    case 1: what = "no path"; b.erase("path"); break;
    case 2: what = "id of another type"; b["id"] = wrong({T::string}); break;
    case 3: what = "path of another type"; b["path"] = wrong({T::string}); break;
    case 4: what = "unknown path"; b["path"] = s.pick({"/verif/c07/nothing", "", "/", "verif/c07/make0", "/verif//c07", "/verif/c07", "/verif/c07/make0/x", "bad path!"}); if (b["path"] == "verif/c07/make0") must = false; break;
    case 5: what = "block of another type"; b = wrong({T::object}); break;
    case 6: { what = "unknown block in a connection"; json &x = conn(); x[s.flip() ? 0 : 2] = s.pick({"nobody", "Self", "a ", "SELF"}); break; }
    case 7: { what = "unknown port in a connection"; json &x = conn(); const size_t k = s.flip() ? 0 : 2; x[k] = s.pick(d.blocks).id; x[k + 1] = s.pick({json("none"), json(""), json("setX"), json(1.5), json(-1), json(nullptr), json::array()}); break; }
    case 8: { what = "connection with another size"; json &x = conn(); if (s.flip()) x.push_back("0"); else x.erase(x.size() - 1); break; }
    case 9: { what = "connection of another type"; json &x = conn(); x = wrong({T::array}); break; }
    case 10: { what = "block of a connection of another type"; json &x = conn(); x[s.flip() ? 0 : 2] = wrong({T::string}); break; }
    case 11: { what = "connection made twice"; const json x = conn(); j["connections"].push_back(x); break; }
    case 12: what = "unknown call"; if (!b.count("calls")) b["calls"] = json::array(); b["calls"].push_back(json::array({s.pick({"nothing", "", "SetI", "setI "}), 1})); break;
    case 13: what = "bad call"; if (!b.count("calls")) b["calls"] = json::array(); b["calls"].push_back(s.pick({json::array(), json::array({5}), json::array({json::array()}), json("setI"), json(7), json::object(), json(nullptr), json(true), json::array({nullptr, 1})})); break;
    case 14: what = "call with wrong arguments"; if (!b.count("calls")) b["calls"] = json::array(); b["calls"].push_back(s.pick({json::array({"setI"}), json::array({"setI", "\"text\""}), json::array({"setV", 3}), json::array({"add", 1}), json::array({"fail"}), json::array({"setI", json::array({1, 2})})})); break;
    case 15: what = "wrong number of arguments"; if (b["path"] == "/verif/c07/makeO") b["path"] = "/verif/c07/makeI"; if (b.value("args", json::array()).empty()) b["args"] = json::array({1, 2}); b["args"].push_back(1); if (b["args"].size() > 2) b["args"].push_back(2); if (b["path"] == "/verif/c07/makeSID") b["args"].push_back(7); break;
    case 16: what = "unfitting argument"; b["path"] = "/verif/c07/makeI"; b["args"] = json::array({s.pick({json("\"text\""), json("no such thing"), json::array({1}), json(nullptr)})}); break;
    case 17: { what = "variables of another type"; if (s.flip()) j["globals"] = wrong({T::array, T::object, T::null}); else b["locals"] = wrong({T::array, T::object, T::null}); break; }
    case 18: { what = "bad variable"; const json x = s.pick({json::object(), json{{"name", "x1"}}, json{{"value", 1}}, json(5), json("x1"), json{{"name", 5}, {"value", 1}}, json{{"name", nullptr}, {"value", 1}}, json::array({"x1", 1})}); if (s.flip()) j["globals"] = json::array({x}); else b["locals"] = json::array({x}); break; }
    case 19: what = "unknown thread pool"; b["threadPool"] = s.pick({"none", "Main", "main "}); break;
    case 20: { what = "bad thread pool"; j["threadPools"]["main"] = s.pick({json{{"yieldMode", "FAST"}}, json{{"affinityMode", "x"}}, json{{"priority", 3}}, json{{"numThreads", "many"}}, json(5), json("main"), json{{"priority", "high"}}, json{{"affinity", 5}}}); break; }
    case 21: { what = "section of another type"; const char *k = s.pick({"blocks", "connections", "threadPools"}); j[k] = s.pick({json(5), json("text"), json(true), json(2.5)}); break; }
    case 22: what = "not an object"; j = s.pick({json::array({1}), json(5), json("text"), json(true), json(nullptr), json::array()}); break;
    default: // damaged text
        text = j.dump(); must = false; what = "damaged text"; for (size_t k = 1 + s.draw(1); k > 0 && !text.empty(); k--) { const size_t p = s.draw(text.size() - 1); switch (s.draw(3)) { case 0: text.erase(p, 1); break; case 1: text[p] = char(s.pick({'"', '{', '}', '[', ']', ',', ':', '0', ' ', 'n', '\\'})); break; case 2: text.insert(p, 1, char(s.pick({'"', '{', '[', ']', ',', '-', 'e'}))); break; default: text.resize(p); } } try { (void)json::parse(text); } catch (const std::exception &) { must = true; what = "invalid JSON"; }
    }
    if (text.empty() && what != "invalid JSON" && what != "damaged text") text = j.dump(); c.desc << what << ": " << text; c.tag(what);
    {
        std::shared_ptr<Topology> t; std::string err; try { t = Topology::make(text); } catch (const Pothos::Exception &ex) { err = ex.displayText() + "!"; } catch (const std::exception &ex) { err = std::string(ex.what()) + "!"; }
        PBT_CHECK(!must || !err.empty(), what << ": accepted"); if (err.empty()) c.tag("accepted"); c.nontrivial = !err.empty();
        if (!err.empty()) PBT_CHECK(live == 0, what << ": " << live << " blocks stayed alive after " << err);
    }
    PBT_CHECK(live == 0, what << ": " << live << " blocks alive after the topology was destroyed");
}
PBT_MAIN("C07", (std::vector<Sub>{{"described", 1, &described, false}, {"mistaken", 1, &mistaken, false}}))
