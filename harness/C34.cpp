// C34: the drawing of a topology shows exactly its blocks, ports and connections.
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Poco/Logger.h>
#include <json.hpp>
#include <set>
#include <map>
using namespace pbt; using json = nlohmann::json; typedef std::string S; typedef std::vector<S> VS;

// ---------------------------------------------------------------- a reader of the DOT language, with HTML labels
struct Cell { S port, text, color; bool hasPort = false; };
struct Node { S id; std::vector<Cell> cells; };
struct Edge { S a, ap, b, bp; };
struct Dot
{
    const S &t; size_t p = 0; std::map<S, Node> nodes; std::vector<Edge> edges;
    explicit Dot(const S &t): t(t) { graph(); }
    void bad(const S &why) { PBT_FAIL("the drawing is not valid DOT, " << why << " at: " << t.substr(p, 60) << " in " << t.substr(0, 3000)); }
    void space(void) { while (p < t.size() && std::isspace((unsigned char)t[p])) p++; }
    bool eat(const S &w) { space(); if (t.compare(p, w.size(), w) == 0) { p += w.size(); return true; } return false; }
    void need(const S &w) { if (!eat(w)) bad("missing " + w); }
    S id(void)
    {
        space(); S r; if (p >= t.size()) bad("end of text");
        if (t[p] == '"') { p++; while (p < t.size() && t[p] != '"') { if (t[p] == '\\' && p + 1 < t.size() && t[p + 1] == '"') p++; r += t[p++]; } if (p >= t.size()) bad("open quote"); p++; return r; }
        if (t[p] == '<') { const size_t b = ++p; int depth = 1; while (p < t.size() && depth) { if (t[p] == '<') depth++; else if (t[p] == '>') depth--; p++; } if (depth) bad("open HTML text"); return t.substr(b, p - 1 - b); }
        auto letter = [](char c) { return std::isalpha((unsigned char)c) || c == '_' || (unsigned char)c >= 128; };
        if (letter(t[p])) { while (p < t.size() && (letter(t[p]) || std::isdigit((unsigned char)t[p]))) r += t[p++]; static const std::set<S> kw = {"node", "edge", "graph", "digraph", "subgraph", "strict"}; S low = r; for (auto &c : low) c = char(std::tolower(c)); if (kw.count(low)) bad("keyword as id"); return r; }
        if (t[p] == '-' ) r += t[p++];
        while (p < t.size() && (std::isdigit((unsigned char)t[p]) || t[p] == '.')) r += t[p++];
        if (r.empty() || r == "-" || (p < t.size() && letter(t[p]))) bad("bad id"); return r;
    }
    std::map<S, S> attrs(void) { std::map<S, S> r; while (eat("[")) { while (!eat("]")) { const S k = id(); need("="); r[k] = id(); if (!eat(",")) eat(";"); } } return r; }
    void graph(void)
    {
        need("digraph"); if (!eat("{")) { id(); need("{"); }
        while (!eat("}"))
        {
            if (eat("node [") || eat("edge [") || eat("graph [")) { p--; attrs(); eat(";"); continue; }
            const S a = id(); if (eat("=")) { id(); eat(";"); continue; }
            S ap; if (eat(":")) { ap = id(); if (eat(":")) id(); }
            if (eat("->")) { Edge e; e.a = a; e.ap = ap; e.b = id(); if (eat(":")) { e.bp = id(); if (eat(":")) id(); } attrs(); edges.push_back(e); eat(";"); continue; }
            const auto at = attrs(); if (nodes.count(a)) bad("node " + a + " twice"); Node n; n.id = a; if (!at.count("label")) bad("node without label"); cells(at.at("label"), n.cells); nodes[a] = n; eat(";");
        }
        space(); if (p != t.size()) bad("text after the graph");
    }
    static S decode(const S &x)
    {
        S r; for (size_t i = 0; i < x.size(); i++)
        {
            if (x[i] != '&') { r += x[i]; continue; } const size_t e = x.find(';', i); PBT_CHECK(e != S::npos, "open entity in " << x); const S n = x.substr(i + 1, e - i - 1); i = e;
            if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n[0] == '#') { const int c = n[1] == 'x' ? int(std::stoul(n.substr(2), nullptr, 16)) : std::stoi(n.substr(1)); PBT_CHECK(c < 128, "entity " << n); r += char(c); } else PBT_FAIL("unknown entity " << n);
        }
        return r;
    }
    //! the leaf cells of the nested tables, in order
    void cells(const S &h, std::vector<Cell> &out)
    {
        std::vector<S> open; std::vector<Cell> stack; size_t i = 0; S text;
        while (i < h.size())
        {
            if (h[i] != '<') { text += h[i++]; continue; }
            const size_t e = h.find('>', i); PBT_CHECK(e != S::npos, "open tag in " << h); S tag = h.substr(i + 1, e - i - 1); i = e + 1; const bool closing = tag[0] == '/', self = !tag.empty() && tag.back() == '/'; if (self) tag.pop_back();
            size_t q = closing ? 1 : 0; S name; while (q < tag.size() && !std::isspace((unsigned char)tag[q])) name += tag[q++];
            if (closing) { PBT_CHECK(!open.empty() && open.back() == name, "closing " << name << " in " << h); open.pop_back(); if (name == "td") { stack.back().text = decode(text); if (stack.back().color.size()) out.push_back(stack.back()); stack.pop_back(); } text.clear(); continue; }
            Cell c; while (q < tag.size())
            {
                while (q < tag.size() && std::isspace((unsigned char)tag[q])) q++; if (q >= tag.size()) break; S k, v; while (q < tag.size() && tag[q] != '=') k += tag[q++]; q++; PBT_CHECK(q < tag.size() && tag[q] == '"', "attribute in " << tag); q++; while (q < tag.size() && tag[q] != '"') v += tag[q++]; q++;
                v = decode(v); if (k == "port") { c.port = v; c.hasPort = true; } if (k == "bgcolor") c.color = v;
            }
            text.clear(); if (!self) { open.push_back(name); if (name == "td") stack.push_back(c); } else if (name == "td" && c.color.size()) out.push_back(c);
        }
        PBT_CHECK(open.empty(), "open tags in " << h);
    }
};

// ---------------------------------------------------------------- generated topologies
struct Blk : Pothos::Block
{
    Blk(const VS &in, const VS &out, const VS &sig, const VS &slots, const S &alias) { for (auto &x : in) setupInput(x, "int"); for (auto &x : out) setupOutput(x, "int"); for (auto &x : sig) registerSignal(x); for (auto &x : slots) registerSlot(x); if (!alias.empty() && !out.empty()) output(out[0])->setAlias(alias); }
    void work(void) override {}
};
static VS some(Src &s, const VS &from, size_t max) { VS r; const size_t n = s.draw(max); for (size_t i = 0; i < n; i++) { const auto x = s.pick(from); if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); } return r; }
static const VS inNames = {"0", "1", "in", "a b", "x:y", "q\"t", "a-b", "<t>", "a&b", "p.q", "\xc3\xa9", "node", "0x", "back\\", "n"}, outNames = {"0", "1", "out", "a b", "x;y", "q\"t", "a->b", "[t]", "a&b", "p.q", "\xc3\xa9", "edge", "1x", "back\\", "s"};
struct Item { std::shared_ptr<Blk> b; std::shared_ptr<Pothos::Topology> t; VS in, out, sig, slots; S alias; };

static void drawing(Case &c)
{
    auto &s = c.s; static const VS frag = {"a", "B", "<x>", "&amp;", "\"", " ", "-", "\\", "'", "\xc3\xa9", "->", ";", "{", "]"};
    size_t uniq = 0; auto name = [&](void) { S r; const size_t n = s.draw(3); for (size_t i = 0; i < n; i++) r += s.pick(frag); return r + std::to_string(uniq++); };
    size_t conns = 0, odd = 0; auto build = [&](auto &self, unsigned depth, const S &nm) -> Item
    {
        Item it; it.t = Pothos::Topology::make(); if (!nm.empty()) it.t->setName(nm); std::vector<Item> kids; const size_t n = 1 + s.draw(depth ? 2 : 4); c.desc << "topology '" << nm << "' {";
        for (size_t i = 0; i < n; i++)
        {
            if (depth < 2 && s.chance(1, 4)) { kids.push_back(self(self, depth + 1, name())); continue; }
            Item k; k.in = some(s, inNames, 3); k.out = some(s, outNames, 3); k.sig = some(s, {"sigA", "sig B", "s-C"}, 1); k.slots = some(s, {"slotA", "slot<B>", "s\"C"}, 2); const S bn = name(); k.alias = s.chance(1, 6) ? "other name" : "";
            k.b = std::make_shared<Blk>(k.in, k.out, k.sig, k.slots, k.alias); k.b->setName(bn); c.desc << " '" << bn << "'(" << k.in.size() << "," << k.out.size() << "," << k.sig.size() << "," << k.slots.size() << ")"; kids.push_back(k);
        }
        // connections between members, and from and to the outer ports
        const size_t m = s.draw(6);
        for (size_t i = 0; i < m; i++)
        {
            const size_t a = s.draw(kids.size() - 1), b = s.draw(kids.size() - 1); const bool asSig = s.chance(1, 4); const auto &from = asSig ? kids[a].sig : kids[a].out, &to = asSig ? kids[b].slots : kids[b].in; const int edge = depth ? int(s.weighted({4, 1, 1})) : s.chance(1, 12) ? int(1 + s.draw(1)) : 0;
            const S sp = from.empty() ? "" : s.pick(from), dp = to.empty() ? "" : s.pick(to);
            auto obj = [](Item &x) { return x.b ? Pothos::Object(std::static_pointer_cast<Pothos::Block>(x.b)) : Pothos::Object(x.t); }; const Pothos::Object me(it.t);
            if (edge == 1) { if (dp.empty() || asSig) continue; const S op = s.pick({S("0"), S("ext"), S("e x")}); const auto e = errorOf([&](void) { it.t->_connect(me, op, obj(kids[b]), dp); }); if (e.empty()) { conns++; c.desc << " [" << op << ">" << b << "." << dp << "]"; if (std::find(it.in.begin(), it.in.end(), op) == it.in.end()) it.in.push_back(op); } continue; }
            if (edge == 2) { if (sp.empty() || asSig) continue; const S op = s.pick({S("0"), S("res"), S("r-s")}); const auto e = errorOf([&](void) { it.t->_connect(obj(kids[a]), sp, me, op); }); if (e.empty()) { conns++; c.desc << " [" << a << "." << sp << ">" << op << "]"; if (std::find(it.out.begin(), it.out.end(), op) == it.out.end()) it.out.push_back(op); } continue; }
            if (sp.empty() || dp.empty()) continue; const S use = !asSig && sp == from[0] && !kids[a].alias.empty() && s.flip() ? kids[a].alias : sp;
            const auto e = errorOf([&](void) { it.t->_connect(obj(kids[a]), use, obj(kids[b]), dp); }); if (e.empty()) { conns++; c.desc << " [" << a << "." << use << ">" << b << "." << dp << "]"; if (use.find_first_not_of("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") != S::npos) odd++; }
        }
        c.desc << " }"; return it;
    };
    auto top = build(build, 0, s.flip() ? name() : S()).t; const S mode = s.pick({S("flat"), S("top"), S("rendered"), S()}), port = s.pick({S("all"), S("connected"), S()});
    if (mode == "rendered" || s.chance(1, 8)) { const auto e = errorOf([&](void) { top->commit(); }); c.desc << " commit" << (e.empty() ? "" : " (failed)"); }
    json req = json::object(); if (!mode.empty()) req["mode"] = mode; if (!port.empty()) req["port"] = port; const S reqText = req.empty() && s.flip() ? S() : req.dump(); c.desc << " draw " << reqText << "; ";
    const auto dump = json::parse(top->dumpJSON(reqText)); S text; { const auto e = errorOf([&](void) { text = top->toDotMarkup(reqText); }); PBT_CHECK(e.empty(), "drawing raised " << e); }
    const Dot dot(text); const bool onlyConnected = port != "all"; const S self = top->uid();
    // what the dump says: titles, ports by side and connections; the topology itself is seen from the inside
    typedef std::tuple<S, S, S, S> E; std::multiset<E> want, got; std::map<S, std::pair<std::map<S, bool>, std::map<S, bool>>> wantPorts; std::map<S, S> title; std::set<S> titles;
    const auto blocks = dump.count("blocks") && dump["blocks"].is_object() ? dump["blocks"] : json::object();
    for (auto b = blocks.begin(); b != blocks.end(); ++b) { S n = b.value()["name"]; if (n.empty()) n = "Empty Name"; PBT_CHECK(titles.insert(n).second, "two blocks named " << n << " (the harness names them differently)"); title[b.key()] = n; auto &w = wantPorts[n]; const bool isSelf = b.key() == self; for (const char *side : {"inputs", "outputs"}) if (b.value().count(side)) for (auto &q : b.value()[side]) ((S(side) == "inputs") != isSelf ? w.first : w.second)[q["name"].get<S>()] = q["isSigSlot"].get<bool>(); }
    std::map<S, std::pair<std::set<S>, std::set<S>>> used; size_t outer = 0;
    for (auto &q : dump["connections"]) { const S a = title[q["srcId"].get<S>()], b = title[q["dstId"].get<S>()], ap = q["srcName"], bp = q["dstName"]; used[a].second.insert(ap); used[b].first.insert(bp); if (q["srcId"] == self || q["dstId"] == self) { outer++; continue; } PBT_CHECK(!a.empty() && !b.empty(), "a connection of an unlisted block"); want.insert(E(a, ap, b, bp)); } // how the outer ports of the drawn topology itself look is not judged
    // what the drawing says
    std::map<S, const Node *> seen; std::map<S, std::pair<bool, bool>> colors;
    struct Res { S title; std::map<S, S> in, out; }; std::map<S, Res> res;
    for (auto &n : dot.nodes)
    {
        Res r; size_t titlesHere = 0; for (auto &x : n.second.cells) if (!x.hasPort) { titlesHere++; r.title = x.text; } PBT_CHECK(titlesHere == 1, "a node with " << titlesHere << " titles: " << text.substr(0, 2000)); PBT_CHECK(wantPorts.count(r.title), "the drawing has a block '" << r.title << "' that the topology lacks"); PBT_CHECK(!seen.count(r.title), "block '" << r.title << "' is drawn twice"); seen[r.title] = &n.second;
        bool right = false; std::set<S> ids; const auto &w = wantPorts[r.title]; size_t inN = 0, outN = 0; const S id = n.first;
        for (auto &x : n.second.cells)
        {
            if (!x.hasPort) { right = true; continue; } PBT_CHECK(ids.insert(x.port).second, "block '" << r.title << "' has two ports '" << x.port << "'"); auto &side = right ? w.second : w.first; const S pre = right ? "out" : "in"; S nm; bool found = false;
            for (auto &q : side) { const bool digits = !q.first.empty() && q.first.find_first_not_of("0123456789") == S::npos; if (x.text == q.first || (digits && x.text == pre + q.first)) { nm = q.first; found = true; } } if (x.text == pre + nm && side.count(x.text) && x.port.size() >= x.text.size() && x.port.compare(x.port.size() - x.text.size(), S::npos, x.text) == 0) nm = x.text;
            PBT_CHECK(found, "block '" << r.title << "' is drawn with " << pre << "put '" << x.text << "' that it lacks"); (right ? r.out : r.in)[x.port] = nm; (right ? outN : inN)++;
            const std::pair<bool, bool> k(right, side.at(nm)); auto cc = colors.find(x.color); if (cc == colors.end()) colors[x.color] = k; else PBT_CHECK(cc->second == k, "one color for different kinds of port");
            if (onlyConnected) PBT_CHECK((right ? used[r.title].second : used[r.title].first).count(nm), "port '" << nm << "' of '" << r.title << "' is drawn and not connected");
        }
        const size_t wi = onlyConnected ? used[r.title].first.size() : w.first.size(), wo = onlyConnected ? used[r.title].second.size() : w.second.size(); PBT_CHECK(inN == wi && outN == wo, "block '" << r.title << "' is drawn with " << inN << " inputs and " << outN << " outputs, want " << wi << " and " << wo); res[id] = r;
    }
    PBT_CHECK(seen.size() == titles.size(), "the drawing has " << seen.size() << " blocks, want " << titles.size());
    for (auto &e : dot.edges)
    {
        if (outer && (!res.count(e.a) || !res.count(e.b))) { outer--; continue; }
        PBT_CHECK(res.count(e.a) && res.count(e.b), "an edge " << e.a << " -> " << e.b << " of an undrawn block"); auto &a = res[e.a], &b = res[e.b]; PBT_CHECK(a.out.count(e.ap), "an edge starts at '" << e.ap << "', which is no output drawn at '" << a.title << "'"); PBT_CHECK(b.in.count(e.bp), "an edge ends at '" << e.bp << "', which is no input drawn at '" << b.title << "'");
        got.insert(E(a.title, a.out[e.ap], b.title, b.in[e.bp]));
    }
    auto show = [](const std::multiset<E> &m) { S r; for (auto &e : m) r += std::get<0>(e) + ":" + std::get<1>(e) + " -> " + std::get<2>(e) + ":" + std::get<3>(e) + ", "; return r; };
    PBT_CHECK(got == want, "the drawing connects " << show(got) << "want " << show(want)); c.count("connections", want.size()); c.nontrivial = want.size() > 1 && titles.size() > 1; if (odd) c.tag("odd port names"); c.tag(mode.empty() ? "default" : mode);
}
PBT_MAIN("C34", {{"drawing", 1, drawing, true}})
