// C22: the plugin registry behaves as a tree of uniquely named plugins.
#include "common.hpp"
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <mutex>
using namespace pbt;
typedef Pothos::PluginRegistry PR;

// ---------------------------------------------------------------- model
struct Ev { int handler; std::string path, event; bool operator<(const Ev &o) const { return std::tie(handler, path, event) < std::tie(o.handler, o.path, o.event); } };
static std::vector<Ev> eventLog; static std::mutex eventMutex;
struct Handler
{
    static void tell(const int id, const bool throws, const Pothos::Plugin &p, const std::string &event)
    {
        { std::lock_guard<std::mutex> l(eventMutex); eventLog.push_back({id, p.getPath().toString(), event}); }
        if (throws) throw Pothos::RuntimeException("handler " + std::to_string(id));
    }
};
static Pothos::Callable makeHandler(int id, bool throws) { auto c = Pothos::Callable(&Handler::tell); c.bind(id, 0); c.bind(throws, 1); return c; }
static std::string almostHandler(const Pothos::Plugin &, const std::string &) { PBT_FAIL("a callable that is no event handler was called"); }
static void almostHandler1(const Pothos::Plugin &) { PBT_FAIL("a callable that is no event handler was called"); }

struct Node
{
    bool has = false; int value = 0, handler = -1; std::vector<std::string> order; std::map<std::string, Node> kids;
    size_t count(void) const { size_t n = has; for (auto &k : kids) n += k.second.count(); return n; }
};
struct Tree
{
    Node root; std::string base;
    const Node *find(const std::vector<std::string> &p) const { auto n = &root; for (auto &x : p) { auto it = n->kids.find(x); if (it == n->kids.end()) return nullptr; n = &it->second; } return n; }
    Node &make(const std::vector<std::string> &p) { auto n = &root; for (auto &x : p) { if (!n->kids.count(x)) n->order.push_back(x); n = &n->kids[x]; } return *n; }
    std::string str(const std::vector<std::string> &p) const { auto r = base; for (auto &x : p) r += "/" + x; return r; }
    //! events of adding or removing the plugin at p
    void events(const std::vector<std::string> &p, const std::string &ev, std::vector<Ev> &out) const
    {
        auto n = &root; if (p.empty()) return;
        if (n->handler >= 0) out.push_back({n->handler, str(p), ev});
        for (size_t i = 0; i + 1 < p.size(); i++) { n = &n->kids.at(p[i]); if (n->handler >= 0) out.push_back({n->handler, str(p), ev}); }
    }
    void missed(const Node &n, const std::string &path, int handler, std::vector<Ev> &out) const { for (auto &k : n.kids) { if (k.second.has) out.push_back({handler, path + "/" + k.first, "add"}); missed(k.second, path + "/" + k.first, handler, out); } }
};
static void judgeEvents(std::vector<Ev> want, const std::string &what)
{
    std::vector<Ev> got; { std::lock_guard<std::mutex> l(eventMutex); got.swap(eventLog); }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    auto show = [](const std::vector<Ev> &v) { std::string s; for (auto &e : v) s += "h" + std::to_string(e.handler) + " " + e.event + " " + e.path + ", "; return s; };
    PBT_CHECK(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const Ev &a, const Ev &b) { return !(a < b) && !(b < a); }), what << ": handlers were told " << show(got) << " want " << show(want));
}
static const std::vector<std::string> NAMES = {"a", "b", "c", "A", "a_b", "a-b", "0", "very_long_name_of_a_plugin"};
static std::vector<std::string> genPath(Src &s) { std::vector<std::string> p; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) p.push_back(NAMES[s.chance(4, 5) ? s.draw(2) : s.draw(NAMES.size() - 1)]); return p; }

static void judgeQueries(const Tree &t, const std::vector<std::string> &p, const std::string &when)
{
    const auto str = t.str(p); const Pothos::PluginPath path(str); const auto n = t.find(p);
    PBT_CHECK(PR::empty(path) == !(n && n->has), when << ": empty(" << str << ")");
    PBT_CHECK(PR::exists(path) == (n && n->count() != 0), when << ": exists(" << str << ")");
    std::vector<std::string> want; if (n) for (auto &k : n->order) if (n->kids.at(k).count()) want.push_back(k);
    const auto got = PR::list(path);
    auto show = [](const std::vector<std::string> &v) { std::string s; for (auto &e : v) s += e + " "; return s; };
    PBT_CHECK(got == want, when << ": list(" << str << ") gives " << show(got) << " want " << show(want));
    if (n && n->has)
    {
        const auto g = PR::get(path);
        PBT_CHECK(g.getPath() == path && g.getPath().toString() == str, when << ": get(" << str << ") has path " << g.getPath().toString());
        if (n->handler == -1) PBT_CHECK(g.getObject().type() == typeid(int) && g.getObject().extract<int>() == n->value, when << ": get(" << str << ") holds " << g.getObject().toString() << " want " << n->value);
    }
    else PBT_CHECK(throws<Pothos::PluginRegistryError>([&](void) { PR::get(path); }), when << ": get(" << str << ") of an absent plugin");
}
static void judgeDump(const Node &n, const std::string &path, const Pothos::PluginRegistryInfoDump &d)
{
    PBT_CHECK(d.pluginPath == path, "dump: path " << d.pluginPath << " want " << path);
    PBT_CHECK(n.has == !d.objectType.empty(), "dump: object type '" << d.objectType << "' at " << path);
    // nodes left empty by removals may or may not be listed
    std::map<std::string, bool> live; for (auto &k : n.kids) if (k.second.count()) live[k.first] = true;
    size_t i = 0; std::vector<std::string> want; for (auto &k : n.order) if (live.count(k)) want.push_back(k);
    for (auto &sub : d.subInfo)
    {
        const auto name = sub.pluginPath.substr(sub.pluginPath.rfind('/') + 1);
        if (!live.count(name)) continue;
        PBT_CHECK(i < want.size() && want[i] == name, "dump: " << path << " lists " << name << " out of order"); i++;
        judgeDump(n.kids.at(name), path + "/" + name, sub);
    }
    PBT_CHECK(i == want.size(), "dump: " << path << " lacks an entry");
}
static int uniq = 0;
static std::string freshBase(void) { return "/vp" + std::to_string(::getpid()) + "_" + std::to_string(uniq++); }
static void cleanup(const Node &n, const std::string &path) { for (auto &k : n.kids) cleanup(k.second, path + "/" + k.first); if (n.has) try { PR::remove(path); } catch (...) {} }

static void history(Case &c)
{
    auto &s = c.s;
    Tree t; t.base = freshBase(); int handlers = 0; size_t removes = 0, rejects = 0, told = 0;
    eventLog.clear();
    struct Clean { Tree &t; ~Clean(void) { cleanup(t.root, t.base); eventLog.clear(); } } clean{t};
    const size_t nops = 1 + size_t(s.small(0, 40));
    for (size_t k = 0; k < nops; k++)
    {
        const auto p = genPath(s); const auto str = t.str(p); auto n = t.find(p); std::vector<Ev> want;
        const size_t op = k + 1 == nops && s.chance(1, 10) ? 4 : s.weighted({6, 3, 4, 2});
        c.desc << (op < 2 ? "add " : op == 2 ? "remove " : op == 3 ? "query " : "dump ") << str.substr(t.base.size()) << "; ";
        if (op < 2) // add a value or a handler
        {
            const bool isHandler = op == 1, callable = s.chance(1, 6); const int h = handlers;
            Pothos::Object o;
            const int value = int(s.range(0, 1000));
            const bool throwing = s.chance(1, 4);
            if (isHandler) { if (callable) o = s.flip() ? Pothos::Object(Pothos::Callable(&almostHandler)) : Pothos::Object(Pothos::Callable(&almostHandler1)); else o = Pothos::Object(makeHandler(h, throwing)); handlers++; }
            else o = Pothos::Object(value);
            const bool occupied = n && n->has;
            if (!occupied) { auto &m = t.make(p); t.events(p, "add", want); m.has = true; m.value = value; m.handler = !isHandler ? -1 : callable ? -2 : h; if (isHandler && !callable) t.missed(m, str, h, want); }
            bool threw = false;
            try { PR::add(Pothos::Plugin(str, o)); } catch (const Pothos::PluginRegistryError &) { threw = true; }
            PBT_CHECK(threw == occupied, "add(" << str << ") " << (threw ? "was rejected" : "was accepted at an occupied path"));
            if (threw) rejects++;
        }
        else if (op == 2)
        {
            const bool present = n && n->has;
            const int value = present ? n->value : 0, handler = present ? n->handler : -1;
            if (present) { auto &m = t.make(p); m.has = false; m.handler = -1; t.events(p, "remove", want); removes++; }
            bool threw = false; Pothos::Plugin r;
            try { r = PR::remove(str); } catch (const Pothos::PluginRegistryError &) { threw = true; }
            PBT_CHECK(threw == !present, "remove(" << str << ") " << (threw ? "was rejected" : "removed an absent plugin"));
            if (threw) rejects++;
            else { PBT_CHECK(r.getPath().toString() == str, "remove(" << str << ") returned another plugin"); if (handler == -1) PBT_CHECK(r.getObject().type() == typeid(int) && r.getObject().extract<int>() == value, "remove(" << str << ") returned another object"); }
        }
        else if (op == 3) judgeQueries(t, p, "query");
        else
        {
            const auto d = PR::dump(); const Pothos::PluginRegistryInfoDump *mine = nullptr;
            for (auto &x : d.subInfo) if (x.pluginPath == t.base) mine = &x;
            PBT_CHECK(mine || t.root.count() == 0, "dump lacks " << t.base); if (mine) judgeDump(t.root, t.base, *mine);
        }
        told += want.size();
        judgeEvents(want, "step " + std::to_string(k) + " at " + str);
        judgeQueries(t, p, "after step");
        if (s.chance(1, 3)) judgeQueries(t, genPath(s), "elsewhere after step");
    }
    // everything that the model lists, and prefixes
    std::function<void(const Node &, std::vector<std::string>)> all = [&](const Node &n, std::vector<std::string> p) { judgeQueries(t, p, "at the end"); for (auto &k : n.kids) { p.push_back(k.first); all(k.second, p); p.pop_back(); } };
    all(t.root, {});
    if (told) c.tag("events"); if (rejects) c.tag("rejections");
    c.nontrivial = t.root.count() > 1 && removes > 0 && nops > 5;
}

// ---------------------------------------------------------------- paths
static bool wellFormed(const std::string &p)
{
    if (p.empty() || p[0] != '/') return false; if (p == "/") return true;
    bool nameStarted = false;
    for (size_t i = 1; i < p.size(); i++)
    {
        const char ch = p[i];
        if (ch == '/') { if (!nameStarted) return false; nameStarted = false; continue; }
        if (!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_' || ch == '-')) return false;
        nameStarted = true;
    }
    return nameStarted;
}
static std::vector<std::string> split(const std::string &p) { std::vector<std::string> out; std::string cur; for (char ch : p) { if (ch == '/') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) out.push_back(cur); return out; }
static void tryPath(const std::string &str, const std::function<Pothos::PluginPath(void)> &f, const std::string &what)
{
    const bool ok = wellFormed(str); bool threw = false;
    try { const auto p = f(); PBT_CHECK(ok, what << " accepted '" << str << "'"); PBT_CHECK(p.toString() == str, what << ": '" << p.toString() << "' want '" << str << "'"); PBT_CHECK(p.listNodes() == split(str), what << ": nodes of '" << str << "'"); Pothos::PluginPath q(p); PBT_CHECK(q == p && !(q != p), what << ": copy differs"); }
    catch (const Pothos::PluginPathError &) { threw = true; }
    PBT_CHECK(threw == !ok, what << " rejected '" << str << "'");
}
static std::string genPathText(Src &s)
{
    std::string p; const size_t n = size_t(s.small(0, 5));
    for (size_t i = 0; i < n; i++) p += "/" + NAMES[s.draw(NAMES.size() - 1)];
    if (s.chance(1, 3)) p = "/";
    if (s.chance(1, 2)) for (size_t k = 1 + size_t(s.small(0, 2)); k > 0; k--)
    {
        const std::string odd = "/ .a\t\n@[`{:\xc3-_Zz09\\\0"; const char ch = s.chance(1, 20) ? char(s.draw(255)) : odd[s.draw(odd.size() - 1)];
        if (s.flip() || p.empty()) p.insert(size_t(s.draw(p.size())), 1, ch); else if (s.flip()) p[s.draw(p.size() - 1)] = ch; else p.erase(s.draw(p.size() - 1), 1);
    }
    return p;
}
static void paths(Case &c)
{
    auto &s = c.s;
    const auto a = genPathText(s), b = genPathText(s); c.desc << "'" << a << "' '" << b << "'";
    tryPath(a, [&](void) { return Pothos::PluginPath(a); }, "PluginPath(string)");
    if (a.find('\0') == std::string::npos) tryPath(a, [&](void) { return Pothos::PluginPath(a.c_str()); }, "PluginPath(chars)");
    if (wellFormed(a) && wellFormed(b))
    {
        std::string want; for (auto &x : split(a)) want += "/" + x; for (auto &x : split(b)) want += "/" + x; if (want.empty()) want = "/";
        tryPath(want, [&](void) { return Pothos::PluginPath(Pothos::PluginPath(a), Pothos::PluginPath(b)); }, "PluginPath('" + a + "', '" + b + "')");
        PBT_CHECK((Pothos::PluginPath(a) == Pothos::PluginPath(b)) == (a == b), "comparing '" << a << "' with '" << b << "'");
        c.tag("joined");
    }
    if (wellFormed(a))
    {
        std::string sub; for (size_t n = size_t(s.small(0, 3)), i = 0; i < n; i++) sub += (i ? "/" : "") + NAMES[s.draw(NAMES.size() - 1)];
        if (s.chance(1, 3) && !sub.empty()) sub[s.draw(sub.size() - 1)] = s.pick({'/', ' ', 'x', '.'});
        if (!sub.empty()) tryPath((a == "/" ? "" : a) + "/" + sub, [&](void) { if (sub[0] == '/') throw Pothos::PluginPathError(""); return Pothos::PluginPath(a).join(sub); }, "join"); // sub-paths are relative: one with a leading slash is not judged
        c.tag("sub-path");
    }
    c.nontrivial = a.size() > 1;
}

// ---------------------------------------------------------------- concurrency
static void concurrent(Case &c)
{
    auto &s = c.s;
    const auto base = freshBase(); const size_t nstable = size_t(s.range(1, 4)), nreaders = size_t(s.range(1, 4)), nwriters = size_t(s.range(1, 3)), rounds = size_t(s.range(3, 30));
    c.desc << nreaders << " readers, " << nwriters << " writers, " << rounds << " rounds";
    std::vector<std::string> stable; for (size_t i = 0; i < nstable; i++) { stable.push_back(base + "/s" + std::to_string(i) + (s.flip() ? "/x" : "")); PR::add(stable.back(), int(i)); }
    std::vector<std::string> toggled; for (size_t w = 0; w < nwriters; w++) toggled.push_back(base + "/" + (s.flip() ? "s0/t" : "t") + std::to_string(w) + (s.flip() ? "/y/z" : ""));
    std::atomic<bool> stop{false}; std::vector<std::string> errs(nreaders + nwriters); std::vector<uint64_t> seeds; for (size_t i = 0; i < nreaders + nwriters; i++) seeds.push_back(s.draw(1 << 30));
    std::vector<std::thread> ths; std::atomic<size_t> go{0};
    auto guard = [&](size_t i, const std::function<void(Src &)> &f) { Src ts(seeds[i]); go++; while (go < nreaders + nwriters) std::this_thread::yield(); try { f(ts); } catch (const std::exception &ex) { errs[i] = currentExceptionText(); } };
    for (size_t w = 0; w < nwriters; w++) ths.emplace_back([&, w](void) { guard(nreaders + w, [&](Src &)
    {
        for (size_t r = 0; r < rounds; r++)
        {
            PR::add(toggled[w], int(1000 + r)); const auto g = PR::get(toggled[w]); PBT_CHECK(g.getObject().extract<int>() == int(1000 + r), "own plugin reads differently");
            const auto x = PR::remove(toggled[w]); PBT_CHECK(x.getObject().extract<int>() == int(1000 + r), "removed plugin reads differently"); PBT_CHECK(PR::empty(toggled[w]), "own removed plugin is still there");
        }
        stop = true;
    }); });
    for (size_t r = 0; r < nreaders; r++) ths.emplace_back([&, r](void) { guard(r, [&](Src &ts)
    {
        size_t k = 0;
        do
        {
            const size_t i = ts.draw(nstable - 1); if (ts.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(20)); // lets writers in
            switch (ts.chance(1, 100) ? 5 : ts.draw(4))
            {
            case 0: PBT_CHECK(PR::get(stable[i]).getObject().extract<int>() == int(i), "stable plugin reads differently"); break;
            case 1: PBT_CHECK(PR::exists(stable[i]) && !PR::empty(stable[i]) && PR::exists(base), "stable plugin is missing"); break;
            case 2: { std::vector<std::string> l; for (auto &x : PR::list(base)) if (x[0] == 's') l.push_back(x); PBT_CHECK(l.size() == nstable, "list lacks stable plugins"); for (size_t j = 0; j < l.size(); j++) PBT_CHECK(l[j] == "s" + std::to_string(j), "list is out of order"); } break;
            case 3: { const auto missing = base + "/m" + std::to_string(ts.draw(200)) + "/" + std::to_string(ts.draw(200)); PBT_CHECK(!PR::exists(missing) && PR::empty(missing) && PR::list(missing).empty(), "an absent path exists"); PBT_CHECK(throws<Pothos::PluginRegistryError>([&](void) { PR::get(missing); }), "get of an absent path"); } break;
            case 4: { const auto &t = toggled[ts.draw(nwriters - 1)]; try { const auto v = PR::get(t).getObject().extract<int>(); PBT_CHECK(v >= 1000 && v < int(1000 + rounds), "changing plugin reads " << v); } catch (const Pothos::PluginRegistryError &) {} } break;
            default: { const auto d = PR::dump(); bool found = false; for (auto &x : d.subInfo) if (x.pluginPath == base) found = true; PBT_CHECK(found, "dump lacks " << base); } break;
            }
        } while (++k < 20 || (!stop && k < 150));
    }); });
    for (auto &t : ths) t.join();
    for (auto &p : stable) PR::remove(p);
    for (auto &e : errs) PBT_CHECK(e.empty(), e);
    PBT_CHECK(!PR::exists(base), "something is left below " << base);
    c.nontrivial = nreaders + nwriters > 2;
}

PBT_MAIN("C22", {{"history", 24, history}, {"paths", 12, paths}, {"concurrent", 1, concurrent, true}})
