// C32: a loaded module provides exactly its plugins, for exactly as long as it is referenced.
#include "common.hpp"
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Object.hpp>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt; typedef Pothos::PluginRegistry PR; typedef Pothos::PluginModule PM; typedef std::vector<std::string> VS;

template <typename F> static std::string textOf(F &&f) { try { f(); return ""; } catch (const Fail &x) { return currentExceptionText(); } catch (...) { return currentExceptionText(); } }
static const size_t FILES = 3;
static std::vector<size_t> gens(FILES, 0); static bool mapped(size_t i);
static std::string fileOf(size_t i);
static void settle(void) { { std::ofstream o(fileOf(0) + ".plugins"); o << "\n0\n"; } Pothos::PluginModule m(fileOf(0)); } //!< forgets what an earlier case left behind
static std::string fileOf(size_t i) { return scratchDir() + "/module" + std::to_string(i) + "_" + std::to_string(gens[i]) + ".so"; }
static void prepare(void)
{
    static bool done = false; if (done) { for (size_t i = 0; i < FILES; i++) if (mapped(i)) { std::ifstream in(fileOf(i), std::ios::binary); gens[i]++; std::ofstream o(fileOf(i), std::ios::binary); o << in.rdbuf(); } return; } done = true; auto src = std::getenv("PBT_MODULE"); PBT_CHECK(src, "no module");
    std::ifstream in(src, std::ios::binary); const std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); PBT_CHECK(data.size() > 1000, "no module data");
    for (size_t i = 0; i < FILES; i++) { std::ofstream o(fileOf(i), std::ios::binary); o << data; }
    { std::ofstream o(scratchDir() + "/garbage.so"); o << "this is no library\n"; } { std::ofstream o(scratchDir() + "/cut.so", std::ios::binary); o << data.substr(0, 40); } { std::ofstream o(scratchDir() + "/empty.so"); } ::mkdir((scratchDir() + "/dir.so").c_str(), 0755);
}
static bool mapped(size_t i) { if (void *h = ::dlopen(fileOf(i).c_str(), RTLD_NOLOAD | RTLD_LAZY)) { ::dlclose(h); return true; } return false; }
struct Entry { char kind; std::string path; };
struct Spec { std::string version; int ident; std::vector<Entry> adds; };
static void writeSpec(size_t i, const Spec &sp) { std::ofstream o(fileOf(i) + ".plugins"); o << sp.version << "\n" << sp.ident << "\n"; for (auto &e : sp.adds) o << e.kind << " " << e.path << "\n"; }

struct Load { size_t file; size_t refs = 0; std::string version; VS paths; bool first; }; //!< one load of a file
struct Own { int load; char kind; int value; }; //!< who provides a path; load -1: the host program
static int uniq = 0;
static void history(Case &c)
{
    auto &s = c.s; prepare(); settle(); const std::string base = "/vm" + std::to_string(uniq++); static const VS leaves = {"/a", "/b", "/a/c", "/d/e", "/f", "/g"}; std::vector<Load> loads; std::map<std::string, Own> model; std::vector<size_t> counts(FILES, 0); std::vector<Spec> current(FILES), spec(FILES);
    std::vector<std::pair<std::unique_ptr<PM>, int>> slots(4); for (auto &x : slots) { x.first.reset(new PM()); x.second = -1; } size_t unloads = 0, nfail = 0, moduleLoads = 0;
    struct Clean { std::vector<std::pair<std::unique_ptr<PM>, int>> &slots; std::string base; ~Clean(void) { slots.clear(); std::function<void(const std::string &)> rm = [&](const std::string &p) { for (auto &x : PR::list(p)) rm(p + "/" + x); if (!PR::empty(p)) try { PR::remove(p); } catch (...) {} }; rm(base); } } clean{slots, base};
    std::vector<std::pair<Pothos::Plugin, int>> held; // plugins kept together with their module
    for (size_t i = 0; i < FILES; i++) { Spec sp; sp.version = s.pick({std::string("1.2"), std::string(""), std::string("v-" + std::to_string(i))}); sp.ident = int(i * 100 + s.draw(99)); for (size_t n = s.draw(3); n > 0; n--) sp.adds.push_back({s.pick({'c', 'i'}), base + s.pick(leaves)}); spec[i] = sp; writeSpec(i, sp); c.desc << "module" << i << " has"; for (auto &e : sp.adds) c.desc << " " << e.path.substr(base.size()); c.desc << "; "; }
    auto release = [&](int l) { if (l < 0) return; auto &ld = loads[size_t(l)]; if (--ld.refs) return; unloads++; for (auto it = model.begin(); it != model.end();) if (it->second.load == l) it = model.erase(it); else ++it; counts[ld.file]--; };
    auto judge = [&](const std::string &when)
    {
        for (auto &lf : leaves)
        {
            const auto p = base + lf; auto it = model.find(p); PBT_CHECK(PR::empty(p) == (it == model.end()), when << ": " << lf << (it == model.end() ? " is still registered" : " is gone")); if (it == model.end()) continue;
            const auto pl = PR::get(p); const auto &o = it->second; const auto mod = pl.getModule(); PBT_CHECK(mod.getFilePath() == (o.load < 0 ? "" : fileOf(loads[size_t(o.load)].file)), when << ": " << lf << " is said to come from '" << mod.getFilePath() << "'"); PBT_CHECK(bool(mod) == (o.load >= 0), when << ": module of " << lf); if (o.load >= 0) PBT_CHECK(mod.getVersion() == loads[size_t(o.load)].version, when << ": version of the module of " << lf);
            if (o.kind == 'c') { PBT_CHECK(pl.getObject().type() == typeid(Pothos::Callable), when << ": type of " << lf); const int r = pl.getObject().extract<Pothos::Callable>().call(7).convert<int>(); PBT_CHECK(r == 7000 + o.value, when << ": calling " << lf << " gives " << r); } else PBT_CHECK(pl.getObject().type() == typeid(int) && pl.getObject().extract<int>() == o.value, when << ": value of " << lf);
        }
        for (size_t i = 0; i < FILES; i++) PBT_CHECK(mapped(i) == (counts[i] > 0), when << ": module" << i << (counts[i] ? " is not loaded" : " is still loaded"));
        for (auto &x : slots) { PBT_CHECK(bool(*x.first) == (x.second >= 0), when << ": a handle is " << bool(*x.first)); if (x.second < 0) { PBT_CHECK(x.first->getFilePath().empty() && x.first->getVersion().empty() && x.first->getPluginPaths().empty(), when << ": a null module has properties"); continue; } const auto &ld = loads[size_t(x.second)]; PBT_CHECK(x.first->getFilePath() == fileOf(ld.file), when << ": file path of a handle"); PBT_CHECK(x.first->getVersion() == ld.version, when << ": version of a handle is '" << x.first->getVersion() << "' want '" << ld.version << "'"); if (ld.first) PBT_CHECK(x.first->getPluginPaths() == ld.paths, when << ": plugin paths of a handle: " << x.first->getPluginPaths().size() << " want " << ld.paths.size()); }
    };
    auto noteLoad = [&](size_t f) -> int
    {
        Load ld; ld.file = f; ld.refs = 1; ld.first = counts[f] == 0; const int id = int(loads.size()); moduleLoads++;
        if (ld.first) { current[f] = spec[f]; ld.version = spec[f].version; for (auto &e : spec[f].adds) if (!model.count(e.path)) { model[e.path] = {id, e.kind, spec[f].ident}; ld.paths.push_back(e.path); } }
        counts[f]++; loads.push_back(ld); return id;
    };
    judge("at the start");
    const size_t n = 2 + s.draw(18);
    for (size_t k = 0; k < n; k++)
    {
        const size_t a = s.draw(slots.size() - 1), b = s.draw(slots.size() - 1);
        switch (s.weighted({6, 4, 3, 3, 3, 3, 2, 2, 1}))
        {
        case 0: { const size_t f = s.draw(FILES - 1); c.desc << "load " << f << " into " << a << "; "; std::unique_ptr<PM> m; if (slots[a].second >= 0) { c.desc << "(dropping) "; slots[a].first.reset(); release(slots[a].second); slots[a].second = -1; } m.reset(new PM(fileOf(f))); slots[a].first = std::move(m); slots[a].second = noteLoad(f); break; }
        case 1: c.desc << "drop " << a << "; "; slots[a].first.reset(new PM()); release(slots[a].second); slots[a].second = -1; break;
        case 2: c.desc << "copy " << a << " to " << b << "; "; if (a != b) { slots[b].first.reset(new PM(*slots[a].first)); if (slots[a].second >= 0) loads[size_t(slots[a].second)].refs++; release(slots[b].second); slots[b].second = slots[a].second; } break;
        case 3: c.desc << "assign " << a << " to " << b << "; "; { const PM &from = *slots[a].first; *slots[b].first = from; if (slots[a].second >= 0) loads[size_t(slots[a].second)].refs++; release(slots[b].second); slots[b].second = slots[a].second; } break;
        case 4: { const auto lf = s.pick(leaves), p = base + lf; c.desc << "host adds " << lf << "; "; const int v = int(s.draw(99)); const bool taken = model.count(p); const auto err = errorOf([&](void) { PR::add(p, v); }); PBT_CHECK(err.empty() == !taken, "host add of " << lf << ": " << err); if (!taken) model[p] = {-1, 'i', v}; break; }
        case 5: { if (model.empty()) break; auto it = model.begin(); std::advance(it, s.draw(model.size() - 1)); c.desc << "remove " << it->first.substr(base.size()) << "; "; { const auto r = PR::remove(it->first); PBT_CHECK(r.getPath().toString() == it->first, "removed another plugin"); } model.erase(it); break; }
        case 6: { const auto bad = s.pick({std::string("/garbage.so"), std::string("/cut.so"), std::string("/empty.so"), std::string("/dir.so"), std::string("/missing.so"), std::string("/nowhere/x.so")}); c.desc << "load" << bad << "; "; nfail++; bool threw = false; try { PM m(scratchDir() + bad); } catch (const Pothos::PluginModuleError &) { threw = true; } PBT_CHECK(threw, bad << " was loaded"); break; }
        case 7: { // keep a plugin together with its module
            const auto p = base + s.pick(leaves); auto it = model.find(p); if (it == model.end() || it->second.load < 0) break; c.desc << "keep " << p.substr(base.size()) << " in " << a << "; "; const auto pl = PR::get(p); const int l = it->second.load; *slots[a].first = pl.getModule(); loads[size_t(l)].refs++; release(slots[a].second); slots[a].second = l; break; }
        default: { const size_t f = s.draw(FILES - 1); if (counts[f]) break; spec[f].ident += 1; spec[f].version += "x"; writeSpec(f, spec[f]); c.desc << "new content of " << f << "; "; }
        }
        judge("step " + std::to_string(k));
    }
    for (auto &x : slots) { x.first.reset(new PM()); release(x.second); x.second = -1; } judge("at the end"); if (nfail) c.tag("failed loads"); c.nontrivial = moduleLoads > 1 && unloads > 0 && n > 4;
}

//! modules come and go while other threads use and change the registry
static void concurrent(Case &c)
{
    auto &s = c.s; prepare(); settle(); const std::string base = "/vc" + std::to_string(uniq++); const size_t loaders = 1 + s.draw(FILES - 1), hosts = 1 + s.draw(2), rounds = 1 + s.draw(9); c.desc << loaders << " loading threads, " << hosts << " host threads, " << rounds << " rounds";
    struct Clean { std::string base; ~Clean(void) { std::function<void(const std::string &)> rm = [&](const std::string &p) { for (auto &x : PR::list(p)) rm(p + "/" + x); if (!PR::empty(p)) try { PR::remove(p); } catch (...) {} }; rm(base); } } clean{base};
    for (size_t i = 0; i < loaders; i++) { Spec sp; sp.version = "v" + std::to_string(i); sp.ident = int(i); for (size_t q = 0; q < 3; q++) sp.adds.push_back({q == 1 ? 'c' : 'i', base + "/m" + std::to_string(i) + "/p" + std::to_string(q)}); writeSpec(i, sp); }
    std::vector<std::string> errs(loaders + hosts); std::vector<std::thread> ts; std::atomic<size_t> go{0}; std::atomic<size_t> running{loaders}; const size_t total = loaders + hosts; std::vector<uint64_t> seeds; for (size_t i = 0; i < total; i++) seeds.push_back(s.draw(1 << 30));
    for (size_t i = 0; i < loaders; i++) ts.emplace_back([&, i](void)
    {
        go++; while (go < total) std::this_thread::yield();
        errs[i] = textOf([&](void) { for (size_t r = 0; r < rounds; r++) { const std::string p = base + "/m" + std::to_string(i); { PM m(fileOf(i)); const PM copy(m); PBT_CHECK(m.getVersion() == "v" + std::to_string(i), "version " << m.getVersion()); PBT_CHECK(m.getPluginPaths().size() == 3, "the module has " << m.getPluginPaths().size() << " plugins"); for (size_t q = 0; q < 3; q++) PBT_CHECK(PR::get(p + "/p" + std::to_string(q)).getModule().getFilePath() == fileOf(i), "a plugin belongs to another module"); PBT_CHECK(PR::get(p + "/p1").getObject().extract<Pothos::Callable>().call(2).convert<int>() == int(2000 + i), "module code"); } PBT_CHECK(!PR::exists(p), "plugins are left after unloading"); } });
        running--;
    });
    for (size_t h = 0; h < hosts; h++) ts.emplace_back([&, h](void)
    {
        go++; while (go < total) std::this_thread::yield(); Src ts_(seeds[loaders + h]);
        errs[loaders + h] = textOf([&](void) { size_t k = 0; const std::string p = base + "/h" + std::to_string(h) + "_"; while (running > 0 || k < 3) { const auto mine = p + std::to_string(k++ % 50); if (!PR::empty(mine)) { const auto old = PR::get(mine); PBT_CHECK(!old.getModule(), "a plugin of the host belongs to module " << old.getModule().getFilePath()); PR::remove(mine); } PR::add(mine, int(k)); PBT_CHECK(!PR::get(mine).getModule(), "a plugin of the host belongs to a module"); if (ts_.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(ts_.draw(60))); PBT_CHECK(PR::get(mine).getObject().extract<int>() == int(k), "a plugin of the host changed"); } for (size_t i = 0; i < std::min<size_t>(k, 50); i++) PBT_CHECK(!PR::empty(p + std::to_string(i)), "a plugin of the host is gone"); });
    });
    for (auto &t : ts) t.join(); for (auto &e : errs) PBT_CHECK(e.empty(), e); c.nontrivial = loaders + hosts > 2;
}
PBT_MAIN("C32", {{"history", 30, history}, {"concurrent", 1, concurrent, true}})
