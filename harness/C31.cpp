// C31: blocks, topologies and descriptions are available exactly as registered.
#include "simdstub.hpp"
#include "values.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Init.hpp>
#include <Pothos/System.hpp>
#include <sys/stat.h>
#include <cmath>
using namespace pbt;
using Pothos::Object; using Pothos::Topology; typedef Pothos::PluginRegistry PR; typedef std::vector<std::string> VS;

static std::vector<std::string> logged; static std::mutex logMutex; static std::atomic<int> live(0);
static void note(const std::string &x) { std::lock_guard<std::mutex> l(logMutex); logged.push_back(x); }
struct Blk: Pothos::Block { Blk(const std::string &made, const std::string &name = "") { live++; note(made); if (!name.empty()) this->setName(name); } ~Blk(void) { live--; } };
struct Top: Topology { Top(const std::string &made) { live++; note(made); } ~Top(void) { live--; } };
static std::string num(double d) { char b[40]; std::snprintf(b, sizeof(b), "%.17g", d); return b; }

// ---------------------------------------------------------------- factories and their registration
static Pothos::Block *fIS(int a, const std::string &b) { return new Blk("IS(" + std::to_string(a) + "," + b + ")"); }
static std::shared_ptr<Pothos::Block> fD(double a) { return std::make_shared<Blk>("D(" + num(a) + ")"); }
static Topology *fT(void) { return new Top("T()"); }
static std::shared_ptr<Topology> fTI(int a) { return std::make_shared<Top>("TI(" + std::to_string(a) + ")"); }
static Object fO(const Object *a, const size_t n) { std::string t = "O("; for (size_t i = 0; i < n; i++) t += a[i].type() == typeid(std::string) ? a[i].extract<std::string>() + "," : a[i].canConvert(typeid(double)) ? num(a[i].convert<double>()) + "," : "?,"; return Object(std::shared_ptr<Pothos::Block>(new Blk(t + ")"))); }
static Pothos::Block *fN(int a) { return new Blk("N(" + std::to_string(a) + ")", "my own name"); }
static Pothos::Block *fX(int a) { note("X(" + std::to_string(a) + ")"); throw Pothos::RuntimeException("refused"); }
static int bad1(int) { PBT_FAIL("a callable that makes no block was called"); } static Object bad2(const Object *, const int) { PBT_FAIL("a callable that makes no block was called"); } static void bad3(void) {} static Object bad4(int, int) { PBT_FAIL("a callable that makes no block was called"); } static std::string bad5(const Object *, const size_t) { PBT_FAIL("a callable that makes no block was called"); }
struct Fac { const char *name, *kinds; bool good, own; Pothos::Callable call; };
static const std::vector<Fac> &facs(void)
{
    static const std::vector<Fac> f = {{"IS", "IS", true, false, Pothos::Callable(&fIS)}, {"D", "D", true, false, Pothos::Callable(&fD)}, {"T", "", true, false, Pothos::Callable(&fT)}, {"TI", "I", true, false, Pothos::Callable(&fTI)}, {"O", "*", true, false, Pothos::Callable(&fO)}, {"N", "I", true, true, Pothos::Callable(&fN)}, {"X", "I", true, false, Pothos::Callable(&fX)},
        {"int", "", false, false, Pothos::Callable(&bad1)}, {"obj", "", false, false, Pothos::Callable(&bad2)}, {"void", "", false, false, Pothos::Callable(&bad3)}, {"obj2", "", false, false, Pothos::Callable(&bad4)}, {"str", "", false, false, Pothos::Callable(&bad5)}};
    return f;
}
static int uniq = 0;
static Pothos::Proxy makeAt(const std::string &path, const std::vector<Object> &args)
{
    auto env = Pothos::ProxyEnvironment::make("managed"); auto reg = env->findProxy("Pothos/BlockRegistry"); std::vector<Pothos::Proxy> pr; for (auto &a : args) pr.push_back(env->convertObjectToProxy(a)); return reg.getHandle()->call(path, pr.data(), pr.size());
}
static void registry(Case &c)
{
    auto &s = c.s; const std::string base = "/verif31r" + std::to_string(uniq++); std::map<std::string, size_t> model; size_t made = 0, refused = 0; static const VS good = {"/a", "/b", "/a/c", "/a/c/d", "/b/e"}, wrong = {"", "a", "/a b", "/x//y", "/x/", "//", "/x.y"};
    struct Clean { std::map<std::string, size_t> &m; ~Clean(void) { for (auto &x : m) try { PR::remove("/blocks" + x.first); } catch (...) {} } } clean{model}; std::vector<Pothos::Proxy> held; size_t heldBlocks = 0; PBT_CHECK(live == 0, "left over blocks");
    auto judge = [&](const std::string &when) { for (auto &g : good) { const auto p = base + g; const bool has = model.count(p); PBT_CHECK(Pothos::BlockRegistry::doesBlockExist(p) == has, when << ": doesBlockExist(" << g << ") says " << !has); PBT_CHECK(PR::empty("/blocks" + p) == !has, when << ": registry entry at " << g); } };
    const size_t n = 2 + s.draw(14);
    for (size_t k = 0; k < n; k++) switch (s.weighted({5, 6, 2, 1}))
    {
    case 0: {
        const size_t f = s.draw(facs().size() - 1); const bool bad = s.chance(1, 6); const auto p = bad ? s.pick(wrong) : base + s.pick(good); c.desc << "register " << facs()[f].name << " at '" << p << "'; "; const auto before = PR::list("/blocks");
        const auto err = errorOf([&](void) { Pothos::BlockRegistry r(p, facs()[f].call); }); PBT_CHECK(err.empty(), "registering raised " << err);
        if (!bad && facs()[f].good && !model.count(p)) model[p] = f; else { refused++; if (bad) PBT_CHECK(PR::list("/blocks") == before, "registering at '" << p << "' changed the registry"); }
        judge("registered"); break; }
    case 1: {
        const auto g = s.pick(good), p = base + g; const bool has = model.count(p); const size_t f = has ? model[p] : 0; const std::string kinds = has ? facs()[f].kinds : "I"; std::vector<Object> args; std::string text; bool ok = has; const bool opaque = kinds == "*"; const size_t want = opaque ? s.draw(4) : kinds.size(); size_t cnt = want; if (s.chance(1, 5)) cnt = s.draw(4);
        if (cnt != want && !opaque) ok = false;
        for (size_t i = 0; i < cnt; i++)
        {
            const char kd = opaque ? s.pick({'I', 'D', 'S'}) : i < kinds.size() ? kinds[i] : 'I'; if (s.chance(1, 12) && !opaque) { args.push_back(s.flip() ? Object(std::vector<std::string>{"a", "b"}) : Object(std::map<std::string, int>{{"q", 1}})); ok = false; continue; }
            if (kd == 'I') { const int v = int(s.range(-1000, 1000)); args.push_back(s.flip() ? Object(v) : s.flip() ? Object((long long)(v)) : Object(short(v))); text += opaque ? num(v) : std::to_string(v); } else if (kd == 'D') { const double v = double(s.range(-1000, 1000)) / 16; args.push_back(s.chance(2, 3) ? Object(v) : Object(float(v))); text += num(v); } else { const std::string v = s.pick({std::string("x"), std::string(""), std::string("a,b")}); args.push_back(Object(v)); text += v; }
            if (opaque || i + 1 < cnt) text += ",";
        }
        if (has && !opaque && std::string(facs()[f].name) == "X" && ok) ok = false;
        c.desc << "make " << g << " with " << cnt << " args; "; logged.clear(); Pothos::Proxy got; const auto err = errorOf([&](void) { got = makeAt(p, args); }); PBT_CHECK(err.empty() == ok, "make(" << g << ") " << (ok ? "failed: " + err : has ? "accepted arguments that do not fit" : "made a block where none is registered")); PBT_CHECK(err.compare(0, 4, "std:") != 0, "make raised a foreign exception: " << err);
        const bool called = ok; if (called) { const std::string wantLog = std::string(facs()[f].name) + "(" + text + ")"; PBT_CHECK(logged.size() == 1 && logged[0] == wantLog, "made " << (logged.empty() ? "nothing" : logged[0]) << ", want " << wantLog);
            const auto name = got.call<std::string>("getName"), wn = facs()[f].own ? std::string("my own name") : opaque ? name : p; PBT_CHECK(name == wn, "the block is named " << name << ", want " << wn); made++; if (s.chance(1, 3)) { held.push_back(got); heldBlocks++; } }
        else { const size_t most = has && std::string(facs()[f].name) == "X" ? 1 : 0; PBT_CHECK(logged.size() <= most, "a failed make called a factory: " << logged[0]); }
        got = Pothos::Proxy(); PBT_CHECK(size_t(live) == heldBlocks, live << " blocks alive, want " << heldBlocks); break; }
    case 2: { if (model.empty()) break; auto it = model.begin(); std::advance(it, s.draw(model.size() - 1)); c.desc << "remove " << it->first.substr(base.size()) << "; "; PR::remove("/blocks" + it->first); model.erase(it); judge("removed"); break; }
    default: if (!held.empty()) { held.pop_back(); heldBlocks--; c.desc << "drop; "; PBT_CHECK(size_t(live) == heldBlocks, live << " blocks alive, want " << heldBlocks); }
    }
    held.clear(); PBT_CHECK(live == 0, live << " blocks leaked"); if (refused) c.tag("refused registrations"); c.nontrivial = made >= 2 && n > 4;
}

// ---------------------------------------------------------------- values for JSON topologies
struct Val { char kind; long long i = 0; double d = 0; std::string s; bool b = false; std::vector<double> v; std::vector<std::string> l; };
static std::string text(const Val &v) { std::string t; switch (v.kind) { case 'I': return std::to_string(v.i); case 'D': return num(v.d); case 'S': return "'" + v.s + "'"; case 'B': return v.b ? "true" : "false"; case 'V': for (auto x : v.v) t += num(x) + ";"; return "[" + t + "]"; default: for (auto &x : v.l) t += "'" + x + "';"; return "[" + t + "]"; } }
static double anyDouble(Src &s)
{
    switch (s.draw(4)) { case 0: return double(s.range(-4000, 4000)) / 8; case 1: return std::ldexp(double(s.range(-1000000, 1000000)), int(s.range(-60, 60))); case 2: return double(s.range(-1000000, 1000000)) / 1e7; case 3: return s.pick({0.1, 1e-9, 1e300, -2.5e-12, 123456789.125, 1e17, 3.0, -0.0000001}); default: return double(s.range(-100, 100)); }
}
static std::string anyText(Src &s, bool odd) { static const VS plain = {"hello", "", "two words", "x1", "1 + 1", "[1, 2]", "a,b", "true", "key: value", "{c}", "3.5", "ünïcode"}, hard = {"say \"hi\"", "back\\slash", "\"", "C:\\new\\table", "'quoted'", "line\nbreak", "tab\there"}; return odd && s.chance(1, 3) ? s.pick(hard) : s.pick(plain); }
static Val anyVal(Src &s, char kind, bool odd)
{
    Val v; v.kind = kind; switch (kind) { case 'I': v.i = s.chance(2, 3) ? s.range(-1000, 1000) : s.range(-2000000000, 2000000000); break; case 'D': v.d = anyDouble(s); break; case 'S': v.s = anyText(s, odd); break; case 'B': v.b = s.flip(); break; case 'V': for (size_t n = 1 + s.draw(3); n > 0; n--) v.v.push_back(anyDouble(s)); break; default: for (size_t n = 1 + s.draw(2); n > 0; n--) v.l.push_back(anyText(s, false)); }
    return v;
}
//! the value as an argument of a factory
static Object asObject(Src &s, const Val &v) { switch (v.kind) { case 'I': return s.flip() ? Object(int(v.i)) : Object(v.i); case 'D': return Object(v.d); case 'S': return Object(v.s); case 'B': return Object(v.b); case 'V': return Object(v.v); default: return Object(v.l); } }
//! the value as it is written in a description
static json asJSON(const Val &v) { switch (v.kind) { case 'I': return json(v.i); case 'D': return json(v.d); case 'S': return json("\"" + v.s + "\""); case 'B': return json(v.b); case 'V': return json(v.v); default: return json(v.l); } }
static std::string sinkKinds; //!< what the sink block is to read its arguments as
static Object sinkFactory(const Object *a, const size_t n)
{
    std::string t; for (size_t i = 0; i < n; i++) switch (i < sinkKinds.size() ? sinkKinds[i] : '?')
    { case 'I': t += std::to_string(a[i].convert<long long>()); break; case 'D': t += num(a[i].convert<double>()); break; case 'S': t += "'" + a[i].convert<std::string>() + "'"; break; case 'B': t += a[i].convert<bool>() ? "true" : "false"; break; case 'V': { t += "["; for (auto x : a[i].convert<std::vector<double>>()) t += num(x) + ";"; t += "]"; break; } case 'L': { t += "["; for (auto &x : a[i].convert<std::vector<std::string>>()) t += "'" + x + "';"; t += "]"; break; } default: t += "?"; }
    return Object(std::shared_ptr<Pothos::Block>(new Blk("sink(" + t + ")")));
}
static Pothos::BlockRegistry sinkReg("/verif31/sink", Pothos::Callable(&sinkFactory));

// ---------------------------------------------------------------- conf files
static std::mutex cfgMutex; static std::map<std::string, std::map<std::string, std::string>> cfgSeen; static std::vector<std::string> cfgOrder;
static std::vector<Pothos::PluginPath> customLoader(const std::map<std::string, std::string> &cfg)
{
    std::lock_guard<std::mutex> l(cfgMutex); cfgOrder.push_back(cfg.at("confFilePath")); cfgSeen[cfg.at("confFilePath")] = cfg; if (cfg.count("explode")) { if (cfg.at("explode") == "std") throw std::runtime_error("exploded"); if (cfg.at("explode") == "int") throw Pothos::RuntimeException("exploded", 3); throw Pothos::Exception("exploded"); }
    std::vector<Pothos::PluginPath> out; if (cfg.count("adds")) { PR::add(cfg.at("adds"), std::string("custom")); out.push_back(cfg.at("adds")); } return out;
}
static void write(const std::string &path, const std::string &text) { std::ofstream f(path); f << text; }
static void mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755); }
static void rmTree(const std::string &p)
{
    if (p.find(scratchDir() + "/") != 0) return; // only ever below this process's own scratch directory
    if (DIR *d = ::opendir(p.c_str())) { std::vector<std::string> es; while (auto e = ::readdir(d)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") es.push_back(e->d_name); ::closedir(d); for (auto &e : es) { struct stat st; const auto q = p + "/" + e; if (::lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(q); else ::unlink(q.c_str()); } ::rmdir(p.c_str()); }
}
static std::string dirOf(const std::string &p) { return p.substr(0, p.rfind('/')); }
static void prepareRoot(void)
{
    static bool done = false; if (done) return; done = true; const auto root = Pothos::System::getRootPath(); PBT_CHECK(root.find(scratchDir()) == 0, "root " << root << " is not in the scratch directory");
    mkdirs(root); for (auto p : {Pothos::System::getPothosUtilExecutablePath(), Pothos::System::getPothosRuntimeLibraryPath()}) { mkdirs(dirOf(p)); write(p, "#!/bin/false\n"); ::chmod(p.c_str(), 0755); } mkdirs(Pothos::System::getPothosDevIncludePath()); mkdirs(Pothos::System::getPothosDevLibraryPath());
    PR::addCall("/framework/conf_loader/verif_custom", &customLoader);
}
static void walk(const std::string &path, std::set<std::string> &out) { if (!PR::empty(path)) out.insert(path); for (auto &x : PR::list(path)) walk(path + "/" + x, out); }
struct TopoSpec { std::string path; json doc; std::vector<Val> globals; char shape; };
struct FileSpec { std::string conf; bool good; VS adds; std::map<std::string, std::string> docs; int topo = -1; bool custom = false; std::map<std::string, std::string> cfg; bool found = true; };
static void conf(Case &c)
{
    auto &s = c.s; prepareRoot(); const std::string id = "verif31c" + std::to_string(uniq++), dir = scratchDir() + "/" + id; mkdirs(dir); const std::string share = Pothos::System::getRootPath() + "/share/Pothos/modules/" + id, user = Pothos::System::getUserConfigPath() + "/modules/" + id;
    struct Clean { VS dirs; std::string id; ~Clean(void) { try { Pothos::deinit(); } catch (...) {} std::set<std::string> r; walk("/blocks/" + id, r); walk("/blocks/docs/" + id, r); for (auto &x : r) try { PR::remove(x); } catch (...) {} for (auto &d : dirs) rmTree(d); ::unsetenv("POTHOS_CONF_PATH"); } } clean{{dir, share, user}, id};
    VS envDirs = {dir + "/one", dir + "/two"}, places = {share, user, envDirs[0], envDirs[1]}; std::vector<FileSpec> files; std::vector<TopoSpec> topos; std::map<std::string, std::vector<size_t>> claims; std::map<std::string, size_t> wanted; size_t goods = 0, bads = 0; cfgSeen.clear(); cfgOrder.clear();
    static const VS names = {"/alpha", "/beta", "/beta/gamma", "/delta_1", "/epsilon-2/zeta", "/eta", "/theta"};
    const size_t n = 1 + s.draw(6);
    for (size_t k = 0; k < n; k++)
    {
        FileSpec f; std::string place = s.pick(places); if (s.chance(1, 3)) place += "/sub" + std::to_string(s.draw(1)); mkdirs(place); const std::string stem = "f" + std::to_string(k); const bool dotConf = !s.chance(1, 10); f.conf = place + "/" + stem + (dotConf ? ".conf" : s.pick({".txt", ".conf.bak", ".CONFIG", ""})); f.found = dotConf;
        const std::string jsonName = stem + ".json"; const bool absolute = s.chance(1, 4); const std::string jsonDir = s.flip() ? place : place + "/data"; mkdirs(jsonDir); const std::string jsonPath = jsonDir + "/" + jsonName, jsonRef = absolute ? jsonPath : jsonDir == place ? jsonName : "data/" + jsonName;
        std::string conf; auto key = [&](const std::string &a, const std::string &b) { conf += s.pick({std::string(""), std::string("# comment\n"), std::string("\n"), std::string("! other = 1\n")}) + a + s.pick({std::string("="), std::string(" = "), std::string(": ")}) + b + "\n"; }; auto path = [&](void) { return "/" + id + s.pick(names); };
        const int kind = int(s.weighted({4, 4, 2, 4})); f.good = true;
        if (kind == 0)
        {
            TopoSpec t; t.path = path(); t.shape = s.pick({'a', 'a', 'a', 'o', 'n'}); const size_t g = t.shape == 'n' ? 0 : s.draw(4); json globals = t.shape == 'o' ? json::object() : json::array(), args = json::array(); for (size_t i = 0; i < g; i++) { const std::string name = "v" + std::to_string(i); t.globals.push_back(anyVal(s, s.pick({'I', 'D', 'S', 'B', 'V', 'L'}), false)); if (t.shape == 'o') globals[name] = asJSON(t.globals.back()); else globals.push_back(json{{"name", name}, {"value", asJSON(t.globals.back())}}); args.push_back(name); }
            t.doc = json{{"blocks", json::array({json{{"id", "b"}, {"path", "/verif31/sink"}, {"args", args}}})}, {"connections", json::array()}}; if (t.shape != 'n') t.doc["globals"] = globals;
            write(jsonPath, t.doc.dump(int(s.range(-1, 2)))); key("loader", "json_topology"); key("json", jsonRef); key("path", t.path); f.adds.push_back("/blocks" + t.path); f.topo = int(topos.size()); topos.push_back(t); c.desc << "topology " << t.path << " with " << g << " globals " << t.shape << "; ";
        }
        else if (kind == 1)
        {
            json descs = json::array(); const size_t nd = 1 + s.draw(2); for (size_t i = 0; i < nd; i++) { const auto p = path(); json d = {{"path", p}, {"name", "Desc " + std::to_string(s.draw(99))}, {"docs", json::array({"text \"x\""})}}; VS all = {p}; if (s.chance(1, 2)) { json al = json::array(); for (size_t q = s.draw(2); q > 0; q--) { const auto a = path(); al.push_back(a); all.push_back(a); } d["aliases"] = al; } descs.push_back(d); for (auto &a : all) { if (std::find(f.adds.begin(), f.adds.end(), "/blocks/docs" + a) != f.adds.end()) f.good = false; f.adds.push_back("/blocks/docs" + a); f.docs["/blocks/docs" + a] = d.dump(); } }
            if (nd == 1 && s.flip()) write(jsonPath, descs[0].dump()); else write(jsonPath, descs.dump(int(s.range(-1, 3)))); key("loader", "block_desc"); key("json", jsonRef); c.desc << "descriptions of" ; for (auto &a : f.adds) c.desc << " " << a.substr(13 + id.size()); c.desc << "; ";
        }
        else if (kind == 2)
        {
            f.custom = true; f.cfg = {{"loader", "verif_custom"}}; key("loader", "verif_custom"); for (size_t q = s.draw(3); q > 0; q--) { const auto a = s.pick({std::string("alpha"), std::string("key2"), std::string("some_key"), std::string("UPPER")}), b = s.pick({std::string("1"), std::string("two words"), std::string("a=b"), std::string("/x/y"), std::string("[1, 2]")}); if (f.cfg.count(a)) continue; f.cfg[a] = b; key(a, b); }
            if (s.flip()) { const auto a = "/blocks" + path(); f.cfg["adds"] = a; key("adds", a); f.adds.push_back(a); } if (s.chance(1, 3)) { const auto e = s.pick({std::string("std"), std::string("int"), std::string("plain")}); f.cfg["explode"] = e; key("explode", e); f.good = false; } c.desc << "custom" << (f.good ? "" : " failing") << "; ";
        }
        else
        {
            f.good = false; const auto p = path(); const size_t what = s.draw(13); c.desc << "mistake " << what << "; "; const json desc = {{"path", p}, {"name", "d"}}; const std::string other = "/" + id + "/good" + std::to_string(k); const json first = {{"path", other}, {"name", "first"}};
            switch (what)
            {
            case 0: key("json", jsonRef); write(jsonPath, desc.dump()); break; // no loader
            case 1: key("loader", "no_such_loader"); key("json", jsonRef); write(jsonPath, desc.dump()); break;
            case 2: key("loader", s.flip() ? "json_topology" : "block_desc"); key("path", p); break; // no json
            case 3: key("loader", s.flip() ? "json_topology" : "block_desc"); key("path", p); key("json", "missing.json"); break;
            case 4: key("loader", "json_topology"); key("json", jsonRef); write(jsonPath, "{}"); break; // no path
            case 5: key("loader", "json_topology"); key("json", jsonRef); write(jsonPath, "{}"); key("path", s.pick({std::string("no_slash"), std::string("/has space"), std::string("/x//y")})); break;
            case 6: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, s.pick({std::string("{"), std::string(""), std::string("[{\"path\": }]"), std::string("nonsense")})); break;
            case 7: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, json::array({first, json{{"name", "no path"}}}).dump()); break;
            case 8: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, json::array({first, json{{"path", 5}}}).dump()); break;
            case 9: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, json::array({first, json{{"path", "bad path"}}}).dump()); break;
            case 10: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, json::array({first, s.pick({json(7), json("text"), json(), json::array()})}).dump()); break;
            case 11: key("loader", "block_desc"); key("json", jsonRef); write(jsonPath, json::array({json{{"path", other}, {"aliases", json::array({1})}}}).dump()); break;
            case 12: key("loader", "json_topology"); key("json", jsonRef); write(jsonPath, "{}"); key("a.b", "1"); key("path", "/bad path"); break;
            default: key("loader", "${one}"); key("one", "${two}"); key("two", "${one}"); break;
            }
        }
        write(f.conf, conf); if (f.found) for (auto &a : f.adds) { wanted[a]++; if (f.good) claims[a].push_back(files.size()); } (f.good ? goods : bads)++; files.push_back(f);
    }
    std::string env = envDirs[0] + ":" + (s.chance(1, 4) ? ":" : "") + (s.chance(1, 4) ? dir + "/nowhere:" : "") + envDirs[1]; ::setenv("POTHOS_CONF_PATH", env.c_str(), 1);
    // a file whose entries are partly taken by another is rejected or accepted as a whole
    const auto before = [&](void) { std::set<std::string> r; walk("/blocks/" + id, r); walk("/blocks/docs/" + id, r); return r; }; PBT_CHECK(before().empty(), "something is registered before");
    const size_t again = s.draw(2); const auto err = errorOf([&](void) { Pothos::init(); }); PBT_CHECK(err.empty(), "init failed: " << err); for (size_t i = 0; i < again; i++) Pothos::init();
    const auto got = before();
    auto accepted = [&](const FileSpec &f) { if (!f.found || !f.good) return false; for (auto &a : f.adds) if (!got.count(a)) return false; return true; };
    std::map<std::string, size_t> owners; // which file provides an entry
    for (auto &g : got) { PBT_CHECK(claims.count(g), "registered " << g << ", which no valid file describes"); }
    for (auto &cl : claims)
    {
        bool contested = false; for (size_t k : cl.second) for (auto &a : files[k].adds) if (wanted[a] > 1) contested = true; if (!contested) PBT_CHECK(got.count(cl.first), cl.first << " is not registered"); else c.tag("contested");
    }
    // contested entries: the accepted files are a maximal set without conflicts
    std::set<std::string> covered; for (size_t k = 0; k < files.size(); k++)
    {
        const auto &f = files[k]; if (!f.found || !f.good || f.adds.empty()) continue;
        bool mine = true; for (auto &a : f.adds) { if (!got.count(a)) mine = false; else if (f.topo >= 0) { if (PR::get(a).getObject().type() != typeid(Pothos::Callable)) mine = false; } else if (f.docs.count(a)) { const auto o = PR::get(a).getObject(); if (o.type() != typeid(std::string) || json::parse(o.extract<std::string>()) != json::parse(f.docs.at(a))) mine = false; } else if (PR::get(a).getObject().type() != typeid(std::string)) mine = false; }
        bool contested = false; for (auto &a : f.adds) if (wanted[a] > 1) contested = true; if (!contested) PBT_CHECK(mine, "the entries of " << f.conf.substr(f.conf.rfind('/')) << " are not what it describes"); if (mine) for (auto &a : f.adds) covered.insert(a);
    }
    for (auto &g : got) PBT_CHECK(covered.count(g), g << " is left from a file that was not loaded as a whole");
    // custom loaders see exactly the file's keys
    for (auto &f : files) { const size_t times = size_t(std::count(cfgOrder.begin(), cfgOrder.end(), f.conf)); if (f.custom && f.found) { PBT_CHECK(times == 1, "the loader was called " << times << " times for one file"); auto want = f.cfg; want["confFilePath"] = f.conf; PBT_CHECK(cfgSeen[f.conf] == want, "the loader was given other keys or values"); } else PBT_CHECK(times == 0, "a loader was called for a file of another kind"); }
    // topologies are made from the description with the given arguments in place of the first globals
    size_t madeN = 0; for (auto &f : files) if (f.topo >= 0 && f.found && wanted["/blocks" + topos[size_t(f.topo)].path] == 1)
    {
        const auto &t = topos[size_t(f.topo)]; PBT_CHECK(Pothos::BlockRegistry::doesBlockExist(t.path), t.path << " is not a block");
        for (size_t rep = 0; rep < 2; rep++)
        {
            const size_t cnt = s.draw(t.globals.size() + 1); std::vector<Object> args; std::vector<Val> vals = t.globals; for (size_t i = 0; i < cnt; i++) { const Val v = anyVal(s, i < t.globals.size() && s.chance(2, 3) ? t.globals[i].kind : s.pick({'I', 'D', 'S', 'B', 'V', 'L'}), true); args.push_back(asObject(s, v)); if (i < vals.size()) vals[i] = v; }
            sinkKinds.clear(); std::string want; for (auto &v : vals) { sinkKinds += v.kind; want += text(v); } logged.clear(); Pothos::Proxy top; const auto e = errorOf([&](void) { top = makeAt(t.path, args); });
            const bool ok = cnt <= t.globals.size() && (t.shape != 'o' || cnt == 0); c.desc << "make " << t.path << " with " << cnt << "; "; PBT_CHECK(e.empty() == ok, "making the topology with " << cnt << " of " << t.globals.size() << " arguments: " << (e.empty() ? "accepted" : e)); if (!ok) continue;
            want = "sink(" + want + ")"; PBT_CHECK(logged.size() == 1 && logged[0] == want, "made " << (logged.empty() ? "nothing" : logged[0]) << ", want " << want); madeN++; top = Pothos::Proxy(); PBT_CHECK(live == 0, "the topology leaked");
        }
    }
    // descriptions can be dumped
    { auto envp = Pothos::ProxyEnvironment::make("managed"); auto docs = envp->findProxy("Pothos/Util/DocUtils"); json all; const auto e = errorOf([&](void) { all = json::parse(docs.call<std::string>("dumpJson")); }); PBT_CHECK(e.empty(), "dump of all descriptions: " << e); size_t want = 0; for (auto &g : got) if (g.find("/blocks/docs/") == 0) { want++; bool has = false; const auto one = json::parse(docs.call("dumpJsonAt", g.substr(12)).convert<std::string>()); for (auto &d : all) if (d == one) has = true; PBT_CHECK(has, "the dump lacks " << g); } size_t mine = 0; for (auto &d : all) if (d.is_object() && d.count("path") && d["path"].is_string() && d["path"].get<std::string>().find("/" + id + "/") == 0) mine++; PBT_CHECK(mine == want, "the dump lists " << mine << " descriptions, want " << want); }
    Pothos::deinit(); const auto left = before(); PBT_CHECK(left.empty(), *left.begin() << " is still registered after deinit");
    if (bads) c.tag("with mistakes"); if (madeN) c.tag("topologies made"); c.nontrivial = goods > 0 && n > 1;
}

PBT_MAIN("C31", {{"registry", 3, registry}, {"conf", 1, conf}})
