// C08: a block is never executed by two threads at once; pools bound threads.
#include "userrace.hpp"
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <cmath>
#include <limits>
#include <mutex>
#include <thread>
using namespace pbt;
using Pothos::ThreadPool; using Pothos::ThreadPoolArgs; using Pothos::Topology;

//! the first thing that went wrong in any thread
static std::mutex failLock; static std::string failed; static std::atomic<bool> anyFailed(false);
static void report(const std::string &w) { std::lock_guard<std::mutex> g(failLock); if (failed.empty()) failed = w; anyFailed = true; }
static std::string takeFailure(void) { std::lock_guard<std::mutex> g(failLock); const auto r = failed; failed.clear(); anyFailed = false; return r; }
struct PoolCount { std::atomic<int> inside{0}; int limit = 0; std::string name; };
static const int maxPools = 4; static PoolCount pools[maxPools];

struct Blk: Pothos::Block
{
    int id; bool in, out; size_t limit, chunk; unsigned dwell; // elements to produce, most per call, how long callbacks take
    std::atomic<int> inside{0}; std::atomic<const char *> where{nullptr}; std::atomic<int> poolOf{-1};
    long plain = 0; unsigned rng; size_t made = 0; int activeState = 0; // touched by callbacks only
    std::atomic<size_t> consumed{0}, pokes{0}, works{0}, asks{0}; size_t emits, emitted = 0;
    Blk(int id, bool in, bool out, size_t limit, size_t chunk, size_t emits, unsigned dwell): id(id), in(in), out(out), limit(limit), chunk(chunk), dwell(dwell), rng(unsigned(id) * 7919 + 1), emits(emits)
    {
        if (in) this->setupInput(0, typeid(int)); if (out) this->setupOutput(0, typeid(int)); this->registerSignal("note"); this->registerCall(this, "poke", &Blk::poke); this->registerCall(this, "ask", &Blk::ask); this->registerProbe("ask");
    }
    USER_ACCESS void touch(int k) { plain += k; rng = rng * 1664525u + 1013904223u; }
    struct Enter
    {
        Blk &b; int pool;
        Enter(Blk &b, const char *what, bool worker): b(b), pool(-1)
        {
            const char *other = b.where.load(); if (b.inside.fetch_add(1) != 0) report("block " + std::to_string(b.id) + ": " + what + " entered while another thread is in " + (other ? other : "a callback")); b.where = what;
            if (worker && (pool = b.poolOf) >= 0) { const int n = pools[pool].inside.fetch_add(1) + 1; if (n > pools[pool].limit) report(std::to_string(n) + " blocks execute at once in a pool of " + std::to_string(pools[pool].limit) + " threads (" + what + ")"); }
            b.touch(1); if (b.rng % 16 < b.dwell) { if (b.rng & 256) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(b.rng / 512 % 60)); }
        }
        ~Enter(void) { b.touch(1); if (pool >= 0) pools[pool].inside.fetch_sub(1); b.inside.fetch_sub(1); }
    };
    void activate(void) { Enter e(*this, "activate", false); if (activeState++ != 0) report("block " + std::to_string(id) + " activated twice"); }
    void deactivate(void) { Enter e(*this, "deactivate", false); if (--activeState != 0) report("block " + std::to_string(id) + " deactivated twice"); }
    void work(void)
    {
        Enter e(*this, "work", true); works++; if (activeState != 1) report("block " + std::to_string(id) + ": work while not active");
        if (emitted < emits && (!in || rng & 64)) { this->emitSignal("note", int(emitted)); emitted++; }
        if (!in && out) { auto p = this->output(0); const size_t n = std::min(std::min(p->elements(), chunk), limit - made); for (size_t i = 0; i < n; i++) p->buffer().as<int *>()[i] = int(made + i); if (n && rng % 7 == 0) p->postLabel("l", 1, n - 1); p->produce(n); made += n; }
        if (in) { auto p = this->input(0); size_t n = std::min(p->elements(), chunk); if (out) n = std::min(n, this->output(0)->elements()); const int *d = p->buffer().as<const int *>(); for (size_t i = 0; i < n; i++) if (d[i] != int(consumed.load() + i)) { report("block " + std::to_string(id) + " received a wrong element"); break; } if (out && n) { std::memcpy(this->output(0)->buffer().as<void *>(), d, n * sizeof(int)); this->output(0)->produce(n); } if (n) p->consume(n); consumed += n; }
        if (emitted < emits || (!in && made < limit)) this->yield();
    }
    void propagateLabels(const Pothos::InputPort *p) { Enter e(*this, "propagateLabels", true); Pothos::Block::propagateLabels(p); }
    void poke(const int k) { Enter e(*this, "poke", k >= 0); if (k >= 0) pokes++; } // external callers use negative numbers
    int ask(const int k) { Enter e(*this, "ask", k >= 0); asks++; return k + 1; }
};
//! always has something to do
struct Busy: Blk { Busy(int id, unsigned dwell): Blk(id, false, false, 0, 1, 0, dwell) {} void work(void) { { Enter e(*this, "work", true); works++; } this->yield(); } };
static std::string showPool(const ThreadPoolArgs &a) { return std::to_string(a.numThreads) + a.yieldMode; }

static void overlap(Case &c)
{
    auto &s = c.s; takeFailure(); const size_t npools = s.draw(2); std::vector<ThreadPool> handles;
    for (size_t i = 0; i < npools; i++) { ThreadPoolArgs a(1 + s.draw(2)); a.yieldMode = s.pick({std::string(""), std::string("CONDITION"), std::string("HYBRID"), std::string("CONDITION"), std::string("SPIN")}); if (s.chance(1, 8)) { a.affinityMode = "CPU"; a.affinity = {0, 1}; } handles.push_back(ThreadPool(a)); pools[i].inside = 0; pools[i].limit = int(a.numThreads); c.desc << "pool" << i << "=" << showPool(a) << " "; }
    { ThreadPoolArgs a(size_t(0)); if (s.chance(1, 10)) a.yieldMode = "SPIN"; handles.push_back(ThreadPool(a)); pools[npools].inside = 0; pools[npools].limit = 1 << 20; c.desc << "pool" << npools << "=" << showPool(a) << " "; }
    // chains of stream blocks, and blocks with nothing but slots
    std::vector<std::shared_ptr<Blk>> b; std::vector<std::pair<int, int>> streams; std::vector<int> sinks; const size_t chains = 1 + s.draw(1); size_t limit = 1 + size_t(s.small(0, 600)), emits = size_t(s.small(0, 40)); const unsigned dwell = unsigned(s.pick({0, 1, 4, 10}));
    for (size_t k = 0; k < chains; k++) { const size_t len = 2 + s.draw(2); for (size_t i = 0; i < len; i++) { const int id = int(b.size()); b.push_back(std::make_shared<Blk>(id, i > 0, i + 1 < len, limit, 1 + s.draw(40), i == 0 || s.chance(1, 4) ? emits : 0, dwell)); if (i > 0) streams.push_back({id - 1, id}); if (i + 1 == len) sinks.push_back(id); } }
    const size_t streaming = b.size(); for (size_t k = s.draw(2); k > 0; k--) b.push_back(std::make_shared<Blk>(int(b.size()), false, false, 0, 1, 0, dwell));
    auto assign = [&](int i, size_t p) { b[i]->poolOf = -1; b[i]->setThreadPool(handles[p]); b[i]->poolOf = int(p); };
    for (size_t i = 0; i < b.size(); i++) if (npools == 0 || s.chance(3, 4)) { const size_t p = s.draw(handles.size() - 1); assign(int(i), p); c.desc << "b" << i << ":" << p << " "; }
    std::vector<size_t> wantPokes(b.size(), 0); struct Flow { int a; std::string ap; int b; std::string bp; }; std::vector<Flow> flows; auto t = Topology::make(); const bool topoPool = s.chance(1, 6);
    for (auto &f : streams) t->connect(std::static_pointer_cast<Pothos::Block>(b[f.first]), 0, std::static_pointer_cast<Pothos::Block>(b[f.second]), 0);
    std::set<std::vector<int>> used; for (size_t k = s.draw(7); k > 0; k--)
    {
        const int a = int(s.draw(streaming - 1)), d = int(s.draw(b.size() - 1)), via = s.chance(1, 3) ? int(s.draw(b.size() - 1)) : -1; if (a >= d || (via >= 0 && (via <= a || via >= d))) continue; // loops would wait for themselves
        if (via >= 0) { if (!used.insert({a, via, 1}).second || !used.insert({via, d, 2}).second) continue; bool clash = false; for (auto &f : flows) if (f.a == via && f.ap == "askTriggered") clash = true; for (auto &f : flows) if (f.b == via && f.bp == "probeAsk") clash = true; if (clash) continue; flows.push_back({a, "note", via, "probeAsk"}); flows.push_back({via, "askTriggered", d, "poke"}); wantPokes[d] += b[a]->emits; }
        else { if (!used.insert({a, d, 0}).second) continue; flows.push_back({a, "note", d, "poke"}); wantPokes[d] += b[a]->emits; }
    }
    for (auto &f : flows) { t->connect(std::static_pointer_cast<Pothos::Block>(b[f.a]), f.ap, std::static_pointer_cast<Pothos::Block>(b[f.b]), f.bp); c.desc << f.a << "." << f.ap << "->" << f.b << "." << f.bp << " "; }
    // a block that comes and goes
    auto guest = std::make_shared<Blk>(99, false, false, 0, 1, 0, dwell); bool present = false;
    auto everyone = [&](size_t p) { for (auto &x : b) x->poolOf = -1; guest->poolOf = -1; t->setThreadPool(handles[p]); t->commit(); if (p < npools || true) { for (auto &x : b) { bool inGraph = false; if (x->id < int(streaming)) inGraph = true; for (auto &f : flows) inGraph = inGraph || f.a == x->id || f.b == x->id; if (inGraph) x->poolOf = int(p); } if (present) guest->poolOf = int(p); } };
    const size_t callers = s.draw(3), calls = size_t(s.small(1, 60)); c.desc << "elements=" << limit << " signals=" << emits << " callers=" << callers << "x" << calls << " "; bool pooled = false;
    if (topoPool) { const size_t p = s.draw(handles.size() - 1); c.desc << "all:" << p << " "; everyone(p); pooled = true; } else t->commit();
    std::vector<std::thread> threads; const unsigned seed = unsigned(s.draw(1 << 16)); std::atomic<size_t> done(0);
    for (size_t k = 0; k < callers; k++) threads.push_back(std::thread([&, k] {
        unsigned r = seed + unsigned(k) * 977; for (size_t i = 0; i < calls && !anyFailed; i++) { r = r * 1103515245u + 12345u; auto &x = b[(r >> 16) % b.size()]; const int v = -1 - int(i); try { if (r & 4096) { const int got = x->call<int>("ask", v); if (got != v + 1) report("ask(" + std::to_string(v) + ") returned " + std::to_string(got)); } else if (r & 8192) x->call("poke", v); else std::this_thread::yield(); } catch (const std::exception &ex) { report(std::string("external call: ") + ex.what()); } if (r & 16384) std::this_thread::yield(); } done++; }));
    // the topology and the pools change meanwhile
    const size_t edits = s.draw(6); size_t moves = 0;
    for (size_t k = 0; k < edits && !anyFailed; k++)
    {
        switch (s.draw(4))
        {
        case 0: case 1: if (!pooled) { const int i = int(s.draw(b.size() - 1)); const size_t p = s.draw(handles.size() - 1); c.desc << "move b" << i << ":" << p << " "; assign(i, p); moves++; break; }
        case 2: { const int src = int(s.draw(streaming - 1)); present = !present; if (present) { t->connect(std::static_pointer_cast<Pothos::Block>(b[0]), "note", std::static_pointer_cast<Pothos::Block>(guest), "poke"); } else t->disconnect(std::static_pointer_cast<Pothos::Block>(b[0]), "note", std::static_pointer_cast<Pothos::Block>(guest), "poke"); c.desc << (present ? "guest " : "no guest "); guest->poolOf = -1; if (!pooled) t->commit(); else { for (auto &x : b) x->poolOf = -1; t->commit(); } break; }
        case 3: t->queryJSONStats(); c.desc << "stats "; break;
        default: std::this_thread::sleep_for(std::chrono::microseconds(s.draw(500)));
        }
    }
    for (auto &x : threads) x.join();
    const auto start = std::chrono::steady_clock::now(); std::string lack;
    while (!anyFailed)
    {
        lack.clear(); for (int i : sinks) if (b[i]->consumed < limit) lack = "block " + std::to_string(i) + " consumed only " + std::to_string(b[i]->consumed.load()) + " of " + std::to_string(limit) + " elements"; for (size_t i = 0; i < b.size(); i++) if (b[i]->pokes < wantPokes[i]) lack = "block " + std::to_string(i) + " was poked only " + std::to_string(b[i]->pokes.load()) + " of " + std::to_string(wantPokes[i]) + " times";
        if (lack.empty() || std::chrono::steady_clock::now() - start > std::chrono::seconds(25)) break; std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    t.reset(); size_t works = 0, pokes = 0; for (auto &x : b) { works += x->works; pokes += x->pokes; } guest.reset(); b.clear();
    const auto f = takeFailure(); if (!f.empty()) pbt::fail(f); userrace::check("the state of one block"); if (!lack.empty()) pbt::fail(lack, true);
    c.count("work calls", works); c.count("slot calls", pokes); c.count("external calls", callers * calls); c.count("moves", moves); c.nontrivial = works > 20 && (callers > 0 || npools > 0);
}
//! one busy block and callers that never pause
static void hammer(Case &c)
{
    auto &s = c.s; takeFailure(); ThreadPoolArgs a(s.draw(2)); a.yieldMode = s.pick({std::string(""), std::string("CONDITION"), std::string("SPIN")}); const size_t callers = 1 + s.draw(3), calls = 50 + size_t(s.small(0, 800)); const unsigned dwell = unsigned(s.pick({0, 0, 1, 3})); c.desc << showPool(a) << " callers=" << callers << "x" << calls << " dwell=" << dwell; pools[0].inside = 0; pools[0].limit = a.numThreads ? int(a.numThreads) : 1 << 20; size_t works = 0;
    {
        ThreadPool pool(a); auto x = std::make_shared<Busy>(0, dwell), y = std::make_shared<Busy>(1, dwell); for (auto &z : {x, y}) { z->setThreadPool(pool); z->poolOf = 0; } auto t = Topology::make(); t->connect(std::static_pointer_cast<Pothos::Block>(x), "note", std::static_pointer_cast<Pothos::Block>(y), "poke"); t->commit();
        std::vector<std::thread> threads; for (size_t k = 0; k < callers; k++) threads.push_back(std::thread([&, k] { for (size_t i = 0; i < calls && !anyFailed; i++) { auto &z = (k & 1) ? y : x; const int v = -1 - int(i); const int got = z->call<int>("ask", v); if (got != v + 1) report("ask returned another call's result"); } }));
        for (auto &th : threads) th.join(); t.reset(); works = x->works + y->works;
    }
    const auto f = takeFailure(); if (!f.empty()) pbt::fail(f); userrace::check("the state of one block"); c.count("work calls", works); c.count("external calls", callers * calls); c.nontrivial = works > 5;
}
//! pool parameters
static void parameters(Case &c)
{
    auto &s = c.s; ThreadPoolArgs a; bool valid = true; std::string json_ = "{"; const bool viaJson = s.flip(); auto field = [&](const std::string &k, const std::string &v) { json_ += (json_.size() > 1 ? "," : "") + std::string("\"") + k + "\":" + v; };
    if (s.flip()) { a.numThreads = s.draw(64); field("numThreads", std::to_string(a.numThreads)); }
    if (s.flip()) { const double p = s.pick({0.0, 1.0, -1.0, 0.5, -0.25, 1.0000001, -1.0000001, 2.0, -7.0, 1e300, -1e300}); a.priority = p; valid = valid && p >= -1 && p <= 1; std::ostringstream o; o.precision(17); o << p; field("priority", o.str()); }
    if (!viaJson && s.chance(1, 12)) { a.priority = s.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}); valid = false; }
    static const std::vector<std::string> am = {"", "ALL", "CPU", "NUMA", "all", "cpu", "ANY", " ALL", "CPUS", "NONE"}, ym = {"", "CONDITION", "HYBRID", "SPIN", "spin", "WAIT", "CONDITION ", "YIELD"};
    if (s.flip()) { const size_t i = s.weighted({2, 2, 2, 2, 1, 1, 1, 1, 1, 1}); a.affinityMode = am[i]; valid = valid && i < 4; field("affinityMode", "\"" + am[i] + "\""); }
    if (s.flip()) { const size_t i = s.weighted({2, 2, 2, 2, 1, 1, 1, 1}); a.yieldMode = ym[i]; valid = valid && i < 4; field("yieldMode", "\"" + ym[i] + "\""); }
    if (s.flip()) { std::string l = "["; for (size_t i = s.draw(3); i > 0; i--) { a.affinity.push_back(s.draw(7)); l += (l.size() > 1 ? "," : "") + std::to_string(a.affinity.back()); } field("affinity", l + "]"); }
    json_ += "}"; c.desc << (viaJson ? json_ : showPool(a) + " " + a.affinityMode + " " + std::to_string(a.priority)); ThreadPoolArgs given = a;
    if (viaJson) { const auto err = errorOf([&] { given = ThreadPoolArgs(json_); }); PBT_CHECK(err.empty(), "arguments rejected: " << err); PBT_CHECK(given.numThreads == a.numThreads && given.priority == a.priority && given.affinityMode == a.affinityMode && given.yieldMode == a.yieldMode && given.affinity == a.affinity, "arguments read from " << json_ << " differ"); }
    ThreadPool p; bool threw = false; try { p = ThreadPool(given); } catch (const Pothos::ThreadPoolError &) { threw = true; } PBT_CHECK(threw == !valid, (valid ? "valid parameters rejected" : "invalid parameters accepted")); PBT_CHECK(bool(p) == valid, "the pool is " << (p ? "set" : "null"));
    if (valid) { ThreadPool q = p, r(given); PBT_CHECK(q == p && r != p && ThreadPool() != p, "comparison of pools"); }
    c.nontrivial = json_.size() > 2; c.tag(valid ? "valid" : "invalid");
}
PBT_MAIN("C08", (std::vector<Sub>{{"overlap", 10, &overlap, true}, {"hammer", 4, &hammer, true}, {"parameters", 3, &parameters, false}}))
