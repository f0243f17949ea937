// C04: after any history of connects, disconnects and commits exactly the requested flows carry data.
#include "common.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <mutex>
#include <thread>
using namespace pbt;
using Pothos::Topology; typedef unsigned long long u64;

static std::mutex failLock; static std::string failed; static std::atomic<bool> anyFailed(false);
static void report(const std::string &w) { std::lock_guard<std::mutex> g(failLock); if (failed.empty()) failed = w; anyFailed = true; }
static std::string takeFailure(void) { std::lock_guard<std::mutex> g(failLock); const auto r = failed; failed.clear(); anyFailed = false; return r; }

//! what a port sends: every value carries who sent it, as what and its number
enum Kind { STREAM, MESSAGE, SIGNAL }; static const char *kindName[] = {"element", "message", "signal"};
static const int maxPorts = 4;
static u64 tagOf(int blk, int kind, int port) { return u64((blk * 3 + kind) * maxPorts + port) << 40; }
static const u64 seqMask = (u64(1) << 40) - 1;
//! the maximal runs of consecutive numbers that arrived
struct Lane { std::vector<std::pair<u64, u64>> runs; };

//! what the library puts between ports of domains that do not fit
struct Bridge: Pothos::Block
{
    Bridge(void) { this->setupInput(0); this->setupOutput(0); }
    static Pothos::Block *make(void) { return new Bridge(); }
    void work(void)
    {
        auto *in = this->input(0); auto *out = this->output(0); while (in->hasMessage()) out->postMessage(in->popMessage());
        const auto &ib = in->buffer(); const auto &ob = out->buffer(); const size_t n = std::min(ib.length, ob.length) / sizeof(u64) * sizeof(u64); if (n == 0) return; auto copy = ob; copy.length = n; copy.dtype = ib.dtype; std::memcpy(copy.as<void *>(), ib.as<const void *>(), n); in->consume(n); out->popElements(n); out->postBuffer(copy);
    }
};
static Pothos::BlockRegistry registerBridge("/blocks/copier", &Bridge::make);

struct Blk: Pothos::Block
{
    bool strict = false; // whether the inputs refuse the domain of the outputs
    Pothos::BufferManager::Sptr getInputBufferManager(const std::string &, const std::string &domain) { if (strict && domain == "d") throw Pothos::PortDomainError(); return Pothos::BufferManager::Sptr(); }
    const int id; const int ins, outs; const size_t chunk; const unsigned dwell, lazy; unsigned rng;
    std::atomic<u64> made[3][maxPorts]; std::atomic<u64> allowed[3]; // how many were sent, and may be sent
    std::mutex lock; std::map<std::pair<std::string, u64>, Lane> lanes; // by input port and tag
    std::atomic<int> active{0}; std::atomic<size_t> activations{0}, deactivations{0}, works{0};
    Blk(int id, int ins, int outs, size_t chunk, unsigned dwell, unsigned lazy, const std::string &domain): id(id), ins(ins), outs(outs), chunk(chunk), dwell(dwell), lazy(lazy), rng(unsigned(id) * 7919u + 11u)
    {
        for (auto &k : made) for (auto &x : k) x = 0; for (auto &x : allowed) x = 0;
        for (int i = 0; i < ins; i++) this->setupInput(i, typeid(u64)); for (int i = 0; i < outs; i++) this->setupOutput(i, typeid(u64), domain);
        this->registerSignal("tell"); this->registerCall(this, "hear", &Blk::hear); this->setName("b" + std::to_string(id));
    }
    std::string show(void) const { return "block " + std::to_string(id); }
    void activate(void) { activations++; if (active.fetch_add(1) != 0) report(show() + " activated while active"); }
    void deactivate(void) { deactivations++; if (active.fetch_sub(1) != 1) report(show() + " deactivated while not active"); }
    void got(const std::string &port, const u64 *v, const size_t n, const int kind)
    {
        std::lock_guard<std::mutex> g(lock);
        for (size_t i = 0; i < n; i++)
        {
            const u64 tag = v[i] & ~seqMask, seq = v[i] & seqMask; auto &runs = lanes[{port, tag}].runs; const int who = int((tag >> 40) / maxPorts / 3);
            if (int((tag >> 40) / maxPorts % 3) != kind) { report(show() + " received a damaged " + kindName[kind]); return; }
            if (runs.empty() || seq > runs.back().second + 1) runs.push_back({seq, seq}); else if (seq == runs.back().second + 1) runs.back().second = seq;
            else { report(show() + "[" + port + "] received " + kindName[kind] + " " + std::to_string(seq) + " of block " + std::to_string(who) + " after " + std::to_string(runs.back().second)); return; }
        }
    }
    void hear(const u64 v) { if (active != 1) report(show() + ": slot called while not active"); got("hear", &v, 1, SIGNAL); }
    void work(void)
    {
        works++; if (active != 1) report(show() + ": work while not active"); rng = rng * 1664525u + 1013904223u;
        if ((rng >> 20) % 16 < (ins == 0 ? dwell + 4 : dwell)) std::this_thread::sleep_for(std::chrono::microseconds((rng >> 12) % 200));
        bool some = ins == 0; size_t limit = ins == 0 ? chunk : 0;
        for (auto &entry : this->allInputs())
        {
            auto *p = entry.second; if (p->isSlot()) continue; while (p->hasMessage()) { const auto m = p->popMessage(); if (m.type() != typeid(u64)) { report(show() + " received a message of type " + m.getTypeString()); continue; } const u64 v = m.extract<u64>(); got(p->name(), &v, 1, MESSAGE); some = true; }
            const size_t n = (rng >> 8) % 16 < lazy ? std::min<size_t>(p->elements(), 1 + rng % 5) : p->elements(); if (n == 0) continue; got(p->name(), p->buffer().as<const u64 *>(), n, STREAM); p->consume(n); limit = std::max(limit, n); some = true;
        }
        if (!some) return;
        for (auto &entry : this->allOutputs())
        {
            auto *p = entry.second; if (p->isSignal()) continue; const int port = p->index(); const size_t n = std::min(p->elements(), limit); const u64 first = made[STREAM][port]; made[STREAM][port] = first + n; u64 *out = p->buffer().as<u64 *>(); for (size_t i = 0; i < n; i++) out[i] = tagOf(id, STREAM, port) | (first + i); p->produce(n);
            if (made[MESSAGE][port] < allowed[MESSAGE]) { const u64 k = made[MESSAGE][port]++; p->postMessage(u64(tagOf(id, MESSAGE, port) | k)); }
        }
        if (made[SIGNAL][0] < allowed[SIGNAL]) { const u64 k = made[SIGNAL][0]++; this->emitSignal("tell", u64(tagOf(id, SIGNAL, 0) | k)); }
    }
};
struct Flow { int a; std::string ap; int b; std::string bp; bool signal(void) const { return ap == "tell"; } bool operator<(const Flow &o) const { return std::tie(a, ap, b, bp) < std::tie(o.a, o.ap, o.b, o.bp); } };
static std::string show(const Flow &f) { return "b" + std::to_string(f.a) + "[" + f.ap + "]->b" + std::to_string(f.b) + "[" + f.bp + "]"; }
//! when a flow existed, in terms of the counters of its producer
struct Epoch { u64 openLo, openHi, closeHi; bool open; };

static void history(Case &c)
{
    auto &s = c.s; takeFailure(); std::vector<std::shared_ptr<Blk>> b; const size_t n = 2 + s.draw(5); const bool autoPorts = s.chance(1, 3); const unsigned slow = unsigned(s.pick({0, 0, 1, 4})); const bool domains = s.chance(1, 4);
    for (size_t i = 0; i < n; i++) { const int kind = i == 0 ? 0 : i + 1 == n ? 2 : int(s.draw(2)); const int ins = kind == 0 ? 0 : 1 + int(s.draw(1)), outs = kind == 2 ? 0 : 1 + int(s.draw(1)); b.push_back(std::make_shared<Blk>(int(i), ins, outs, size_t(s.pick({1, 3, 40, 600, 3000})), slow, unsigned(s.pick({0, 0, 8, 16})), domains ? "d" : "")); b.back()->strict = domains && ins && s.flip(); c.desc << "b" << i << ":" << ins << "/" << outs << (b.back()->strict ? "strict " : " "); }
    Pothos::ThreadPool pool; if (s.chance(1, 3)) { Pothos::ThreadPoolArgs a(1 + s.draw(2)); pool = Pothos::ThreadPool(a); for (auto &x : b) if (s.chance(2, 3)) x->setThreadPool(pool); c.desc << "pool=" << a.numThreads << " "; }
    auto t = Topology::make(); std::set<Flow> pending, live; typedef std::pair<Flow, int> Key; std::map<Key, std::vector<Epoch>> epochs; size_t commits = 0, changes = 0, kept = 0, rounds = 0;
    auto portNo = [](const Flow &f) { return f.signal() ? 0 : std::stoi(f.ap); };
    auto kinds = [](const Flow &f) { return f.signal() ? std::vector<int>{SIGNAL} : std::vector<int>{STREAM, MESSAGE}; };
    auto ptr = [&](int i) { return std::static_pointer_cast<Pothos::Block>(b[i]); };
    auto settled = [&](const std::string &what) { if (anyFailed) return; std::set<int> in; for (auto &f : live) { in.insert(f.a); in.insert(f.b); } for (auto &x : b) { const bool want = in.count(x->id); if (x->active != (want ? 1 : 0)) report(x->show() + (want ? " is not active" : " is active") + " after " + what); if (x->activations != x->deactivations + (want ? 1 : 0)) report(x->show() + " saw " + std::to_string(x->activations) + " activate and " + std::to_string(x->deactivations) + " deactivate calls after " + what); if (x->isActive() != want) report(x->show() + " says isActive()=" + (x->isActive() ? "true" : "false") + " after " + what); } };
    auto change = [&](const std::string &what, const std::function<void()> &act)
    {
        for (auto &f : pending) if (!live.count(f)) for (int k : kinds(f)) epochs[{f, k}].push_back({b[f.a]->made[k][portNo(f)], 0, 0, true});
        try { act(); } catch (const std::exception &ex) { report(what + " failed: " + ex.what()); return; }
        for (auto &f : pending) { if (!live.count(f)) { changes++; for (int k : kinds(f)) epochs[{f, k}].back().openHi = b[f.a]->made[k][portNo(f)]; } else kept++; }
        for (auto &f : live) if (!pending.count(f)) { changes++; for (int k : kinds(f)) { auto &e = epochs[{f, k}].back(); e.closeHi = b[f.a]->made[k][portNo(f)]; e.open = false; } }
        live = pending; commits++; settled(what);
    };
    auto last = [&](const Flow &f, int k) -> long long { auto &x = *b[f.b]; std::lock_guard<std::mutex> g(x.lock); auto it = x.lanes.find({f.bp, tagOf(f.a, k, portNo(f))}); return it == x.lanes.end() ? -1 : (long long)it->second.runs.back().second; };
    //! every flow of a producer that has something to send carries new data
    auto progress = [&](void)
    {
        if (anyFailed) return; std::set<int> alive; for (auto &x : b) if (x->ins == 0) alive.insert(x->id); for (size_t i = 0; i < b.size(); i++) for (auto &f : live) if (!f.signal() && alive.count(f.a)) alive.insert(f.b);
        std::map<Key, u64> want; for (auto &f : live) if (alive.count(f.a)) for (int k : kinds(f)) want[{f, k}] = b[f.a]->made[k][portNo(f)];
        for (auto &x : b) for (int k : {MESSAGE, SIGNAL}) { u64 hi = 0; for (auto &m : x->made[k]) hi = std::max(hi, m.load()); x->allowed[k] = hi + 2; } rounds++;
        // a port of a block may lag behind the others, so that its number can stay below the allowance while it is not used
        const auto start = std::chrono::steady_clock::now(); Key lack; bool ok = false;
        while (!anyFailed && !ok) { ok = true; for (auto &w : want) if (last(w.first.first, w.first.second) < (long long)w.second) { ok = false; lack = w.first; break; } if (ok || std::chrono::steady_clock::now() - start > std::chrono::seconds(15)) break; std::this_thread::sleep_for(std::chrono::microseconds(200)); }
        if (!ok && !anyFailed) { t.reset(); pbt::fail("no " + std::string(kindName[lack.second]) + " arrives over " + show(lack.first) + " although its producer is running", true); }
    };
    const size_t steps = 2 + s.draw(14);
    for (size_t step = 0; step < steps && !anyFailed; step++)
    {
        for (size_t e = s.draw(4); e > 0; e--)
        {
            const size_t what = s.weighted({8, 5, 1});
            if (what == 2) { if (!s.chance(1, 3)) continue; c.desc << "disconnectAll "; t->disconnectAll(); pending.clear(); continue; }
            if (what == 1) { if (pending.empty()) continue; auto it = pending.begin(); std::advance(it, s.draw(pending.size() - 1)); const Flow f = *it; c.desc << "-" << show(f) << " "; try { t->disconnect(ptr(f.a), f.ap, ptr(f.b), f.bp); } catch (const std::exception &ex) { report("disconnect of " + show(f) + " failed: " + ex.what()); } pending.erase(f); continue; }
            Flow f; f.a = int(s.draw(n - 1)); f.b = int(s.draw(n - 1)); if (f.a == f.b) f.b = (f.a + 1) % int(n); if (f.a > f.b) std::swap(f.a, f.b); // no loops
            if (s.chance(1, 4) || b[f.a]->outs == 0 || b[f.b]->ins == 0) { f.ap = "tell"; f.bp = "hear"; }
            else { f.ap = std::to_string(s.draw(b[f.a]->outs - 1 + (autoPorts ? 1 : 0))); f.bp = std::to_string(s.draw(b[f.b]->ins - 1 + (autoPorts ? 1 : 0))); }
            const bool dup = pending.count(f); c.desc << (dup ? "dup" : "+") << show(f) << " "; bool threw = false; std::string why;
            try { t->connect(ptr(f.a), f.ap, ptr(f.b), f.bp); } catch (const std::exception &ex) { threw = true; why = ex.what(); }
            if (threw != dup) report((dup ? "a second connect of " : "connect of ") + show(f) + (threw ? " failed: " + why : " succeeded")); pending.insert(f);
        }
        if (s.chance(1, 12)) { c.desc << "destroy "; const auto keep = pending; pending.clear(); change("the topology was destroyed", [&] { t.reset(); }); t = Topology::make(); if (s.flip()) { for (auto &f : keep) { t->connect(ptr(f.a), f.ap, ptr(f.b), f.bp); pending.insert(f); } c.desc << "again "; } continue; }
        if (s.chance(1, 10)) { c.desc << "progress "; progress(); } // nothing of the above is in force yet
        c.desc << "commit "; change("commit", [&] { t->commit(); });
        switch (s.weighted({3, 3, 3})) { case 0: break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(s.small(0, 3000))); break; default: c.desc << "progress "; progress(); }
    }
    c.desc << "end"; if (!anyFailed) { progress(); pending.clear(); change("the topology was destroyed", [&] { t.reset(); }); } else t.reset();
    { const auto f = takeFailure(); if (!f.empty()) pbt::fail(f); }
    // everything that arrived must fit the periods in which its flow existed
    size_t total = 0, runs = 0;
    for (auto &x : b) for (auto &l : x->lanes)
    {
        const int code = int(l.first.second >> 40), port = code % maxPorts, kind = code / maxPorts % 3, who = code / maxPorts / 3; Flow f{who, kind == SIGNAL ? "tell" : std::to_string(port), x->id, l.first.first}; auto it = epochs.find({f, kind}); if (it == epochs.end()) pbt::fail(std::string(kindName[kind]) + "s arrived over " + show(f) + " which was never connected");
        const auto &es = it->second; runs += l.second.runs.size();
        for (size_t r = 0; r < l.second.runs.size(); r++)
        {
            const auto run = l.second.runs[r]; total += size_t(run.second - run.first + 1); auto opens = [&](const Epoch &e) { return run.first >= e.openLo && run.first <= e.openHi; };
            bool starts = false; for (auto &e : es) starts = starts || opens(e);
            if (!starts) { std::ostringstream o; o << kindName[kind] << " " << run.first << " arrived over " << show(f) << " " << (r ? "right after " + std::to_string(l.second.runs[r - 1].second) : std::string("first")) << " while the flow was committed when the producer had made"; for (auto &e : es) o << " " << e.openLo << ".." << e.openHi; pbt::fail(o.str()); }
            // a run may go on from one period to the next only where they touch
            u64 end = 0; for (auto &e : es) if (e.openLo <= std::max(run.first, end)) end = std::max(end, e.closeHi); if (run.second >= end) { std::ostringstream o; o << kindName[kind] << " " << run.second << " arrived over " << show(f) << " although the producer had only made " << end << " when the flow was removed"; pbt::fail(o.str()); }
        }
    }
    c.count("values received", total); c.count("commits", commits); c.count("flows added or removed", changes); c.count("flows kept over a commit", kept); c.count("runs", runs); c.nontrivial = commits >= 2 && changes >= 3 && total > 10; if (kept) c.tag("kept flows"); if (domains) c.tag("domains"); if (autoPorts) c.tag("automatic ports"); if (rounds > 1) c.tag("checked while running");
}
PBT_MAIN("C04", (std::vector<Sub>{{"history", 1, &history, true}}))
