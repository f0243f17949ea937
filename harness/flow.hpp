// Randomly generated flow graphs of scripted blocks, with an element-exact oracle at every input.
#pragma once
#include "common.hpp"
#include "userrace.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Plugin.hpp>
#include <Poco/Logger.h>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

namespace flow {
using pbt::Case; using pbt::Src;

inline void quietLogs(void) { Poco::Logger::root().setLevel(0); }

struct Rng
{
    explicit Rng(uint64_t s = 1): x(s * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t x;
    uint64_t next(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; }
    size_t upTo(size_t n) { return n == 0 ? 0 : size_t((next() >> 11) % (n + 1)); }
    bool chance(unsigned a, unsigned b) { return (next() >> 20) % b < a; }
};

//! content of a generated stream
inline uint8_t genByte(uint64_t id, uint64_t pos) { uint64_t z = (pos + 1) * 0x9E3779B97F4A7C15ull + id * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; return uint8_t(z >> 56); }

// every access of the blocks to stream memory goes through these
USER_ACCESS inline size_t badByte(const uint8_t *p, uint64_t id, uint64_t pos, uint8_t key, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] != uint8_t(genByte(id, pos + i) ^ key)) return i; return n; }
USER_ACCESS inline void fillBytes(uint8_t *p, uint64_t id, uint64_t pos, uint8_t key, size_t n) { for (size_t i = 0; i < n; i++) p[i] = genByte(id, pos + i) ^ key; }
USER_ACCESS inline void copyBytes(uint8_t *p, const uint8_t *in, uint8_t key, size_t n) { for (size_t i = 0; i < n; i++) p[i] = in[i] ^ key; }

//! what the whole graph shares: first failure and the number of finished lanes
struct Shared
{
    std::mutex m; std::condition_variable cv; std::string error; size_t done = 0; std::atomic<bool> failed{false};
    void fail(const std::string &e) { std::lock_guard<std::mutex> l(m); if (error.empty()) error = e; failed = true; cv.notify_all(); }
    void finished(void) { std::lock_guard<std::mutex> l(m); done++; cv.notify_all(); }
    //! waits until n lanes finished or a failure: "" / "timeout" / error; poll is called now and then
    std::string wait(size_t n, double secs, const std::function<void(void)> &poll = nullptr)
    {
        const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long long)(secs * 1000));
        for (;;)
        {
            {
                std::unique_lock<std::mutex> l(m);
                const bool ok = cv.wait_for(l, std::chrono::milliseconds(3), [&](void) { return done >= n || !error.empty(); });
                if (!error.empty()) return error;
                if (ok) return "";
            }
            if (poll) poll();
            if (std::chrono::steady_clock::now() > end) return "timeout";
        }
    }
};
#define FLOW_FAIL(x) do { std::ostringstream o_; o_ << x; shared.fail(o_.str()); return; } while (0)

struct LabelSpec { uint64_t index; size_t width; int no; };
//! a stream as seen at one point of the graph
struct Stream { uint64_t id = 0; size_t esize = 1; uint64_t total = 0; uint8_t key = 0; std::vector<LabelSpec> labels; Pothos::DType dtype; };

enum OutMode { PRODUCE, POST_NEW, GETBUFFER, POPPOST, FORWARD, INPLACE };
inline const char *modeName(int m) { static const char *n[] = {"produce", "postnew", "getbuffer", "poppost", "forward", "inplace"}; return n[m]; }

struct OutCfg
{
    int port = 0; OutMode mode = PRODUCE; std::string manager; size_t numBuffers = 4, bufferSize = 8192, reserve = 0; std::string domain; bool strict = false;
};
struct LaneCfg
{
    int in = -1;                      // input port, -1: source lane
    std::vector<OutCfg> outs;         // none: sink lane
    Stream stream;                    // what arrives (or, for a source, what is generated)
    uint8_t key = 0;                  // added by this lane
    int removeMod = 0;                // labels whose number is a multiple are removed (0: none)
    size_t maxChunk = 1000, reserve = 0; bool hold = false; unsigned lazy = 0; // lazy: chance out of 8 to do nothing
    std::string inManager; std::string inDomain; size_t inBuffers = 4, inBufferSize = 8192;
    uint64_t seed = 1;
};

inline Pothos::Label makeLabel(const LabelSpec &l, uint64_t index)
{
    const std::string id = "L" + std::to_string(l.no);
    if (l.no % 3 == 0) return Pothos::Label(id, l.no, index, l.width);
    if (l.no % 3 == 1) return Pothos::Label(id, std::string("payload") + std::to_string(l.no), index, l.width);
    return Pothos::Label(id, Pothos::Object(), index, l.width);
}
inline std::string checkLabel(const Pothos::Label &got, const LabelSpec &want)
{
    if (got.id != "L" + std::to_string(want.no)) return "label id " + got.id + ", want L" + std::to_string(want.no);
    if (got.width != want.width) return "label width " + std::to_string(got.width) + ", want " + std::to_string(want.width);
    if (want.no % 3 == 0) { if (got.data.type() != typeid(int) || got.data.extract<int>() != want.no) return "label payload (int)"; }
    else if (want.no % 3 == 1) { if (got.data.type() != typeid(std::string) || got.data.extract<std::string>() != "payload" + std::to_string(want.no)) return "label payload (string)"; }
    else if (got.data) return "label payload (null)";
    return "";
}

//! one scripted block: any mix of source, pass-through and sink lanes
class GenBlock : public Pothos::Block
{
public:
    GenBlock(Shared &shared, const std::string &name, const std::vector<LaneCfg> &cfg): shared(shared)
    {
        this->setName(name);
        for (const auto &c : cfg)
        {
            lanes.emplace_back(); auto &l = lanes.back(); l.c = c; l.rng = Rng(c.seed);
            if (c.in >= 0) { this->setupInput(c.in, c.stream.dtype, c.inDomain); this->input(c.in)->setReserve(std::min<uint64_t>(c.reserve, c.stream.total)); numIns++; }
            for (auto &o : c.outs) { this->setupOutput(o.port, c.stream.dtype, o.domain); if (o.reserve) this->output(o.port)->setReserve(o.reserve); }
            for (auto &o : c.outs) if (o.mode == INPLACE) this->output(o.port)->setReadBeforeWrite(this->input(c.in));
            l.expect = c.stream.labels;
        }
    }
    std::shared_ptr<Pothos::BufferManager> getOutputBufferManager(const std::string &name, const std::string &domain)
    {
        for (auto &l : lanes) for (auto &o : l.c.outs) if (std::to_string(o.port) == name)
        {
            if (o.strict && !domain.empty() && domain != o.domain) throw Pothos::PortDomainError(domain);
            if (o.manager.empty()) return Pothos::BufferManager::Sptr();
            Pothos::BufferManagerArgs a; a.numBuffers = o.numBuffers; a.bufferSize = o.bufferSize;
            return Pothos::BufferManager::make(o.manager, a);
        }
        return Pothos::BufferManager::Sptr();
    }
    std::shared_ptr<Pothos::BufferManager> getInputBufferManager(const std::string &name, const std::string &domain)
    {
        for (auto &l : lanes) if (l.c.in >= 0 && std::to_string(l.c.in) == name && !l.c.inManager.empty())
        {
            Pothos::BufferManagerArgs a; a.numBuffers = l.c.inBuffers; a.bufferSize = l.c.inBufferSize;
            return Pothos::BufferManager::make(l.c.inManager, a);
        }
        return Pothos::BufferManager::Sptr();
    }
    void propagateLabels(const Pothos::InputPort *in)
    {
        if (lanes.size() == 1) { Pothos::Block::propagateLabels(in); return; }
        for (auto &l : lanes) if (l.c.in == in->index()) for (auto &o : l.c.outs) for (const auto &lab : in->labels()) this->output(o.port)->postLabel(lab);
    }
    void activate(void) { active++; if (active != 1) shared.fail(this->getName() + ": activated twice"); }
    void deactivate(void) { active--; if (active != 0) shared.fail(this->getName() + ": deactivated while inactive"); }
    void work(void)
    {
        workCalls++;
        if (active != 1) FLOW_FAIL(this->getName() << ": work while not active");
        if (shared.failed) return;
        checkInfo();
        bool busy = false;
        for (auto &l : lanes) { this->lane(l, busy); if (shared.failed) return; }
        if (busy) this->yield();
    }

    struct Lane
    {
        LaneCfg c; Rng rng; uint64_t pos = 0; bool done = false; std::vector<LabelSpec> expect; size_t nextLabel = 0;
        Pothos::BufferChunk held; uint64_t heldPos = 0, heldLen = 0;
        std::map<int, uint64_t> buffersPosted; // by output port
        uint64_t inPlaceGranted = 0;
    };
    std::vector<Lane> lanes;
    int active = 0; std::atomic<uint64_t> workCalls{0}; size_t numIns = 0;
    std::vector<std::string> notes;

    //! from another thread: buffers come back in order, so a holder must let go even when it gets no more work
    void releaseHeld(void) { for (auto &l : lanes) if (l.c.hold) this->checkHeld(l, true); }

private:
    Shared &shared; std::mutex heldMutex;

    void checkHeld(Lane &l, bool release)
    {
        Pothos::BufferChunk drop;
        std::lock_guard<std::mutex> lock(heldMutex);
        if (!l.held) return;
        const auto &st = l.c.stream;
        const size_t bad = badByte(l.held.as<const uint8_t *>(), st.id, l.heldPos, st.key, l.heldLen);
        if (bad != l.heldLen) FLOW_FAIL(this->getName() << ": a held buffer changed at byte " << l.heldPos + bad);
        if (release) drop = std::move(l.held);
    }

    void checkInfo(void)
    {
        // the sizes reported to one work call agree with each other
        const auto &w = this->workInfo();
        size_t minIn = size_t(1) << 30, minOut = size_t(1) << 30;
        for (auto p : this->inputs()) { minIn = std::min(minIn, p->elements()); if (w.inputPointers.at(p->index()) != p->buffer().as<const void *>()) FLOW_FAIL(this->getName() << ": work info input pointer"); }
        for (auto p : this->outputs()) { minOut = std::min(minOut, p->elements()); if (w.outputPointers.at(p->index()) != p->buffer().as<void *>()) FLOW_FAIL(this->getName() << ": work info output pointer"); if (p->elements() == 0) FLOW_FAIL(this->getName() << ": work called with an empty output buffer"); }
        if (w.minInElements != minIn || w.minOutElements != minOut || w.minElements != std::min(minIn, minOut)) FLOW_FAIL(this->getName() << ": work info minimums " << w.minInElements << "," << w.minOutElements << "," << w.minElements << " want " << minIn << "," << minOut);
        if (w.minAllInElements != minIn || w.minAllOutElements != minOut || w.minAllElements != std::min(minIn, minOut)) FLOW_FAIL(this->getName() << ": work info all-minimums");
        if (numIns > 0 && numIns == lanes.size())
        {
            bool reached = false;
            for (auto &l : lanes) if (l.c.in >= 0 && this->input(l.c.in)->elements() >= curReserve(l)) reached = true;
            if (!reached) FLOW_FAIL(this->getName() << ": work called though no reserve is met");
        }
    }
    static size_t curReserve(const Lane &l) { return size_t(std::min<uint64_t>(l.c.reserve, l.c.stream.total - l.pos)); }

    void lane(Lane &l, bool &busy)
    {
        const auto &st = l.c.stream;
        const std::string where = this->getName() + (l.c.in >= 0 ? " in" + std::to_string(l.c.in) : " src");
        uint64_t avail = st.total - l.pos;
        const uint8_t *in = nullptr;
        this->checkHeld(l, l.rng.chance(1, 2) || l.done);
        if (shared.failed) return;
        if (l.c.in >= 0)
        {
            auto port = this->input(l.c.in);
            if (port->elements() > avail) FLOW_FAIL(where << ": " << port->elements() << " elements available at position " << l.pos << ", but only " << avail << " are left");
            if (port->totalElements() != l.pos) FLOW_FAIL(where << ": total elements " << port->totalElements() << ", consumed " << l.pos);
            avail = port->elements();
            in = port->buffer().as<const uint8_t *>();
            if (port->buffer().length < avail * st.esize) FLOW_FAIL(where << ": buffer of " << port->buffer().length << " bytes for " << avail << " elements");
            const size_t bad = badByte(in, st.id, l.pos * st.esize, st.key, avail * st.esize);
            if (bad != avail * st.esize) FLOW_FAIL(where << ": wrong byte at stream offset " << l.pos * st.esize + bad << " (element " << l.pos + bad / st.esize << ")");
            // labels: the visible ones are exactly the next expected ones
            size_t n = l.nextLabel;
            uint64_t last = 0;
            for (const auto &lab : port->labels())
            {
                if (n >= l.expect.size()) FLOW_FAIL(where << ": surplus label " << lab.id << " at " << l.pos + lab.index);
                if (l.pos + lab.index < last) FLOW_FAIL(where << ": labels out of order");
                last = l.pos + lab.index;
                // labels on the same element may come in any order
                size_t g = n; while (g + 1 < l.expect.size() && l.expect[g + 1].index == l.expect[n].index) g++;
                size_t k = n; while (k <= g && lab.id != "L" + std::to_string(l.expect[k].no)) k++;
                if (k > g) FLOW_FAIL(where << ": label " << lab.id << " at " << last << ", want L" << l.expect[n].no << " at " << l.expect[n].index);
                std::swap(l.expect[n], l.expect[k]);
                if (last != l.expect[n].index) FLOW_FAIL(where << ": label " << lab.id << " at element " << last << ", want " << l.expect[n].index);
                const auto e = checkLabel(lab, l.expect[n]);
                if (!e.empty()) FLOW_FAIL(where << ": " << e);
                n++;
            }
            for (size_t i = n; i < l.expect.size(); i++) if (l.expect[i].index < l.pos + avail) FLOW_FAIL(where << ": label L" << l.expect[i].no << " of element " << l.expect[i].index << " is not visible with its element");
            if (avail < curReserve(l)) avail = 0;
        }
        if (l.done) return;
        // how much to move in this call
        uint64_t k = std::min<uint64_t>(avail, l.c.maxChunk);
        for (auto &o : l.c.outs) if (o.mode == PRODUCE || o.mode == INPLACE || o.mode == POPPOST) k = std::min<uint64_t>(k, this->output(o.port)->elements());
        if (k > 0 && l.rng.chance(l.c.lazy, 8)) { busy = true; k = 0; }
        if (k > 1 && l.rng.chance(1, 2)) k = 1 + l.rng.upTo(k - 1);
        if (k > 0)
        {
            const size_t bytes = k * st.esize, at = l.pos * st.esize;
            Pothos::BufferChunk taken;
            bool forwards = false, late = false;
            for (auto &o : l.c.outs) { if (o.mode == FORWARD) forwards = true; if (l.rng.chance(1, 2)) late = true; }
            if (!late) this->postLabels(l, k);
            // copies first, the in-place output last
            for (int pass = 0; pass < 2; pass++) for (auto &o : l.c.outs)
            {
                if ((o.mode == INPLACE || o.mode == FORWARD) != (pass == 1)) continue;
                auto port = this->output(o.port);
                auto fill = [&](uint8_t *p, size_t off, size_t n)
                {
                    if (in) copyBytes(p, in + off, l.c.key, n);
                    else fillBytes(p, st.id, at + off, l.c.key, n);
                };
                switch (o.mode)
                {
                case INPLACE: if (in == port->buffer().as<const uint8_t *>()) l.inPlaceGranted++; // fallthrough
                case PRODUCE: fill(port->buffer().as<uint8_t *>(), 0, bytes); port->produce(k); l.buffersPosted[o.port]++; break;
                case POST_NEW:
                    for (size_t off = 0; off < k;)
                    {
                        const size_t n = l.rng.chance(1, 3) ? 1 + l.rng.upTo(k - off - 1) : k - off;
                        Pothos::BufferChunk b(st.dtype, n);
                        fill(b.as<uint8_t *>(), off * st.esize, n * st.esize); off += n;
                        port->postBuffer(std::move(b)); l.buffersPosted[o.port]++;
                    } break;
                case GETBUFFER:
                    {
                        auto b = port->getBuffer(k); b.dtype = st.dtype;
                        if (b.length != bytes) FLOW_FAIL(where << ": getBuffer gave " << b.length << " bytes, asked for " << bytes);
                        fill(b.as<uint8_t *>(), 0, bytes); port->postBuffer(b); l.buffersPosted[o.port]++;
                    } break;
                case POPPOST:
                    {
                        auto b = port->buffer(); b.length = bytes; fill(b.as<uint8_t *>(), 0, bytes);
                        port->popElements(k); port->postBuffer(std::move(b)); l.buffersPosted[o.port]++;
                    } break;
                case FORWARD:
                    {
                        auto b = this->input(l.c.in)->buffer(); b.length = bytes;
                        if (l.rng.chance(1, 4) && k > 1)
                        {
                            const size_t n = 1 + l.rng.upTo(k - 2);
                            auto b2 = b; b.length = n * st.esize; b2.address += b.length; b2.length -= b.length;
                            port->postBuffer(b); port->postBuffer(std::move(b2)); l.buffersPosted[o.port] += 2;
                        }
                        else { port->postBuffer(std::move(b)); l.buffersPosted[o.port]++; }
                    } break;
                }
            }
            if (late) this->postLabels(l, k);
            if (l.c.in >= 0)
            {
                auto port = this->input(l.c.in);
                if (l.c.hold && l.rng.chance(1, 2)) { std::lock_guard<std::mutex> lock(heldMutex); l.held = port->buffer(); l.held.length = bytes; l.heldPos = at; l.heldLen = bytes; }
                if (l.c.removeMod) // remove labels of the consumed part so that they are not propagated
                    for (;;)
                    {
                        bool again = false;
                        for (const auto &lab : port->labels()) if (lab.index < k && std::stoi(lab.id.substr(1)) % l.c.removeMod == 0) { auto copy = lab; port->removeLabel(copy); again = true; break; }
                        if (!again) break;
                    }
                while (l.nextLabel < l.expect.size() && l.expect[l.nextLabel].index < l.pos + k) l.nextLabel++;
                if (l.rng.chance(1, 2)) port->consume(k); else { const size_t a = l.rng.upTo(k); port->consume(a); port->consume(k - a); }
            }
            l.pos += k;
            if (l.c.in >= 0) this->input(l.c.in)->setReserve(curReserve(l));
        }
        else if (l.c.in < 0 && avail > 0) busy = true;
        if (l.pos == st.total && !l.done) { l.done = true; shared.finished(); }
        else if (l.c.in < 0 || avail > k) busy = true;
    }
    void postLabels(Lane &l, uint64_t k)
    {
        if (l.c.in >= 0) return; // propagated by the framework
        std::vector<size_t> which;
        while (l.nextLabel < l.expect.size() && l.expect[l.nextLabel].index < l.pos + k) which.push_back(l.nextLabel++);
        for (size_t i = which.size(); i > 1; i--) std::swap(which[i - 1], which[l.rng.upTo(i - 1)]); // any posting order
        for (auto &o : l.c.outs) for (auto i : which) { this->output(o.port)->postLabel(makeLabel(l.expect[i], l.expect[i].index - l.pos)); }
    }
};

//! the block that the framework inserts at domain crossings (normally from a toolkit that is not installed)
class Copier : public Pothos::Block
{
public:
    static Pothos::Block *make(void) { return new Copier(); }
    Copier(void) { this->setupInput(0); this->setupOutput(0, "", "copierdomain"); made()++; }
    static std::atomic<size_t> &made(void) { static std::atomic<size_t> n{0}; return n; }
    void work(void)
    {
        auto in = this->input(0); auto out = this->output(0);
        const auto &b = in->buffer();
        if (b.length == 0) return;
        Pothos::BufferChunk c(b.dtype, b.length / b.dtype.size());
        copyBytes(c.as<uint8_t *>(), b.as<const uint8_t *>(), 0, b.length);
        in->consume(b.length); out->postBuffer(std::move(c));
    }
};
static Pothos::BlockRegistry registerCopier("/blocks/copier", &Copier::make);

struct Edge { size_t srcBlock; int srcPort; size_t dstBlock; int dstPort; };

struct Graph
{
    std::vector<std::vector<LaneCfg>> blocks;
    std::vector<Edge> edges;
    size_t numLanes = 0;
    int poolKind = 0; size_t poolThreads = 0; std::string yieldMode;
    bool fwd = false, held = false, rbw = false, fanout = false, labels = false, domains = false;
};

struct GraphOpts { size_t maxBlocks = 5; uint64_t maxElements = 3000; bool labels = false, domains = true, reserves = true; };

inline Graph genGraph(Case &c, const GraphOpts &opt)
{
    auto &s = c.s;
    Graph g;
    struct Out { size_t block; int port; Stream stream; size_t users = 0; size_t lane, idx; };
    std::vector<Out> outs;
    const size_t nb = size_t(s.range(2, opt.maxBlocks));
    uint64_t nextId = 1 + uint64_t(s.range(0, 200)); int labelNo = 0;
    size_t sumReserve = 0, stages = 0;
    static const std::vector<std::pair<std::string, size_t>> types = {{"uint8", 1}, {"int16", 2}, {"float32", 4}, {"complex_float64", 16}, {"int32, 3", 12}, {"uint8, 5", 5}, {"int64", 8}};
    const uint64_t scale = uint64_t(s.small(1, opt.maxElements));
    for (size_t b = 0; b < nb; b++)
    {
        const size_t nl = b == 0 ? size_t(s.range(1, 2)) : 1 + size_t(s.weighted({6, 2, 1}));
        std::vector<LaneCfg> lanes; int nin = 0, nout = 0;
        const size_t earlier = outs.size(); // no block feeds itself: a full output stops all lanes of a block
        for (size_t li = 0; li < nl; li++)
        {
            LaneCfg l; l.seed = uint64_t(s.range(1, 1000000));
            const bool source = b == 0 || s.chance(1, 12);
            if (source)
            {
                const auto &t = s.pick(types);
                l.stream.id = nextId++; l.stream.dtype = Pothos::DType(t.first); l.stream.esize = t.second;
                l.stream.total = uint64_t(s.range(1, scale));
                if (opt.labels)
                {
                    const size_t n = size_t(s.small(0, 40));
                    for (size_t i = 0; i < n; i++) l.stream.labels.push_back({uint64_t(s.range(0, l.stream.total - 1)), size_t(s.small(1, 50)), labelNo++});
                    std::stable_sort(l.stream.labels.begin(), l.stream.labels.end(), [](const LabelSpec &a, const LabelSpec &b) { return a.index < b.index; });
                    if (n) g.labels = true;
                }
            }
            else
            {
                auto &o = outs[s.draw(earlier - 1)];
                if (o.users++) g.fanout = true;
                l.stream = o.stream; l.in = nin++;
                g.edges.push_back({o.block, o.port, b, l.in});
                if (opt.reserves && s.chance(1, 3)) { l.reserve = size_t(s.small(1, 400)); sumReserve += l.reserve * l.stream.esize; }
                if (s.chance(1, 5)) { l.hold = true; g.held = true; stages++; }
                if (opt.labels && s.chance(1, 5)) l.removeMod = int(s.range(2, 3));
            }
            l.maxChunk = s.chance(1, 3) ? 1 + size_t(s.small(0, 20)) : 1 + size_t(s.small(10, 5000));
            l.lazy = unsigned(s.range(0, 4));
            const size_t no = source ? 1 + s.chance(1, 6) : (b + 1 == nb ? 0 : s.weighted({2, 6, 1}));
            bool anyForward = false;
            for (size_t k = 0; k < no; k++)
            {
                OutCfg o; o.port = nout++;
                if (source) o.mode = s.pick({PRODUCE, PRODUCE, POST_NEW, GETBUFFER, POPPOST});
                else o.mode = s.pick({PRODUCE, FORWARD, INPLACE, POST_NEW, GETBUFFER, POPPOST});
                if (o.mode == INPLACE && (no > 1 || l.hold)) o.mode = PRODUCE;
                if (o.mode == FORWARD) { anyForward = true; stages++; g.fwd = true; }
                if (o.mode == INPLACE) { stages++; g.rbw = true; }
                o.manager = s.pick({std::string(""), std::string("generic"), std::string("circular")});
                if (opt.reserves && s.chance(1, 6)) o.reserve = size_t(s.small(1, 200));
                l.outs.push_back(o);
            }
            if (!anyForward && s.chance(1, 3)) l.key = uint8_t(s.range(1, 255));
            if (anyForward) l.key = 0;
            lanes.push_back(l);
            for (size_t k = 0; k < l.outs.size(); k++)
            {
                Out o; o.block = b; o.port = l.outs[k].port; o.stream = l.stream; o.stream.key ^= l.key; o.lane = li; o.idx = k;
                if (l.removeMod) { std::vector<LabelSpec> keep; for (auto &x : o.stream.labels) if (x.no % l.removeMod != 0) keep.push_back(x); o.stream.labels = keep; }
                outs.push_back(o);
            }
        }
        g.numLanes += lanes.size();
        g.blocks.push_back(lanes);
    }
    // memory of the managers: enough that holding, forwarding and reserves can always be satisfied
    if (opt.domains && s.chance(1, 4))
        for (auto &e : g.edges) if (s.chance(1, 3))
        {
            g.domains = true; stages++;
            OutCfg *o = nullptr; LaneCfg *in = nullptr;
            for (auto &l : g.blocks[e.srcBlock]) for (auto &x : l.outs) if (x.port == e.srcPort) o = &x;
            for (auto &l : g.blocks[e.dstBlock]) if (l.in == e.dstPort) in = &l;
            switch (s.draw(2))
            {
            case 0: o->domain = "D"; o->strict = true; if (s.chance(2, 3)) in->inDomain = "E"; break; // refuses the other domain: a bridge is inserted
            case 1: in->inManager = s.flip() ? "generic" : "circular"; break; // the consumer brings the memory
            default: in->inDomain = "E"; break;
            }
        }
    const bool tight = stages == 0 && sumReserve == 0;
    for (auto &b : g.blocks) for (auto &l : b)
    {
        const size_t minSize = 2 * l.stream.esize;
        auto pick = [&](size_t &n, size_t &size)
        {
            size = size_t(s.small(minSize, 2000));
            n = (tight ? 1 : 3 + stages + (2 * sumReserve + size - 1) / size) + size_t(s.small(0, 4));
            if (n > 60) { size = 4096; n = 4 + stages + (2 * sumReserve) / size; }
        };
        for (auto &o : l.outs)
        {
            pick(o.numBuffers, o.bufferSize);
            if (o.reserve) o.reserve = std::min(o.reserve, o.bufferSize / l.stream.esize / 2);
            if (o.manager.empty() && 3 + stages + 2 * sumReserve / 8192 > 4) o.manager = "generic";
        }
        pick(l.inBuffers, l.inBufferSize);
    }
    g.poolKind = int(s.weighted({3, 3, 2}));
    g.poolThreads = size_t(s.range(1, 4));
    g.yieldMode = s.pick({std::string(""), std::string("CONDITION"), std::string("HYBRID"), std::string("SPIN")});
    if (g.poolKind != 1 && g.yieldMode == "SPIN") g.yieldMode = "HYBRID"; // a spinning thread per block only burns the machine
    for (size_t b = 0; b < g.blocks.size(); b++)
    {
        c.desc << "b" << b << "{";
        for (auto &l : g.blocks[b])
        {
            if (l.in < 0) c.desc << "src " << l.stream.dtype.toString() << " x" << l.stream.total << " labels=" << l.stream.labels.size();
            else c.desc << "in" << l.in << " reserve=" << l.reserve << (l.hold ? " hold" : "");
            if (l.removeMod) c.desc << " rmlabel%" << l.removeMod;
            c.desc << " chunk<=" << l.maxChunk << " lazy=" << l.lazy << " ->";
            for (auto &o : l.outs) c.desc << " out" << o.port << ":" << modeName(o.mode) << "/" << (o.manager.empty() ? "default" : o.manager) << " " << o.numBuffers << "x" << o.bufferSize << (o.reserve ? " res=" + std::to_string(o.reserve) : "") << (o.domain.empty() ? "" : " dom=" + o.domain);
            c.desc << "; ";
        }
        c.desc << "} ";
    }
    for (auto &e : g.edges) c.desc << e.srcBlock << "." << e.srcPort << "->" << e.dstBlock << "." << e.dstPort << " ";
    c.desc << "pool=" << g.poolKind << "/" << g.poolThreads << g.yieldMode;
    return g;
}

//! all pools of a case
inline void assignPools(const Graph &g, std::vector<std::shared_ptr<GenBlock>> &blocks, Pothos::Topology &t)
{
    if (g.poolKind == 0) return; // a thread per block
    Pothos::ThreadPoolArgs a(g.poolThreads); a.yieldMode = g.yieldMode;
    if (g.poolKind == 1) t.setThreadPool(Pothos::ThreadPool(a));
    else { Pothos::ThreadPool p(a); for (auto &b : blocks) b->setThreadPool(p); }
}

struct Run
{
    Shared shared;
    std::vector<std::shared_ptr<GenBlock>> blocks;
    std::unique_ptr<Pothos::Topology> topo;
    void build(const Graph &g)
    {
        quietLogs();
        for (size_t b = 0; b < g.blocks.size(); b++) blocks.emplace_back(new GenBlock(shared, "b" + std::to_string(b), g.blocks[b]));
        topo.reset(new Pothos::Topology());
        assignPools(g, blocks, *topo);
        for (auto &e : g.edges) topo->connect(blocks[e.srcBlock], e.srcPort, blocks[e.dstBlock], e.dstPort);
    }
    //! lanes of blocks that take part in a flow; the others never run
    static size_t activeLanes(const Graph &g)
    {
        std::set<size_t> used; for (auto &e : g.edges) { used.insert(e.srcBlock); used.insert(e.dstBlock); }
        size_t n = 0; for (auto b : used) n += g.blocks[b].size();
        return n;
    }
    std::string wait(size_t n, double secs) { auto e = shared.wait(n, secs, [this](void) { for (auto &b : blocks) b->releaseHeld(); }); for (auto &b : blocks) b->releaseHeld(); return e; }
    std::string progress(void) const
    {
        std::ostringstream o;
        for (auto &b : blocks) { o << b->getName() << ":"; for (auto &l : b->lanes) o << " " << l.pos << "/" << l.c.stream.total; o << "; "; }
        return o.str();
    }
};

static const double LIMIT = 30;

//! builds, runs and judges one generated graph
inline void runGraph(Case &c, const GraphOpts &opt)
{
    const auto g = genGraph(c, opt);
    const size_t copiers = Copier::made();
    Run r;
    r.build(g);
    r.topo->commit();
    const auto e = r.wait(Run::activeLanes(g), LIMIT);
    if (e == "timeout") pbt::fail("produced data was not consumed: " + r.progress(), true);
    if (!e.empty()) pbt::fail(e);
    userrace::check("stream memory");
    // nothing may arrive after the end
    if (c.s.chance(1, 4)) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    r.topo.reset();
    std::string late = r.shared.error;
    if (!late.empty()) pbt::fail(late);
    userrace::check("stream memory");
    uint64_t inplace = 0, moved = 0;
    for (auto &b : r.blocks)
    {
        if (b->active != 0) pbt::fail(b->getName() + " still active after the topology is gone");
        for (auto &l : b->lanes) { inplace += l.inPlaceGranted; moved += l.pos; }
    }
    c.nontrivial = moved > 20 && g.edges.size() >= 2;
    uint64_t nl = 0; for (auto &b : r.blocks) for (auto &l : b->lanes) if (l.c.in >= 0) nl += l.expect.size();
    if (opt.labels) c.nontrivial = c.nontrivial && nl > 3;
    if (nl) c.count("labels", nl);
    if (inplace) c.tag("in-place-granted");
    if (g.fwd) c.tag("forwarded-buffers");
    if (g.held) c.tag("held-buffers");
    if (g.fanout) c.tag("fan-out");
    if (Copier::made() != copiers) c.tag("domain-bridge");
    c.tag(g.poolKind == 0 ? "thread-per-block" : "pool");
    c.count("elements", moved);
}

} // namespace flow
