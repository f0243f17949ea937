// C11: buffer managers, managed buffer references and the buffer pool.
#include "common.hpp"
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferPool.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <mutex>
#include <deque>
using namespace pbt;
using Pothos::BufferChunk; using Pothos::ManagedBuffer; using Pothos::SharedBuffer;

struct Held
{
    std::vector<BufferChunk> chunks;   // references
    std::vector<ManagedBuffer> mbs;
    size_t addr, len, slab; std::vector<uint8_t> want;
    size_t refs(void) const { return chunks.size() + mbs.size(); }
};

struct World
{
    Pothos::BufferManager::Sptr mgr;
    bool circ; size_t base, span; // span: bytes of storage
    std::deque<Held> held;        // in hand-out order
    std::vector<std::pair<size_t, size_t>> phys(size_t a, size_t n) const
    {
        std::vector<std::pair<size_t, size_t>> out;
        size_t off = a - base;
        if (circ) off %= span;
        if (circ && off + n > span) { out.push_back({off, span}); out.push_back({0, off + n - span}); }
        else out.push_back({off, off + n});
        return out;
    }
    bool overlap(size_t a, size_t n, size_t b, size_t m) const
    {
        for (auto &x : phys(a, n)) for (auto &y : phys(b, m)) if (x.first < y.second && y.first < x.second) return true;
        return false;
    }
    void verify(const char *where)
    {
        for (auto &h : held) if (std::memcmp((void *)h.addr, h.want.data(), h.len) != 0) PBT_FAIL(where << ": bytes of a referenced buffer changed");
        if (!mgr || mgr->empty()) return;
        const auto &f = mgr->front();
        PBT_CHECK(bool(f) && f.length > 0, where << ": non-empty manager offers an empty buffer");
        PBT_CHECK(f.address >= base && f.address + f.length <= base + span * (circ ? 2 : 1), where << ": offered memory lies outside of the storage");
        for (auto &h : held) if (h.refs()) PBT_CHECK(!overlap(f.address, f.length, h.addr, h.len), where << ": offered memory overlaps a referenced buffer");
    }
};

static void managers(Case &c)
{
    auto &s = c.s;
    std::deque<ManagedBuffer> queue; // outlives the manager
    World w;
    Pothos::BufferManagerArgs args;
    args.numBuffers = size_t(s.range(1, 6));
    args.bufferSize = size_t(s.small(1, 5000));
    if (s.chance(1, 3)) args.bufferSize = 4096;
    w.circ = s.flip();
    SharedBuffer storage;
    std::weak_ptr<void> watch;
    auto alloc = [&](const Pothos::BufferManagerArgs &a)
    {
        const auto b = w.circ ? SharedBuffer::makeCirc(a.bufferSize * a.numBuffers) : SharedBuffer::make(a.bufferSize * a.numBuffers);
        w.base = b.getAddress(); w.span = b.getLength(); watch = b.getContainer();
        return b;
    };
    const std::string name = w.circ ? "circular" : "generic";
    if (s.flip()) w.mgr = Pothos::BufferManager::make(name, args, alloc);
    else { w.mgr = Pothos::BufferManager::make(name); PBT_CHECK(!w.mgr->isInitialized(), "initialized early"); w.mgr->setAllocateFunction(alloc); w.mgr->init(args); }
    PBT_CHECK(w.mgr->isInitialized(), "not initialized");
    PBT_CHECK(throws<Pothos::BufferManagerFactoryError>([&](void) { w.mgr->init(args); }), "second init accepted");
    // deferred return through the callback, as an actor does it
    const bool deferred = s.flip();
    if (deferred) w.mgr->setCallback([&](const ManagedBuffer &b) { queue.push_back(b); });
    auto drain = [&](void) { while (!queue.empty()) { auto b = queue.front(); queue.pop_front(); if (w.mgr) w.mgr->push(b); } };
    c.desc << name << " " << args.numBuffers << "x" << args.bufferSize << (deferred ? " deferred " : " direct ");
    size_t nextSlab = 0, laps = 0, outOfOrder = 0; bool fresh = true; uint8_t fill = 1;
    const size_t nops = size_t(s.small(1, 100));
    bool dead = false;
    for (size_t k = 0; k < nops; k++)
    {
        switch (s.weighted({6, 3, 4, 2, 2, 1, 1}))
        {
        case 0: // hand out
            {
                if (dead || w.mgr->empty()) break;
                BufferChunk b = w.mgr->front();
                const size_t slab = b.getManagedBuffer().getSlabIndex();
                PBT_CHECK(slab == nextSlab, "buffer " << slab << " offered, want " << nextSlab << " (hand-out order)");
                PBT_CHECK(b.getManagedBuffer().getBufferManager() == w.mgr, "buffer does not name its manager");
                if (fresh) PBT_CHECK(b.length == args.bufferSize, "fresh buffer of " << b.length << " bytes");
                const size_t n = s.flip() ? b.length : size_t(s.range(1, b.length));
                const size_t whole = b.length;
                b.length = n;
                Held h; h.addr = b.address; h.len = n; h.slab = slab; fill++;
                for (size_t i = 0; i < n; i++) { b.as<uint8_t *>()[i] = uint8_t(fill + i); h.want.push_back(uint8_t(fill + i)); }
                h.chunks.push_back(b);
                w.held.push_back(h);
                b = BufferChunk();
                c.desc << "pop(" << n << "/" << whole << ") ";
                w.mgr->pop(n);
                // the rest of the same buffer may be offered again, or the next one
                const bool same = !w.mgr->empty() && w.mgr->front().getManagedBuffer() == w.held.back().chunks.back().getManagedBuffer() && w.mgr->front().address == h.addr + n;
                if (same && n < whole) fresh = false;
                else { nextSlab = (nextSlab + 1) % args.numBuffers; fresh = true; if (nextSlab == 0) laps++; }
            } break;
        case 1: // copy a reference
            {
                if (w.held.empty()) break;
                auto &h = w.held[s.draw(w.held.size() - 1)];
                c.desc << "copy ";
                if (h.chunks.size() && s.flip()) { if (s.flip()) { auto x = h.chunks[0]; h.chunks.push_back(x); } else { BufferChunk x; x = h.chunks[0]; h.chunks.push_back(std::move(x)); } }
                else { ManagedBuffer m = h.chunks.size() ? h.chunks[0].getManagedBuffer() : h.mbs[0]; h.mbs.push_back(m); }
            } break;
        case 2: // drop one reference
            {
                if (w.held.empty()) break;
                const size_t i = size_t(s.draw(w.held.size() - 1));
                auto &h = w.held[i];
                if (i != 0) outOfOrder++;
                c.desc << "drop#" << i << " ";
                if (h.mbs.size() && (h.chunks.empty() || s.flip())) { if (s.flip()) h.mbs.back().reset(); h.mbs.pop_back(); }
                else { if (s.flip()) h.chunks.back().clear(); h.chunks.pop_back(); }
                if (h.refs() == 0) w.held.erase(w.held.begin() + i);
            } break;
        case 3: // move or self-assign
            {
                if (w.held.empty()) break;
                auto &h = w.held[s.draw(w.held.size() - 1)];
                if (h.chunks.size())
                {
                    if (s.flip()) { c.desc << "move "; BufferChunk x(std::move(h.chunks[0])); PBT_CHECK(!bool(h.chunks[0]), "moved-from chunk still holds a buffer"); h.chunks[0] = std::move(x); }
                    else { c.desc << "self "; auto &x = h.chunks[0]; auto &y = h.chunks[0]; x = y; }
                }
                else
                {
                    if (s.flip()) { c.desc << "movem "; ManagedBuffer x(std::move(h.mbs[0])); PBT_CHECK(!bool(h.mbs[0]), "moved-from buffer still refers"); h.mbs[0] = std::move(x); }
                    else { c.desc << "selfm "; auto &x = h.mbs[0]; auto &y = h.mbs[0]; x = y; }
                }
            } break;
        case 4: c.desc << "drain "; drain(); break;
        case 5: // use counts
            {
                if (w.held.empty()) break;
                auto &h = w.held[s.draw(w.held.size() - 1)];
                size_t refs = 0;
                for (auto &o : w.held) if (o.slab == h.slab) refs += o.refs();
                const size_t uc = h.chunks.size() ? h.chunks[0].useCount() : h.mbs[0].useCount();
                const bool un = h.chunks.size() ? h.chunks[0].unique() : h.mbs[0].unique();
                const bool offered = !dead && !w.mgr->empty() && w.mgr->front().getManagedBuffer().getSlabIndex() == h.slab;
                if (!offered) { PBT_CHECK(uc == refs, "use count " << uc << " want " << refs); PBT_CHECK(un == (refs == 1), "unique"); }
                else PBT_CHECK(uc > refs && !un, "buffer is offered again but reported unique");
            } break;
        default: // destroy the manager while references exist
            if (!dead && s.chance(1, 8))
            {
                c.desc << "~manager "; drain();
                w.mgr.reset(); dead = true; c.tag("manager-destroyed-first");
            } break;
        }
        w.verify("after step");
        if (dead && w.held.size()) PBT_CHECK(!watch.expired(), "storage released while buffers are referenced");
    }
    w.verify("before the end");
    // drop the rest in a generated order
    while (!w.held.empty()) { const size_t i = size_t(s.draw(w.held.size() - 1)); w.held.erase(w.held.begin() + i); if (s.chance(1, 4)) drain(); w.verify("dropping"); }
    drain();
    if (!dead)
    {
        std::vector<BufferChunk> all;
        for (size_t i = 0; i < args.numBuffers; i++)
        {
            PBT_CHECK(!w.mgr->empty(), "only " << i << " of " << args.numBuffers << " buffers are available after all references were dropped");
            auto b = w.mgr->front();
            PBT_CHECK(b.getManagedBuffer().getSlabIndex() == (nextSlab + i) % args.numBuffers, "buffers came back out of order");
            for (auto &o : all) PBT_CHECK(!w.overlap(o.address, o.length, b.address, b.length), "two available buffers overlap");
            all.push_back(b); w.mgr->pop(b.length);
        }
        PBT_CHECK(w.mgr->empty(), "more buffers than were made");
        all.clear(); drain();
        w.mgr->setCallback(nullptr);
        w.mgr.reset();
    }
    queue.clear();
    PBT_CHECK(watch.expired(), "storage not released at the end");
    c.nontrivial = laps > 0 || outOfOrder > 1;
    if (laps) c.tag("all-buffers-used");
    if (outOfOrder) c.tag("out-of-order-drop");
    c.tag(name);
}

// consumers drop references on their own threads
static void managersThreaded(Case &c)
{
    auto &s = c.s;
    Pothos::BufferManagerArgs args;
    args.numBuffers = size_t(s.range(2, 6)); args.bufferSize = size_t(s.pick<size_t>({64, 512, 4096}));
    const bool circ = s.flip();
    const size_t nt = size_t(s.range(1, 3)), rounds = size_t(s.range(20, 300));
    std::vector<size_t> sizes; for (size_t i = 0; i < 8; i++) sizes.push_back(size_t(s.range(1, args.bufferSize)));
    c.desc << (circ ? "circular " : "generic ") << args.numBuffers << "x" << args.bufferSize << " consumers " << nt << " rounds " << rounds;
    auto mgr = Pothos::BufferManager::make(circ ? "circular" : "generic", args);
    std::mutex m; std::deque<ManagedBuffer> back;
    mgr->setCallback([&](const ManagedBuffer &b) { std::lock_guard<std::mutex> l(m); back.push_back(b); });
    struct Q { std::mutex m; std::deque<std::pair<BufferChunk, uint8_t>> q; };
    std::vector<Q> qs(nt); std::atomic<bool> done(false); std::atomic<int> bad(0);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++) ts.emplace_back([&, t](void)
    {
        while (true)
        {
            std::pair<BufferChunk, uint8_t> x; bool got = false; const bool fin = done;
            { std::lock_guard<std::mutex> l(qs[t].m); if (!qs[t].q.empty()) { x = std::move(qs[t].q.front()); qs[t].q.pop_front(); got = true; } }
            if (!got) { if (fin) break; std::this_thread::yield(); continue; }
            BufferChunk y = x.first; x.first = BufferChunk();
            for (size_t i = 0; i < y.length; i++) if (y.as<const uint8_t *>()[i] != uint8_t(x.second + i)) bad = 1;
            ManagedBuffer mb = y.getManagedBuffer(); y.clear();
            if (x.second & 1) std::this_thread::yield();
        }
    });
    auto drain = [&](void) { std::deque<ManagedBuffer> q; { std::lock_guard<std::mutex> l(m); q.swap(back); } while (!q.empty()) { mgr->push(q.front()); q.pop_front(); } };
    size_t made = 0;
    const double end = nowS() + 50;
    while (made < rounds && nowS() < end)
    {
        drain();
        if (mgr->empty()) { std::this_thread::yield(); continue; }
        BufferChunk b = mgr->front();
        b.length = std::min(b.length, sizes[made % 8]);
        for (size_t i = 0; i < b.length; i++) b.as<uint8_t *>()[i] = uint8_t(made + i);
        for (auto &q : qs) { std::lock_guard<std::mutex> l(q.m); q.q.emplace_back(b, uint8_t(made)); }
        const size_t n = b.length; b = BufferChunk();
        mgr->pop(n);
        made++;
    }
    done = true;
    for (auto &t : ts) t.join();
    if (made < rounds) throw Fail("buffers never came back", true);
    PBT_CHECK(bad == 0, "a consumer saw bytes change while it held the buffer");
    drain();
    std::vector<BufferChunk> all;
    for (size_t i = 0; i < args.numBuffers; i++) { PBT_CHECK(!mgr->empty(), "only " << i << " buffers came back"); all.push_back(mgr->front()); mgr->pop(mgr->front().length); }
    PBT_CHECK(mgr->empty(), "too many buffers");
    all.clear(); drain(); mgr->setCallback(nullptr);
    c.nontrivial = made > args.numBuffers;
}

static void pool(Case &c)
{
    auto &s = c.s;
    Pothos::BufferPool p;
    struct H { BufferChunk b; uint8_t v; };
    std::vector<H> held; uint8_t v = 1; size_t reused = 0; std::set<size_t> seen;
    const size_t nops = size_t(s.small(1, 60));
    for (size_t k = 0; k < nops; k++)
    {
        switch (s.weighted({5, 4, 1}))
        {
        case 0:
            {
                const size_t n = s.flip() ? size_t(s.small(1, 40000)) : size_t(s.range(8190, 8194));
                c.desc << "get(" << n << ") ";
                BufferChunk b = p.get(n);
                PBT_CHECK(bool(b) && b.length >= n && b.getBuffer().getLength() >= b.length, "pool gave " << b.length << " bytes for " << n);
                for (auto &h : held) PBT_CHECK(b.getEnd() <= h.b.address || h.b.getEnd() <= b.address, "pool reused a referenced buffer");
                if (!seen.insert(b.address).second) reused++;
                std::memset(b.as<void *>(), v, b.length);
                if (s.chance(3, 4)) held.push_back({b, v});
                v++;
            } break;
        case 1: if (!held.empty()) { c.desc << "drop "; held.erase(held.begin() + s.draw(held.size() - 1)); } break;
        default: if (s.chance(1, 3)) { c.desc << "clear "; p.clear(); } break;
        }
        for (auto &h : held) PBT_CHECK(h.b.as<uint8_t *>()[0] == h.v && h.b.as<uint8_t *>()[h.b.length - 1] == h.v, "content of a held pool buffer changed");
    }
    c.nontrivial = held.size() > 1 && reused > 0;
    if (reused) c.tag("reused");
}

PBT_MAIN("C11", {{"managers", 40, managers}, {"managers_threaded", 1, managersThreaded, true}, {"pool", 10, pool}})
