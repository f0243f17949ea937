// C10: BufferAccumulator against an ideal byte queue.
#include "common.hpp"
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <deque>
using namespace pbt;
using Pothos::BufferChunk; using Pothos::SharedBuffer; using Pothos::ManagedBuffer;

struct Acc
{
    Pothos::BufferAccumulator acc;
    std::deque<uint8_t> model;

    void verify(const char *where, bool full)
    {
        PBT_CHECK(acc.getTotalBytesAvailable() == model.size(), where << ": total " << acc.getTotalBytesAvailable() << " want " << model.size());
        PBT_CHECK(acc.empty() == model.empty(), where << ": empty");
        const auto &f = acc.front();
        PBT_CHECK(f.length <= model.size(), where << ": front shows " << f.length << " of " << model.size() << " bytes");
        if (!model.empty()) PBT_CHECK(f.length > 0, where << ": front is empty but " << model.size() << " bytes are queued");
        const auto p = f.as<const uint8_t *>();
        for (size_t i = 0; i < f.length; i++) PBT_CHECK(p[i] == model[i], where << ": byte " << i << " of the front is " << int(p[i]) << " want " << int(model[i]));
    }
    void push(BufferChunk b)
    {
        const auto p = b.as<const uint8_t *>();
        model.insert(model.end(), p, p + b.length);
        acc.push(std::move(b));
    }
    void pop(size_t n) { acc.pop(n); model.erase(model.begin(), model.begin() + n); }
};

struct Rand { uint64_t x; explicit Rand(uint64_t s): x(s * 2 + 1) {} uint8_t next(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return uint8_t(x >> 24); } };

static size_t amount(Src &s, size_t max)
{
    if (max == 0) return 0;
    switch (s.draw(3)) { case 0: return size_t(s.small(1, max)); case 1: return max; case 2: return size_t(s.range(1, max)); default: return std::max<size_t>(1, max - size_t(s.small(0, max - 1))); }
}

// arbitrary chunks: separate allocations, adjacent or overlapping-free slices of slabs, in any order
static void chunks(Case &c)
{
    auto &s = c.s;
    Acc a; Rand rnd(s.draw(0xffff));
    struct Region { SharedBuffer slab; ManagedBuffer mb; size_t used; std::weak_ptr<void> watch; };
    std::vector<Region> regions;
    std::vector<std::weak_ptr<void>> watched;
    const size_t nops = size_t(s.small(1, 60));
    size_t pushes = 0, requires_ = 0, joined = 0, pool = 0;
    const size_t scale = size_t(s.pick<size_t>({40, 400, 6000, 12000}));
    for (size_t k = 0; k < nops; k++)
    {
        switch (s.weighted({5, 5, 3, 1}))
        {
        case 0:
            {
                // pick a slab (or a new one) and take the next, or a later, slice of it
                size_t i = size_t(s.draw(regions.size()));
                if (i >= regions.size())
                {
                    Region r; const size_t n = size_t(s.small(1, scale * 2));
                    r.slab = SharedBuffer::make(n); r.used = 0; r.watch = r.slab.getContainer();
                    for (size_t b = 0; b < n; b++) ((uint8_t *)r.slab.getAddress())[b] = rnd.next();
                    r.mb = ManagedBuffer(r.slab);
                    watched.push_back(r.watch);
                    regions.push_back(r);
                }
                auto &r = regions[i];
                if (r.used >= r.slab.getLength()) { r.slab = SharedBuffer(); r.mb = ManagedBuffer(); regions.erase(regions.begin() + i); break; }
                const size_t skip = s.chance(1, 3) ? size_t(s.small(0, r.slab.getLength() - r.used - 1)) : 0;
                r.used += skip;
                const size_t len = amount(s, r.slab.getLength() - r.used);
                BufferChunk b;
                switch (s.draw(2))
                {
                case 0: b = BufferChunk(r.mb); b.address += r.used; b.length = len; break; // slice sharing the managed buffer
                case 1: b = BufferChunk(SharedBuffer(r.slab.getAddress() + r.used, len, r.slab)); break; // own sub-buffer
                default: b = BufferChunk(r.slab); b.address += r.used; b.length = len; break;
                }
                c.desc << "push(slab" << i << "+" << r.used << "," << len << ") ";
                r.used += len;
                const size_t before = a.acc.front().length;
                a.push(std::move(b));
                if (before && a.acc.front().length > before) joined++;
                pushes++;
                if (s.chance(1, 5)) { c.desc << "drop "; regions.erase(regions.begin() + i); }
            } break;
        case 1:
            {
                const size_t n = amount(s, a.acc.front().length);
                if (n == 0) break;
                c.desc << "pop(" << n << ") ";
                a.pop(n);
            } break;
        case 2:
            {
                const size_t n = size_t(s.weighted({3, 1}) == 0 ? amount(s, std::max<size_t>(1, a.model.size())) : s.small(1, scale * 3));
                c.desc << "require(" << n << ") ";
                if (a.acc.front().length < n && a.model.size() >= n) pool++;
                a.acc.require(n); requires_++;
                a.verify("require", true);
                if (a.model.size() >= n) PBT_CHECK(a.acc.front().length >= n, "after require(" << n << ") the front shows " << a.acc.front().length << " of " << a.model.size() << " bytes");
            } break;
        default:
            if (s.chance(1, 6)) { c.desc << "clear "; a.acc.clear(); a.model.clear(); }
            break;
        }
        a.verify("after step", true);
        if (a.model.empty())
        {
            // everything popped: nothing the caller pushed may still be held
            for (auto &w : watched)
            {
                auto p = w.lock();
                if (!p) continue;
                bool mine = false; long refs = 0;
                for (auto &r : regions) if (r.slab.getContainer() == p) { mine = true; refs = 2; }
                PBT_CHECK(mine, "a consumed buffer is still held although the queue is empty");
                PBT_CHECK(p.use_count() - 1 == refs, "a consumed buffer has " << p.use_count() - 1 - refs << " extra references");
            }
        }
    }
    while (!a.model.empty()) { a.pop(a.acc.front().length); a.verify("drain", true); }
    regions.clear();
    for (auto &w : watched) PBT_CHECK(w.expired(), "a buffer is still held after the queue was drained");
    c.nontrivial = pushes > 1 && (pool > 0 || joined > 0);
    if (pool) c.tag("copied-together");
    if (joined) c.tag("joined");
}

// a manager's stream: produce through front()/pop(), consume through one or two accumulators
static void stream(Case &c)
{
    auto &s = c.s;
    Pothos::BufferManagerArgs args;
    args.numBuffers = size_t(s.range(1, 5));
    args.bufferSize = size_t(s.pick<size_t>({16, 64, 1000, 4096, 8192}));
    const bool circ = s.flip();
    if (circ && args.bufferSize < 1000) args.bufferSize = 4096 / args.numBuffers;
    auto mgr = Pothos::BufferManager::make(circ ? "circular" : "generic", args);
    const size_t na = size_t(s.range(1, 2));
    std::vector<std::unique_ptr<Acc>> accs;
    for (size_t i = 0; i < na; i++) accs.emplace_back(new Acc());
    std::unique_ptr<Acc> down; // gets whole front buffers of accs[0] handed on, as a forwarding block does
    if (s.chance(1, 3)) down.reset(new Acc());
    c.desc << (circ ? "circular " : "generic ") << args.numBuffers << "x" << args.bufferSize << " consumers " << na << (down ? " + forward " : " ");
    Rand rnd(s.draw(0xffff));
    size_t produced = 0, wraps = 0, pool = 0, stalls = 0;
    const size_t nops = size_t(s.small(1, 120));
    for (size_t k = 0; k < nops; k++)
    {
        switch (s.weighted({5, 5, 2, 2}))
        {
        case 0:
            {
                if (mgr->empty()) { stalls++; break; }
                BufferChunk b = mgr->front();
                PBT_CHECK(b.length > 0 && bool(b), "manager offers an empty buffer");
                const size_t n = amount(s, b.length);
                b.length = n;
                for (size_t i = 0; i < n; i++) b.as<uint8_t *>()[i] = rnd.next();
                for (auto &a : accs) a->push(b);
                mgr->pop(n);
                c.desc << "produce(" << n << ") ";
                produced += n; if (produced > args.numBuffers * args.bufferSize) wraps++;
            } break;
        case 1:
            {
                auto &a = *accs[s.draw(na - 1)];
                const size_t n = amount(s, a.acc.front().length);
                if (n == 0) break;
                c.desc << "pop(" << n << ") ";
                a.pop(n);
            } break;
        case 2:
            {
                auto &a = *accs[s.draw(na - 1)];
                const size_t n = s.flip() ? amount(s, std::max<size_t>(1, a.model.size())) : size_t(s.small(1, args.bufferSize * 2));
                c.desc << "require(" << n << ") ";
                if (a.acc.front().length < n && a.model.size() >= n) pool++;
                a.acc.require(n);
                if (a.model.size() >= n) PBT_CHECK(a.acc.front().length >= n, "after require(" << n << ") the front shows " << a.acc.front().length << " of " << a.model.size());
            } break;
        default:
            if (down)
            {
                if (s.flip() && accs[0]->acc.front().length)
                {
                    BufferChunk b = accs[0]->acc.front();
                    const size_t n = amount(s, b.length);
                    b.length = n;
                    c.desc << "forward(" << n << ") ";
                    down->push(b);
                    accs[0]->pop(n);
                }
                else if (down->acc.front().length)
                {
                    const size_t n = amount(s, down->acc.front().length);
                    c.desc << "popd(" << n << ") ";
                    down->pop(n);
                }
            } break;
        }
        for (auto &a : accs) a->verify("after step", true);
        if (down) down->verify("forwarded", true);
        bool idle = !down || down->model.empty();
        for (auto &a : accs) idle = idle && a->model.empty();
        if (idle) PBT_CHECK(!mgr->empty(), "every byte was consumed but the manager has no buffer to offer");
    }
    for (auto &a : accs) while (!a->model.empty()) { a->pop(a->acc.front().length); a->verify("drain", true); }
    if (down) while (!down->model.empty()) { down->pop(down->acc.front().length); down->verify("drain", true); }
    // all buffers are back: the manager can hand out every one of them again
    std::vector<BufferChunk> all;
    for (size_t i = 0; i < args.numBuffers; i++)
    {
        PBT_CHECK(!mgr->empty(), "only " << i << " of " << args.numBuffers << " buffers came back");
        all.push_back(mgr->front()); mgr->pop(mgr->front().length);
    }
    PBT_CHECK(mgr->empty(), "more buffers than were made");
    accs.clear(); down.reset(); all.clear();
    c.nontrivial = produced > args.bufferSize;
    if (wraps) c.tag("wrapped-around");
    if (pool) c.tag("copied-together");
    if (stalls) c.tag("out-of-buffers");
    c.tag(circ ? "circular" : "generic");
    if (down) c.tag("forwarded");
}

PBT_MAIN("C10", {{"chunks", 1, chunks}, {"stream", 2, stream}})
