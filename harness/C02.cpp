// C02: stream labels stay attached to their element, in order, exactly once.
#include "flow.hpp"
using namespace flow;

static void graphs(Case &c)
{
    GraphOpts opt; opt.labels = true; opt.maxElements = 1500;
    runGraph(c, opt);
}

// a chain whose ends view the stream with different element sizes
struct Mark { uint64_t index; size_t width; int no; };
struct Hop { size_t inSize = 0, outSize = 0, nextSize = 1; size_t chunk = 100, reserve = 0; uint64_t seed = 1; uint64_t inTotal = 0, outTotal = 0; std::vector<Mark> seen; bool specified = false; int mode = 0; };

class RatioBlock : public Pothos::Block
{
public:
    RatioBlock(Shared &sh, const std::string &name, const Hop &h, uint64_t id): shared(sh), h(h), id(id), rng(h.seed), expect(h.seen)
    {
        this->setName(name);
        if (h.inSize) { this->setupInput(0, Pothos::DType("uint8", h.inSize)); this->input(0)->setReserve(size_t(std::min<uint64_t>(h.reserve, h.inTotal))); }
        if (h.outSize) this->setupOutput(0, Pothos::DType("uint8", h.outSize));
    }
    void work(void)
    {
        if (shared.failed) return;
        const std::string where = this->getName();
        uint64_t total = h.inSize ? h.inTotal : h.outTotal;
        uint64_t avail = total - pos;
        if (h.inSize)
        {
            auto in = this->input(0);
            if (in->elements() > avail) FLOW_FAIL(where << ": more elements than were sent");
            avail = in->elements();
            const size_t bad = badByte(in->buffer().as<const uint8_t *>(), id - 1, pos * h.inSize, 0, avail * h.inSize);
            if (bad != avail * h.inSize) FLOW_FAIL(where << ": wrong byte at " << pos * h.inSize + bad);
            size_t n = next; uint64_t last = 0;
            for (const auto &lab : in->labels())
            {
                const uint64_t at = pos + lab.index;
                if (n >= expect.size()) FLOW_FAIL(where << ": surplus label " << lab.id << " at " << at);
                if (at < last) FLOW_FAIL(where << ": labels out of order");
                last = at;
                size_t k = n; while (k < expect.size() && expect[k].index == expect[n].index && lab.id != "L" + std::to_string(expect[k].no)) k++;
                if (k >= expect.size() || expect[k].index != expect[n].index) FLOW_FAIL(where << ": label " << lab.id << " at " << at << ", want L" << expect[n].no << " at " << expect[n].index);
                std::swap(expect[n], expect[k]);
                if (at != expect[n].index) FLOW_FAIL(where << ": label " << lab.id << " at " << at << ", want " << expect[n].index);
                if (lab.width != expect[n].width) FLOW_FAIL(where << ": label " << lab.id << " width " << lab.width << ", want " << expect[n].width);
                n++;
            }
            for (size_t i = n; i < expect.size(); i++) if (expect[i].index < pos + avail) FLOW_FAIL(where << ": label L" << expect[i].no << " of element " << expect[i].index << " is not visible with its element");
            if (avail < std::min<uint64_t>(h.reserve, total - pos)) avail = 0;
        }
        if (done) return;
        uint64_t k = std::min<uint64_t>(avail, h.chunk);
        if (h.outSize && h.mode == 0) k = std::min<uint64_t>(k, this->output(0)->elements());
        if (k > 1 && rng.chance(1, 2)) k = 1 + rng.upTo(k - 1);
        if (k > 0)
        {
            if (h.outSize)
            {
                auto out = this->output(0);
                if (!h.inSize) while (next < expect.size() && expect[next].index < pos + k)
                {
                    out->postLabel("L" + std::to_string(expect[next].no), expect[next].no, expect[next].index - pos, expect[next].width);
                    next++;
                }
                // the buffer carries a type of the consumer's size, so the consumer may have another element size
                for (uint64_t off = 0; off < k;)
                {
                    const uint64_t n = rng.chance(1, 3) ? 1 + rng.upTo(k - off - 1) : k - off;
                    Pothos::BufferChunk b(size_t(n * h.outSize)); b.dtype = Pothos::DType("uint8", h.nextSize);
                    fillBytes(b.as<uint8_t *>(), id, (pos + off) * h.outSize, 0, size_t(n * h.outSize));
                    out->postBuffer(std::move(b)); off += n;
                }
            }
            if (h.inSize) { this->input(0)->consume(k); while (next < expect.size() && expect[next].index < pos + k) next++; }
            pos += k;
            if (h.inSize) this->input(0)->setReserve(size_t(std::min<uint64_t>(h.reserve, total - pos)));
        }
        if (pos == total) { done = true; shared.finished(); }
        else if (!h.inSize || avail > k) this->yield();
    }
    Shared &shared; Hop h; uint64_t id; Rng rng; std::vector<Mark> expect; size_t next = 0; uint64_t pos = 0; bool done = false;
};

static void ratio(Case &c)
{
    auto &s = c.s; quietLogs();
    const size_t n = size_t(s.range(2, 5));
    std::vector<Hop> hops(n);
    static const std::vector<size_t> sizes = {1, 2, 3, 4, 6, 8, 12};
    uint64_t units = uint64_t(s.small(1, 120));
    const size_t first = s.pick(sizes);
    hops[0].outSize = first; hops[0].outTotal = units * 24 / first;
    if (hops[0].outTotal * first != units * 24) hops[0].outTotal = units * 24; // keep whole elements for every view
    std::vector<Mark> marks;
    const size_t nm = size_t(s.small(0, 30));
    for (size_t i = 0; i < nm; i++) marks.push_back({uint64_t(s.range(0, hops[0].outTotal - 1)), size_t(s.small(1, 40)), int(i)});
    auto bySpot = [](const Mark &a, const Mark &b) { return a.index < b.index; };
    std::stable_sort(marks.begin(), marks.end(), bySpot);
    hops[0].seen = marks;
    bool differ = false;
    for (size_t i = 0; i < n; i++)
    {
        hops[i].chunk = size_t(s.small(1, 300)); hops[i].seed = uint64_t(s.range(1, 100000)); hops[i].reserve = s.chance(1, 3) ? size_t(s.small(1, 40)) : 0; hops[i].mode = 1;
        if (i == 0) continue;
        const auto &prev = hops[i - 1];
        const uint64_t bytes = prev.outTotal * prev.outSize;
        size_t in = s.pick(sizes); while (bytes % in) in = 1;
        if (in != prev.outSize) differ = true;
        hops[i].inSize = in; hops[i - 1].nextSize = in; hops[i].inTotal = bytes / in;
        for (auto &m : marks) { m.index = m.index * prev.outSize / in; m.width = m.width * prev.outSize / in; }
        std::stable_sort(marks.begin(), marks.end(), bySpot);
        hops[i].seen = marks;
        if (i + 1 < n) { hops[i].outSize = s.pick(sizes); hops[i].outTotal = hops[i].inTotal; }
    }
    c.desc << n << " blocks, " << nm << " labels:";
    for (auto &h : hops) c.desc << " [" << h.inSize << "->" << h.outSize << " chunk=" << h.chunk << " reserve=" << h.reserve << "]";
    for (auto &m : hops[0].seen) c.desc << " L" << m.no << "@" << m.index << "w" << m.width;
    Shared sh; std::vector<std::shared_ptr<RatioBlock>> blocks;
    Pothos::Topology t;
    if (s.flip()) t.setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(size_t(s.range(1, 3)))));
    for (size_t i = 0; i < n; i++) blocks.emplace_back(new RatioBlock(sh, "b" + std::to_string(i), hops[i], 7 + i));
    for (size_t i = 1; i < n; i++) t.connect(blocks[i - 1], 0, blocks[i], 0);
    t.commit();
    const auto e = sh.wait(n, LIMIT);
    if (e == "timeout") pbt::fail("produced data was not consumed", true);
    if (!e.empty()) pbt::fail(e);
    t.disconnectAll(); t.commit();
    if (!sh.error.empty()) pbt::fail(sh.error);
    if (differ) c.tag("sizes-differ");
    c.nontrivial = differ && nm > 2;
}

// Label arithmetic and order on its own
static void arithmetic(Case &c)
{
    auto &s = c.s;
    const uint64_t i = uint64_t(s.small(0, 1000000)); const size_t w = size_t(s.small(0, 100000));
    const size_t m = size_t(s.small(1, 64)), d = size_t(s.small(1, 64));
    const int v = int(s.range(0, 1000));
    c.desc << "Label(x," << v << "," << i << "," << w << ") *" << m << "/" << d;
    const Pothos::Label a("x", v, i, w);
    PBT_CHECK(a.index == i && a.width == w && a.id == "x" && a.data.extract<int>() == v, "constructor");
    const auto b = a.toAdjusted(m, d);
    PBT_CHECK(b.index == i * m / d && b.width == w * m / d, "toAdjusted gives " << b.index << "," << b.width);
    PBT_CHECK(b.id == "x" && b.data.extract<int>() == v && a.index == i && a.width == w, "toAdjusted changed something else");
    auto back = a.toAdjusted(m, 1).toAdjusted(1, m);
    PBT_CHECK(back.index == i && back.width == w && back == a, "elements to bytes and back");
    const uint64_t j = uint64_t(s.small(0, 1000000));
    PBT_CHECK((a < Pothos::Label("y", v, j)) == (i < j), "order by index");
    PBT_CHECK(!(a == Pothos::Label("y", v, i, w)) && !(a == Pothos::Label("x", v, i + 1, w)) && !(a == Pothos::Label("x", v, i, w + 1)), "equality ignores a field");
    c.nontrivial = m > 1 && d > 1;
}

PBT_MAIN("C02", {{"graphs", 4, graphs, true}, {"ratio", 3, ratio, true}, {"arithmetic", 1, arithmetic}})
