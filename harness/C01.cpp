// C01: stream data arrives complete, in order and unaltered.
#include "flow.hpp"
using namespace flow;

static void graphs(Case &c) { runGraph(c, GraphOpts()); }

// several producers into one input: every producer's elements arrive in its order
class TagSource : public Pothos::Block
{
public:
    TagSource(Shared &sh, size_t id, size_t total, size_t chunk, uint64_t seed): shared(sh), id(id), total(total), chunk(chunk), rng(seed) { this->setupOutput(0, typeid(uint64_t)); }
    void work(void)
    {
        if (pos == total) return;
        auto out = this->output(0);
        size_t k = std::min({out->elements(), total - pos, chunk});
        if (k > 1) k = 1 + rng.upTo(k - 1);
        for (size_t i = 0; i < k; i++) out->buffer().as<uint64_t *>()[i] = (uint64_t(id) << 40) | pos++;
        out->produce(k);
        if (pos != total) this->yield(); else shared.finished();
    }
    Shared &shared; size_t id, total, chunk, pos = 0; Rng rng;
};
class MergeSink : public Pothos::Block
{
public:
    MergeSink(Shared &sh, std::vector<size_t> totals, size_t chunk, size_t reserve, uint64_t seed): shared(sh), totals(totals), next(totals.size()), chunk(chunk), reserve(reserve), rng(seed)
    {
        this->setupInput(0, typeid(uint64_t)); for (auto t : totals) all += t; this->input(0)->setReserve(std::min(reserve, all));
    }
    void work(void)
    {
        auto in = this->input(0);
        if (in->elements() > all - got) FLOW_FAIL("merge: more elements than were produced");
        size_t k = std::min(in->elements(), chunk);
        if (k == 0) return;
        if (k > 1) k = 1 + rng.upTo(k - 1);
        for (size_t i = 0; i < k; i++)
        {
            const uint64_t v = in->buffer().as<const uint64_t *>()[i];
            const size_t id = size_t(v >> 40), idx = size_t(v & ((1ull << 40) - 1));
            if (id >= next.size() || idx != next[id]) FLOW_FAIL("merge: producer " << id << " element " << idx << ", want " << (id < next.size() ? next[id] : 0));
            next[id]++;
        }
        got += k; in->consume(k); in->setReserve(std::min(reserve, all - got));
        if (got == all) shared.finished();
        else this->yield();
    }
    Shared &shared; std::vector<size_t> totals, next; size_t chunk, reserve, all = 0, got = 0; Rng rng;
};
static void merge(Case &c)
{
    auto &s = c.s;
    quietLogs();
    Shared sh;
    const size_t n = size_t(s.range(1, 5));
    std::vector<size_t> totals; for (size_t i = 0; i < n; i++) totals.push_back(size_t(s.small(1, 6000)));
    std::vector<std::shared_ptr<TagSource>> src;
    auto sink = std::make_shared<MergeSink>(sh, totals, size_t(s.small(1, 3000)), size_t(s.small(0, 300)), uint64_t(s.range(1, 100000)));
    Pothos::Topology t;
    if (s.flip()) t.setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(size_t(s.range(1, 4)))));
    c.desc << n << " producers:";
    for (size_t i = 0; i < n; i++)
    {
        src.push_back(std::make_shared<TagSource>(sh, i, totals[i], size_t(s.small(1, 2000)), uint64_t(s.range(1, 100000))));
        c.desc << " " << totals[i];
        t.connect(src[i], 0, sink, 0);
    }
    t.commit();
    const auto e = sh.wait(n + 1, LIMIT);
    if (e == "timeout") pbt::fail("merge: produced data was not consumed: " + std::to_string(sink->got) + " of " + std::to_string(sink->all), true);
    if (!e.empty()) pbt::fail(e);
    t.disconnectAll(); t.commit();
    if (!sh.error.empty()) pbt::fail(sh.error);
    userrace::check("stream memory");
    c.nontrivial = n > 1;
}

PBT_MAIN("C01", {{"graphs", 6, graphs, true}, {"merge", 1, merge, true}})
