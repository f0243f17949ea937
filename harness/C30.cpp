// C30: port and topology statistics equal what actually happened.
#include "flow.hpp"
#include <json.hpp>
using namespace flow;
using json = nlohmann::json;

static void streams(Case &c)
{
    GraphOpts opt; opt.labels = true; opt.domains = false; opt.maxElements = 1500; // bridges would add ports of their own
    const auto g = genGraph(c, opt);
    const bool poll = c.s.flip();
    Run r;
    r.build(g);
    r.topo->commit();
    std::map<std::string, uint64_t> last; size_t polls = 0;
    auto totals = [&](const json &st)
    {
        std::map<std::string, uint64_t> m;
        for (auto it = st.begin(); it != st.end(); ++it)
        {
            for (const char *dir : {"inputStats", "outputStats"}) if (it.value().count(dir)) for (auto &p : it.value()[dir]) for (const char *k : {"totalElements", "totalBuffers", "totalLabels", "totalMessages"}) m[it.key() + dir + p["portName"].get<std::string>() + k] = p[k].get<uint64_t>();
            m[it.key() + "work"] = it.value()["numWorkCalls"].get<uint64_t>();
        }
        return m;
    };
    std::string e;
    for (;;)
    {
        e = poll ? r.wait(Run::activeLanes(g), 0.004) : r.wait(Run::activeLanes(g), LIMIT);
        if (!poll || e != "timeout" || polls > 3000) break;
        // totals never decrease while running
        const auto m = totals(json::parse(r.topo->queryJSONStats())); polls++;
        for (auto &p : last) PBT_CHECK(m.count(p.first) && m.at(p.first) >= p.second, "the total " << p.first << " went from " << p.second << " to " << (m.count(p.first) ? m.at(p.first) : 0));
        last = m;
    }
    if (e == "timeout") pbt::fail("produced data was not consumed: " + r.progress(), true);
    if (!e.empty()) pbt::fail(e);
    std::vector<uint64_t> before; for (auto &b : r.blocks) before.push_back(b->workCalls);
    const auto st = json::parse(r.topo->queryJSONStats());
    if (!r.shared.error.empty()) pbt::fail(r.shared.error);
    std::set<size_t> used; for (auto &ed : g.edges) { used.insert(ed.srcBlock); used.insert(ed.dstBlock); }
    PBT_CHECK(st.size() == used.size(), "statistics for " << st.size() << " blocks, the graph has " << used.size());
    uint64_t checked = 0;
    for (auto bi : used)
    {
        auto &b = *r.blocks[bi]; const std::string where = b.getName();
        PBT_CHECK(st.count(b.uid()), "no statistics for " << where);
        const auto &bs = st[b.uid()];
        PBT_CHECK(bs["blockName"] == where, "block name " << bs["blockName"]);
        const uint64_t wc = bs["numWorkCalls"].get<uint64_t>();
        PBT_CHECK(wc >= before[bi] && wc <= b.workCalls, where << ": numWorkCalls " << wc << ", but work was called " << b.workCalls << " times");
        PBT_CHECK(bs["numTaskCalls"].get<uint64_t>() >= wc, where << ": fewer task calls than work calls");
        std::map<std::string, json> in, out;
        if (bs.count("inputStats")) for (auto &p : bs["inputStats"]) in[p["portName"].get<std::string>()] = p;
        if (bs.count("outputStats")) for (auto &p : bs["outputStats"]) out[p["portName"].get<std::string>()] = p;
        PBT_CHECK(in.size() == b.inputs().size() && out.size() == b.outputs().size(), where << ": statistics for " << in.size() << " inputs and " << out.size() << " outputs");
        for (auto &l : b.lanes)
        {
            const auto &strm = l.c.stream;
            auto eq = [&](const json &p, const char *k, uint64_t want) { checked++; PBT_CHECK(p[k].get<uint64_t>() == want, where << " port " << p["portName"] << ": " << k << " is " << p[k] << ", really " << want); };
            uint64_t kept = 0;
            for (auto &x : l.expect) if (!l.c.removeMod || x.no % l.c.removeMod != 0) kept++;
            if (l.c.in >= 0)
            {
                const auto &p = in[std::to_string(l.c.in)];
                uint64_t bufs = 0;
                for (auto &ed : g.edges) if (ed.dstBlock == bi && ed.dstPort == l.c.in) for (auto &sl : r.blocks[ed.srcBlock]->lanes) if (sl.buffersPosted.count(ed.srcPort)) bufs += sl.buffersPosted.at(ed.srcPort);
                eq(p, "totalElements", strm.total); eq(p, "totalBuffers", bufs); eq(p, "totalLabels", l.expect.size()); eq(p, "totalMessages", 0);
                eq(p, "enqueuedBytes", 0); eq(p, "frontBytes", 0); eq(p, "enqueuedLabels", 0); eq(p, "enqueuedMessages", 0); eq(p, "dtypeSize", strm.esize); eq(p, "reserveElements", 0);
                PBT_CHECK(Pothos::DType(p["dtypeMarkup"].get<std::string>()) == strm.dtype, where << ": dtype markup " << p["dtypeMarkup"]);
                auto port = b.input(l.c.in);
                PBT_CHECK(port->totalElements() == strm.total && port->totalBuffers() == bufs && port->totalLabels() == l.expect.size() && port->totalMessages() == 0, where << ": totals of the input port itself");
            }
            for (auto &o : l.c.outs)
            {
                const auto &p = out[std::to_string(o.port)];
                eq(p, "totalElements", strm.total); eq(p, "totalBuffers", l.buffersPosted[o.port]); eq(p, "totalLabels", kept); eq(p, "totalMessages", 0); eq(p, "dtypeSize", strm.esize);
                PBT_CHECK(p["tokensEmpty"] == false, where << ": tokensEmpty without any message");
                auto port = b.output(o.port);
                PBT_CHECK(port->totalElements() == strm.total && port->totalBuffers() == l.buffersPosted[o.port] && port->totalLabels() == kept && port->totalMessages() == 0, where << ": totals of the output port itself");
            }
        }
    }
    for (auto &p : last) { const auto m = totals(st); PBT_CHECK(m.count(p.first) && m.at(p.first) >= p.second, "the total " << p.first << " decreased"); }
    if (polls) c.tag("polled-while-running");
    c.count("totals-compared", checked);
    c.nontrivial = checked > 20;
}

// messages: posted, popped, still queued
class MsgSrc : public Pothos::Block
{
public:
    MsgSrc(Shared &sh, uint64_t n, size_t burst): shared(sh), n(n), burst(burst) { this->setupOutput(0); this->registerSignal("sig"); }
    void work(void) { for (size_t k = 0; k < burst && sent < n; k++) { this->output(0)->postMessage(int(sent)); sent++; } if (sent < n) this->yield(); else if (!done) { done = true; shared.finished(); } }
    Shared &shared; uint64_t n, sent = 0; size_t burst; bool done = false;
};
class MsgSink : public Pothos::Block
{
public:
    MsgSink(Shared &sh, uint64_t take): shared(sh), take(take) { this->setupInput(0); }
    void work(void)
    {
        auto in = this->input(0);
        while (in->hasMessage() && got < take)
        {
            if (in->peekMessage().extract<int>() != int(got)) FLOW_FAIL("wrong message");
            in->popMessage(); got++;
        }
        if (got == take && !done) { done = true; shared.finished(); }
    }
    Shared &shared; uint64_t take, got = 0; bool done = false;
};
static void messages(Case &c)
{
    auto &s = c.s; quietLogs();
    Shared sh;
    const uint64_t n = uint64_t(s.small(1, 200)); const size_t sinks = size_t(s.range(1, 3));
    auto src = std::make_shared<MsgSrc>(sh, n, size_t(s.range(1, 30)));
    std::vector<std::shared_ptr<MsgSink>> dst; Pothos::Topology t;
    c.desc << n << " messages; sinks take";
    for (size_t i = 0; i < sinks; i++)
    {
        // a sink that leaves more than the tokens' worth would stop the source
        const uint64_t take = s.flip() ? n : n - std::min<uint64_t>(n - 1, uint64_t(s.range(0, 9)));
        dst.push_back(std::make_shared<MsgSink>(sh, take)); t.connect(src, 0, dst.back(), 0); c.desc << " " << take;
    }
    if (s.flip()) t.setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(size_t(s.range(1, 3)))));
    t.commit();
    const auto e = sh.wait(1 + sinks, LIMIT);
    if (e == "timeout") pbt::fail("messages were not delivered", true);
    if (!e.empty()) pbt::fail(e);
    const auto st = json::parse(t.queryJSONStats());
    const auto &o = st[src->uid()]["outputStats"];
    PBT_CHECK(o.size() == 1 && o[0]["totalMessages"] == n && o[0]["totalElements"] == 0 && src->output(0)->totalMessages() == n, "output statistics " << o.dump() << ", " << n << " messages were posted");
    for (auto &d : dst)
    {
        const auto &i = st[d->uid()]["inputStats"];
        PBT_CHECK(i.size() == 1 && i[0]["totalMessages"] == d->got && d->input(0)->totalMessages() == d->got, "input total " << i[0]["totalMessages"] << ", popped " << d->got);
        PBT_CHECK(i[0]["enqueuedMessages"] == n - d->got, "enqueued " << i[0]["enqueuedMessages"] << ", " << n - d->got << " are left");
    }
    c.nontrivial = n > 5;
}

PBT_MAIN("C30", {{"streams", 6, streams, true}, {"messages", 1, messages, true}})
