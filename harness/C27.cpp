// C27: RingDeque against an ideal deque, OrderedQueue against a reorder model.
#include "common.hpp"
#include "tracked.hpp"
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/OrderedQueue.hpp>
#include <deque>
using namespace pbt;
typedef Pothos::Util::RingDeque<Tracked> RD;

struct Model { std::deque<int> d; size_t cap; bool dead = false; };

static void verify(const RD &r, const Model &m, const char *where)
{
    if (m.dead) return;
    PBT_CHECK(r.size() == m.d.size(), where << ": size " << r.size() << " want " << m.d.size());
    PBT_CHECK(r.capacity() == m.cap, where << ": capacity " << r.capacity() << " want " << m.cap);
    PBT_CHECK(r.empty() == m.d.empty(), where << ": empty");
    PBT_CHECK(r.full() == (m.d.size() == m.cap), where << ": full");
    if (!m.d.empty())
    {
        PBT_CHECK(r.front().get() == m.d.front(), where << ": front " << r.front().get() << " want " << m.d.front());
        PBT_CHECK(r.back().get() == m.d.back(), where << ": back " << r.back().get() << " want " << m.d.back());
    }
    for (size_t i = 0; i < m.d.size(); i++)
        PBT_CHECK(r[i].get() == m.d[i], where << ": [" << i << "] " << r[i].get() << " want " << m.d[i]);
    PBT_CHECK(liveTable().error.empty(), where << ": " << liveTable().error);
}

static void ringDeque(Case &c)
{
    auto &s = c.s;
    liveTable() = LiveTable();
    std::vector<std::unique_ptr<RD>> rs; std::vector<Model> ms;
    const size_t nr = size_t(s.range(1, 3));
    for (size_t i = 0; i < nr; i++)
    {
        const size_t cap = size_t(s.small(1, 20));
        rs.emplace_back(new RD(cap)); Model m; m.cap = cap; ms.push_back(m);
        c.desc << "ring" << i << "(cap " << cap << ") ";
    }
    int next = 1; bool wrapped = false; size_t pops = 0, grows = 0;
    const size_t nops = size_t(s.small(1, 120));
    for (size_t k = 0; k < nops; k++)
    {
        const size_t i = size_t(s.draw(nr - 1));
        auto &r = *rs[i]; auto &m = ms[i];
        const size_t op = s.weighted({8, 6, 6, 5, 3, 2, 2, 1, 2, 2, 1, 1});
        if (m.dead && op != 7 && op != 8 && op != 9) continue; // moved from: only assign or replace
        switch (op)
        {
        case 0: if (m.d.size() < m.cap)
            {
                c.desc << i << ".push_back ";
                if (s.flip()) { Tracked t(next); r.push_back(t); PBT_CHECK(t.get() == next, "push_back of an lvalue changed its argument"); }
                else r.push_back(Tracked(next));
                m.d.push_back(next++);
            } break;
        case 1: if (m.d.size() < m.cap)
            {
                c.desc << i << ".push_front ";
                if (s.flip()) { const Tracked t(next); r.push_front(t); }
                else r.push_front(Tracked(next));
                m.d.push_front(next++);
            } break;
        case 2: if (!m.d.empty()) { c.desc << i << ".pop_front "; r.pop_front(); m.d.pop_front(); pops++; } break;
        case 3: if (!m.d.empty()) { c.desc << i << ".pop_back "; r.pop_back(); m.d.pop_back(); pops++; } break;
        case 4: if (m.d.size() < m.cap)
            {
                c.desc << i << ".emplace ";
                if (s.flip()) { auto &e = r.emplace_back(next, 7); PBT_CHECK(&e == &r.back(), "emplace_back reference"); m.d.push_back(next * 1000 + 7); }
                else { auto &e = r.emplace_front(next, 3); PBT_CHECK(&e == &r.front(), "emplace_front reference"); m.d.push_front(next * 1000 + 3); }
                next++;
            } break;
        case 5:
            {
                const size_t cap = size_t(s.small(1, 40));
                c.desc << i << ".set_capacity(" << cap << ") ";
                r.set_capacity(cap);
                if (m.d.size() <= cap) { m.cap = cap; if (!m.d.empty()) grows++; }
            } break;
        case 6: c.desc << i << ".clear "; r.clear(); m.d.clear(); break;
        case 7: // copy assignment
            {
                const size_t j = size_t(s.draw(nr - 1));
                if (ms[j].dead) break;
                c.desc << i << "=copy " << j << " ";
                r = *rs[j]; m = ms[j];
                verify(*rs[j], ms[j], "copy source");
            } break;
        case 8: // move assignment
            {
                const size_t j = size_t(s.draw(nr - 1));
                if (ms[j].dead || j == i) break;
                c.desc << i << "=move " << j << " ";
                r = std::move(*rs[j]); m = ms[j]; ms[j].dead = true; ms[j].d.clear();
            } break;
        case 9: // replace by a copy- or move-constructed one
            {
                const size_t j = size_t(s.draw(nr - 1));
                if (ms[j].dead) break;
                const bool mv = s.flip();
                c.desc << i << (mv ? "=new(move " : "=new(copy ") << j << ") ";
                std::unique_ptr<RD> p(mv ? new RD(std::move(*rs[j])) : new RD(*rs[j]));
                const auto mm = ms[j];
                if (mv) { ms[j].dead = true; ms[j].d.clear(); }
                rs[i] = std::move(p); ms[i] = mm; ms[i].dead = false;
            } break;
        case 10: if (!m.d.empty())
            {
                const size_t at = size_t(s.draw(m.d.size() - 1));
                c.desc << i << "[" << at << "]= ";
                r[at] = Tracked(next); m.d[at] = next++;
            } break;
        case 11: if (!m.d.empty())
            {
                c.desc << i << ".front/back= ";
                if (s.flip()) { r.front() = Tracked(next); m.d.front() = next++; }
                else { r.back() = Tracked(next); m.d.back() = next++; }
            } break;
        }
        size_t alive = 0;
        for (size_t q = 0; q < nr; q++) { verify(*rs[q], ms[q], "after step"); alive += ms[q].d.size(); }
        PBT_CHECK(liveTable().live.size() == alive, "live elements " << liveTable().live.size() << " want " << alive);
        if (pops > 3) wrapped = true;
    }
    rs.clear();
    PBT_CHECK(liveTable().error.empty(), liveTable().error);
    PBT_CHECK(liveTable().live.empty(), "elements leaked: " << liveTable().live.size());
    c.nontrivial = wrapped;
    if (wrapped) c.tag("wrapped");
    if (grows) c.tag("resized-with-content");
}

static void orderedQueue(Case &c)
{
    auto &s = c.s;
    liveTable() = LiveTable();
    const size_t cap = size_t(s.small(1, 17));
    {
        Pothos::Util::OrderedQueue<Tracked> q(cap);
        PBT_CHECK(q.capacity() == cap, "capacity " << q.capacity());
        // tokens cap in flight: ids are pushed in any order with index id % cap
        std::vector<size_t> held; // popped, not yet pushed: sequence numbers
        std::deque<int> ready; std::map<size_t, int> waiting;
        size_t nextSeq = 0, ack = 0, late = 0; int val = 1;
        for (size_t i = 0; i < cap; i++) held.push_back(nextSeq++);
        c.desc << "cap " << cap << ": ";
        const size_t nops = size_t(s.small(1, 150));
        for (size_t k = 0; k < nops; k++)
        {
            if (s.chance(3, 5) && !held.empty())
            {
                const size_t at = size_t(s.draw(held.size() - 1));
                const size_t seq = held[at]; held.erase(held.begin() + at);
                c.desc << "push#" << seq % cap << " ";
                if (s.flip()) { Tracked t(val); q.push(t, seq % cap); PBT_CHECK(t.get() == val, "push of an lvalue changed it"); }
                else q.push(Tracked(val), seq % cap);
                if (seq != ack) late++;
                waiting[seq] = val++;
                while (waiting.count(ack)) { ready.push_back(waiting[ack]); waiting.erase(ack); ack++; }
            }
            else if (!ready.empty())
            {
                c.desc << "pop ";
                PBT_CHECK(!q.empty(), "queue empty, want " << ready.front());
                PBT_CHECK(q.front().get() == ready.front(), "front " << q.front().get() << " want " << ready.front());
                q.pop(); ready.pop_front();
                held.push_back(nextSeq++);
            }
            PBT_CHECK(q.empty() == ready.empty(), "empty() is " << q.empty() << ", ready items " << ready.size());
            if (!ready.empty()) PBT_CHECK(q.front().get() == ready.front(), "front " << q.front().get() << " want " << ready.front());
            PBT_CHECK(liveTable().error.empty(), liveTable().error);
        }
        if (s.chance(1, 4))
        {
            // copies are independent and equal
            auto q2 = q;
            auto r2 = ready;
            while (!r2.empty()) { PBT_CHECK(!q2.empty() && q2.front().get() == r2.front(), "copied queue"); q2.pop(); r2.pop_front(); }
            PBT_CHECK(q2.empty(), "copied queue has extra items");
        }
        while (!ready.empty()) { PBT_CHECK(!q.empty() && q.front().get() == ready.front(), "drain"); q.pop(); ready.pop_front(); }
        PBT_CHECK(q.empty(), "extra items");
        c.nontrivial = late > 1;
        if (late) c.tag("out-of-order");
        if (nextSeq > 2 * cap) c.tag("index-wrapped");
    }
    PBT_CHECK(liveTable().error.empty(), liveTable().error);
    PBT_CHECK(liveTable().live.empty(), "elements leaked");
}

PBT_MAIN("C27", {{"ring_deque", 3, ringDeque}, {"ordered_queue", 1, orderedQueue}})
