// C15: objects keep their held value alive exactly as long as it is referenced.
#include "common.hpp"
#include "userrace.hpp"
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Framework/Label.hpp>
#include <Pothos/Proxy.hpp>
#include <mutex>
using namespace pbt;
using Pothos::Object;

struct Table { std::mutex m; std::map<int, int> live; std::map<int, int> destroyed; std::string error; };
static Table &table(void) { static Table t; return t; }
struct Held
{
    explicit Held(int id): id(id), check(~id) { add(); }
    Held(const Held &o): id(o.id), check(o.check) { o.verify(); add(); }
    Held(Held &&o): id(o.id), check(o.check) { o.verify(); add(); }
    ~Held(void) { std::lock_guard<std::mutex> l(table().m); if (check != ~id) table().error = "a value was destroyed twice"; else { table().live[id]--; table().destroyed[id]++; } check = id; }
    void add(void) { std::lock_guard<std::mutex> l(table().m); table().live[id]++; }
    void verify(void) const { if (check != ~id) { std::lock_guard<std::mutex> l(table().m); table().error = "a destroyed value was used"; } }
    int get(void) const { verify(); return id; }
    int id, check; char pad[40];
};
//! two variants of the held type: small and padded
struct Node { int id; int kind; std::vector<std::shared_ptr<Node>> kids; }; // 0 Held, 1 ObjectVector, 2 ObjectKwargs, 3 shared_ptr<Held>, 4 Label with data
typedef std::shared_ptr<Node> N;

static void collect(const N &n, std::map<int, int> &out, std::set<Node *> &seen) { if (!n || !seen.insert(n.get()).second) return; if (n->kind == 0 || n->kind == 3) out[n->id]++; for (auto &k : n->kids) collect(k, out, seen); }
static void same(const Object &o, const N &n, const std::string &where)
{
    PBT_CHECK(bool(o) == bool(n), where << ": object is " << (o ? "not null" : "null"));
    if (!n) { PBT_CHECK(o.type() == typeid(Pothos::NullObject), where << ": type of a null object"); return; }
    PBT_CHECK(o.unique() == (n.use_count() == 1 + 1), where << ": unique() is " << o.unique() << " with " << n.use_count() - 1 << " references"); // one more model reference is held by the caller
    switch (n->kind)
    {
    case 0: PBT_CHECK(o.type() == typeid(Held) && o.extract<Held>().get() == n->id, where << ": value"); break;
    case 3: PBT_CHECK(o.type() == typeid(std::shared_ptr<Held>) && o.extract<std::shared_ptr<Held>>()->get() == n->id, where << ": shared value"); break;
    case 1: { PBT_CHECK(o.type() == typeid(Pothos::ObjectVector), where << ": type"); auto &v = o.extract<Pothos::ObjectVector>(); PBT_CHECK(v.size() == n->kids.size(), where << ": nested size"); for (size_t i = 0; i < v.size(); i++) { auto k = n->kids[i]; same(v[i], k, where + "[]"); } } break;
    case 2: { PBT_CHECK(o.type() == typeid(Pothos::ObjectKwargs), where << ": type"); auto &v = o.extract<Pothos::ObjectKwargs>(); PBT_CHECK(v.size() == n->kids.size(), where << ": nested size"); for (size_t i = 0; i < v.size(); i++) { auto k = n->kids[i]; same(v.at(std::to_string(i)), k, where + "{}"); } } break;
    default: { PBT_CHECK(o.type() == typeid(Pothos::Label), where << ": type"); auto k = n->kids[0]; same(o.extract<Pothos::Label>().data, k, where + ".data"); } break;
    }
}

static void history(Case &c)
{
    auto &s = c.s;
    { std::lock_guard<std::mutex> l(table().m); table().live.clear(); table().destroyed.clear(); table().error.clear(); }
    std::vector<Object> slots(2 + size_t(s.small(0, 4))); std::vector<N> ms(slots.size());
    int next = 1; size_t nested = 0, self = 0, refused = 0;
    const size_t nops = 1 + size_t(s.small(0, 60));
    auto verify = [&](const std::string &when)
    {
        for (size_t i = 0; i < slots.size(); i++) { auto n = ms[i]; same(slots[i], n, when + ": slot " + std::to_string(i)); }
        for (size_t i = 0; i < slots.size(); i++) for (size_t j = 0; j < slots.size(); j++) PBT_CHECK((slots[i] == slots[j]) == (ms[i] == ms[j]) && (slots[i] != slots[j]) == (ms[i] != ms[j]), when << ": identity of slots " << i << " and " << j);
        std::map<int, int> want; std::set<Node *> seen; for (auto &n : ms) collect(n, want, seen);
        std::lock_guard<std::mutex> l(table().m);
        PBT_CHECK(table().error.empty(), when << ": " << table().error);
        std::map<int, int> got; for (auto &e : table().live) if (e.second) got[e.first] = e.second;
        std::ostringstream d; d << "alive:"; for (auto &e : got) d << " " << e.first << "x" << e.second; d << " want:"; for (auto &e : want) d << " " << e.first << "x" << e.second;
        PBT_CHECK(got == want, when << ": " << d.str());
    };
    for (size_t k = 0; k < nops; k++)
    {
        const size_t i = s.draw(slots.size() - 1), j = s.draw(slots.size() - 1);
        std::ostringstream what;
        switch (s.weighted({8, 5, 5, 4, 3, 5, 4, 5, 3, 4, 3, 2, 2, 2}))
        {
        case 0: // a new value
        {
            const int id = next++; const int how = int(s.draw(4)); what << i << " = new " << id << " (" << how << ")";
            if (how == 0) { Held h(id); slots[i] = Object(h); }
            else if (how == 1) slots[i] = Object(Held(id));
            else if (how == 2) slots[i] = Object::make(Held(id));
            else if (how == 3) slots[i] = Object::emplace<Held>(id);
            else slots[i] = Object(std::make_shared<Held>(id));
            ms[i] = N(new Node{id, how == 4 ? 3 : 0, {}});
        } break;
        case 1: what << i << " = copy of " << j; if (s.flip()) { Object t(slots[j]); slots[i] = t; } else slots[i] = slots[j]; ms[i] = N(ms[j]); if (i == j) self++; break;
        case 2: what << i << " = moved " << j; slots[i] = std::move(slots[j]); if (i != j) { ms[i] = ms[j]; ms[j].reset(); } else self++; break;
        case 3: what << "construct " << i << " from moved " << j; { Object t(std::move(slots[j])); N tm = ms[j]; ms[j].reset(); PBT_CHECK(!slots[j], "moved from object is not null"); slots[i] = std::move(t); ms[i] = tm; } break;
        case 4: what << "swap " << i << " " << j; std::swap(slots[i], slots[j]); std::swap(ms[i], ms[j]); break;
        case 5: // nest copies in a container
        {
            N n(new Node{0, int(s.range(1, 2)), {}}); Pothos::ObjectVector v; Pothos::ObjectKwargs m; const size_t cnt = size_t(s.small(0, 4));
            for (size_t q = 0; q < cnt; q++) { const size_t x = s.draw(slots.size() - 1); v.push_back(slots[x]); m[std::to_string(q)] = slots[x]; n->kids.push_back(ms[x]); }
            what << i << " = container of " << cnt; nested++;
            if (n->kind == 1) { m.clear(); slots[i] = s.flip() ? Object(std::move(v)) : Object(v); } else { v.clear(); slots[i] = s.flip() ? Object(std::move(m)) : Object(m); }
            ms[i] = n;
        } break;
        case 6: { what << i << " = label with " << j; N n(new Node{0, 4, {ms[j]}}); slots[i] = Object(Pothos::Label("x", slots[j], 5)); ms[i] = n; nested++; } break;
        case 7: // take a nested object out (also into the very object that contains it)
        {
            if (!ms[j] || ms[j]->kids.empty()) break;
            const size_t q = s.draw(ms[j]->kids.size() - 1); what << i << " = element " << q << " of " << j; if (i == j) self++;
            const int kind = ms[j]->kind; N kid = ms[j]->kids[q];
            if (kind == 1) slots[i] = slots[j].extract<Pothos::ObjectVector>()[q];
            else if (kind == 2) slots[i] = slots[j].extract<Pothos::ObjectKwargs>().at(std::to_string(q));
            else slots[i] = slots[j].extract<Pothos::Label>().data;
            ms[i] = kid;
        } break;
        case 8: // move a nested object out through a modifiable reference
        {
            if (!ms[j] || ms[j]->kind != 1 || ms[j]->kids.empty()) break;
            const size_t q = s.draw(ms[j]->kids.size() - 1); const bool uniq = ms[j].use_count() == 1; what << i << " = moved element " << q << " of " << j;
            bool threw = false;
            try { auto &v = slots[j].ref<Pothos::ObjectVector>(); if (uniq) slots[i] = std::move(v[q]); } catch (const Pothos::ObjectConvertError &) { threw = true; refused++; }
            PBT_CHECK(threw == !uniq, "ref() of " << (uniq ? "a sole" : "a shared") << " reference");
            if (uniq) { N kid = ms[j]->kids[q]; ms[j]->kids[q].reset(); ms[i] = kid; if (i == j) self++; }
        } break;
        case 9: what << i << " = null"; if (s.flip()) slots[i] = Object(); else { Object e; slots[i] = e; } ms[i].reset(); break;
        case 10: // wrong type
        {
            what << "wrong type " << i;
            PBT_CHECK(throws<Pothos::ObjectConvertError>([&](void) { slots[i].extract<int>(); }), "extract with the wrong type");
            PBT_CHECK(throws<Pothos::ObjectConvertError>([&](void) { slots[i].extract<std::string>(); }), "extract with the wrong type");
            PBT_CHECK(throws<Pothos::ObjectConvertError>([&](void) { slots[i].ref<double>(); }), "ref with the wrong type");
            if (ms[i] && ms[i]->kind != 0) PBT_CHECK(throws<Pothos::ObjectConvertError>([&](void) { slots[i].extract<Held>(); }), "extract with the wrong type");
            refused++;
        } break;
        case 11: what << "rotate"; std::rotate(slots.begin(), slots.begin() + i, slots.end()); std::rotate(ms.begin(), ms.begin() + i, ms.end()); break;
        case 12: what << "erase " << i; if (slots.size() > 2) { slots.erase(slots.begin() + i); ms.erase(ms.begin() + i); } break;
        default: what << "insert before " << i; if (slots.size() < 7) { Object t(slots[j]); slots.insert(slots.begin() + i, t); auto tm = ms[j]; ms.insert(ms.begin() + i, tm); } break;
        }
        c.desc << what.str() << "; ";
        verify("after " + what.str());
    }
    slots.clear(); ms.clear(); verify("at the end");
    { std::lock_guard<std::mutex> l(table().m); for (auto &e : table().live) PBT_CHECK(e.second == 0, "value " << e.first << " was never destroyed"); }
    if (self) c.tag("self-assignment"); if (nested) c.tag("nested"); if (refused) c.tag("refused");
    c.count("ops", nops); c.nontrivial = nops > 6;
}

// ---------------------------------------------------------------- threads
struct Plain { long v = 0, w = 0; };
USER_ACCESS static long readIt(const Plain &p) { const long a = p.v, b = p.w; return a == b ? a : -1; }
USER_ACCESS static void writeIt(Plain &p, long x) { p.v = x; p.w = x; }
static void threads(Case &c)
{
    auto &s = c.s;
    const size_t nt = size_t(s.range(2, 5)), rounds = size_t(s.range(1, 40)); c.desc << nt << " threads x " << rounds << " copies";
    { std::lock_guard<std::mutex> l(table().m); table().live.clear(); table().destroyed.clear(); table().error.clear(); }
    std::vector<Object> shared; for (size_t i = 0; i < 3; i++) shared.push_back(Object(Held(int(i)))); shared.push_back(Object(Pothos::ObjectVector{shared[0], shared[1]}));
    std::vector<std::string> errs(nt); std::vector<uint64_t> seeds; for (size_t i = 0; i < nt; i++) seeds.push_back(s.draw(1 << 30));
    std::vector<std::vector<Object>> given(nt, shared); const bool keep = s.flip(); if (!keep) shared.clear();
    std::vector<std::thread> ths; std::atomic<size_t> go{0};
    for (size_t t = 0; t < nt; t++) ths.emplace_back([&, t](void)
    {
        try
        {
            Src ts(seeds[t]); auto &mine = given[t]; go++; while (go < nt) std::this_thread::yield();
            std::vector<Object> extra;
            for (size_t r = 0; r < rounds; r++)
            {
                const size_t i = ts.draw(3); Object o(mine[i]); if (i < 3) PBT_CHECK(o.extract<Held>().get() == int(i), "value"); else PBT_CHECK(o.extract<Pothos::ObjectVector>()[1].extract<Held>().get() == 1, "nested value");
                if (ts.flip()) extra.push_back(std::move(o)); else if (!extra.empty() && ts.flip()) extra.pop_back();
                if (ts.chance(1, 4)) { Object a = mine[i]; Object b; b = a; a = Object(); PBT_CHECK(!b.unique(), "unique() with two references of this thread"); }
            }
            extra.clear(); mine.clear();
        }
        catch (const std::exception &ex) { errs[t] = ex.what(); }
    });
    for (auto &t : ths) t.join();
    for (auto &e : errs) PBT_CHECK(e.empty(), e);
    if (keep) { for (size_t i = 2; i < 4; i++) PBT_CHECK(shared[i].unique(), "all other references are gone, yet unique() is false"); PBT_CHECK(shared[0].extract<Held>().get() == 0, "value"); shared.clear(); }
    std::lock_guard<std::mutex> l(table().m);
    PBT_CHECK(table().error.empty(), table().error);
    for (auto &e : table().live) PBT_CHECK(e.second == 0, "value " << e.first << " has " << e.second << " instances after the last reference went");
    c.nontrivial = rounds > 3;
}
//! once an object is the only reference, its holder may write: readers that dropped theirs are finished
static void handover(Case &c)
{
    auto &s = c.s;
    const size_t nt = size_t(s.range(1, 4)), rounds = size_t(s.range(1, 20)); c.desc << nt << " readers, " << rounds << " rounds";
    Object o{Plain()}; std::vector<std::atomic<Object *>> box(nt); for (auto &b : box) b = nullptr; std::atomic<bool> stop{false}; std::atomic<size_t> bad{0}; std::atomic<long> expect{0};
    std::vector<std::thread> ths;
    for (size_t t = 0; t < nt; t++) ths.emplace_back([&, t](void) { while (!stop) { auto p = box[t].exchange(nullptr, std::memory_order_acquire); if (!p) { std::this_thread::yield(); continue; } { Object mine(std::move(*p)); const long v = readIt(mine.extract<Plain>()); if (v != expect.load(std::memory_order_relaxed)) bad++; } delete p; } });
    const double end = nowS() + 60; bool late = false;
    for (size_t r = 1; r <= rounds && !late; r++)
    {
        for (auto &b : box) { while (b.load(std::memory_order_relaxed)) std::this_thread::yield(); b.store(new Object(o), std::memory_order_release); }
        while (!o.unique()) { std::this_thread::yield(); if (nowS() > end) { late = true; break; } }
        if (late) break;
        writeIt(o.ref<Plain>(), long(r)); expect.store(long(r), std::memory_order_relaxed);
    }
    stop = true; for (auto &t : ths) t.join();
    if (late) pbt::fail("an object never becomes unique after all other references were dropped", true);
    PBT_CHECK(bad == 0, "a reader saw another value");
    userrace::check("the held value");
    c.nontrivial = rounds > 2;
}

PBT_MAIN("C15", {{"history", 10, history}, {"threads", 1, threads, true}, {"handover", 1, handover, true}})
