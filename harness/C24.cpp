// C24: a remote environment behaves like a local one.
#include "remote.hpp"
#include <Pothos/Managed.hpp>
#include <Pothos/Callable.hpp>
using namespace remote;

static std::atomic<long> live[2], made[2];
struct Acc
{
    Acc(void): side(0) { live[0]++; made[0]++; }
    Acc(int side, long long v): side(side & 1), v(v) { live[this->side]++; made[this->side]++; }
    Acc(const Acc &o): side(o.side), v(o.v), s(o.s) { live[side]++; }
    ~Acc(void) { live[side]--; v = 0xdead; }
    long long add(long long d) { v += d; return v; }
    long long get(void) const { return v; }
    std::string cat(const std::string &a, const std::string &b) { s += a; return s + b; }
    std::complex<double> cplx(double a, double b) const { return {a + double(v % 7), b}; }
    void boom(int n) { throw Pothos::RuntimeException("boom " + std::to_string(n), "at " + std::to_string(v)); }
    Pothos::Proxy proxied(int n) { v += 1; return n < 0 ? Pothos::Proxy() : Pothos::ProxyEnvironment::make("managed")->makeProxy(n); } // null for negative arguments
    void stdboom(void) { throw std::runtime_error("plain"); }
    static int twice(int a) { return a * 2; }
    static std::string twice2(const std::string &a) { return a + a; }
    static Pothos::ObjectVector rev(const Pothos::ObjectVector &v) { return Pothos::ObjectVector(v.rbegin(), v.rend()); }
    static long long sum(const std::vector<int> &v) { long long r = 0; for (auto x : v) r += x; return r; }
    static Acc copyOf(const Acc &a) { Acc b(a); b.v++; return b; }
    static long long peek(const Acc &a, const Acc &b) { return a.v * 3 + b.v; }
    static Pothos::Object join(const Pothos::Object *args, const size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += args[i].getTypeString() + ":" + text(args[i]).substr(0, 40) + ","; return Pothos::Object(s); }
    int side; long long v = 0; std::string s;
};
struct Secret { int x = 3; };
static auto managedAcc = Pothos::ManagedClass()
    .registerConstructor<Acc, int, long long>()
    .registerField("v", &Acc::v)
    .registerMethod("add", &Acc::add).registerMethod("get", &Acc::get).registerMethod("cat", &Acc::cat).registerMethod("cplx", &Acc::cplx).registerMethod("boom", &Acc::boom).registerMethod("stdboom", &Acc::stdboom).registerMethod("proxied", &Acc::proxied)
    .registerStaticMethod("twice", &Acc::twice).registerStaticMethod("twice", &Acc::twice2).registerStaticMethod("rev", &Acc::rev).registerStaticMethod("sum", &Acc::sum).registerStaticMethod("copyOf", &Acc::copyOf).registerStaticMethod("peek", &Acc::peek).registerOpaqueStaticMethod("join", &Acc::join)
    .commit("VP/Acc");

enum Kind { VALUE, ACC, CLASS };
struct Slot { Kind kind; Pothos::Proxy l, r; };

//! the same operation on both sides: both fail (with equal messages where they come from the called function) or both succeed
struct Both
{
    bool ok = false; std::string message;
    template <typename F, typename G> static Both run(F &&lf, G &&rf, const std::string &what)
    {
        auto go = [](const std::function<void(void)> &f, std::string &cls, std::string &msg) { try { f(); } catch (const Fail &) { throw; } catch (const Pothos::ProxyExceptionMessage &ex) { cls = "message"; msg = ex.message(); } catch (const Pothos::Exception &ex) { cls = "error"; msg = ex.displayText(); } };
        std::string lc, lm, rc, rm; go(lf, lc, lm); go(rf, rc, rm);
        PBT_CHECK(lc == rc, what << ": locally " << (lc.empty() ? "fine" : lc + " " + lm) << ", remotely " << (rc.empty() ? "fine" : rc + " " + rm));
        if (lc == "message") PBT_CHECK(lm == rm, what << ": message of the exception is '" << rm << "', locally '" << lm << "'");
        Both b; b.ok = lc.empty(); b.message = lm; return b;
    }
};

struct Session
{
    Src &s; std::ostream &desc; Pothos::ProxyEnvironment::Sptr lenv, renv; std::vector<Slot> slots; bool counts; size_t ops = 0, errors = 0, calls = 0;
    void store(const Slot &x) { if (slots.size() < 8) slots.push_back(x); else slots[s.draw(slots.size() - 1)] = x; }
    Slot *pick(int kind) { std::vector<Slot *> v; for (auto &x : slots) if (kind < 0 || x.kind == kind) v.push_back(&x); return v.empty() ? nullptr : v[s.draw(v.size() - 1)]; }
    void sameValue(const Pothos::Proxy &l, const Pothos::Proxy &r, const std::string &what)
    {
        const auto a = text(l.toObject()), b = text(r.toObject());
        PBT_CHECK(a == b, what << ": remote value " << b.substr(0, 300) << ", local " << a.substr(0, 300));
        PBT_CHECK(l.getClassName() == r.getClassName(), what << ": class name " << r.getClassName() << ", locally " << l.getClassName());
    }
    void step(void)
    {
        ops++;
        switch (s.weighted({4, 3, 2, 8, 3, 3, 2, 3, 2, 2}))
        {
        case 0: { auto o = genObject(s, unsigned(s.draw(2))); Slot x; x.kind = VALUE; x.l = lenv->makeProxy(o); x.r = renv->makeProxy(o); desc << "make " << o.getTypeString() << "; "; sameValue(x.l, x.r, "made proxy"); store(x); } break;
        case 1:
        {
            const long long v = genInt<long long>(s) / 1024; Slot x; x.kind = ACC; desc << "new Acc " << v << "; ";
            const bool shared = s.chance(1, 3); const std::string ctor = shared ? "shared" : "()";
            x.l = lenv->findProxy("VP/Acc").call(ctor, 0, v); x.r = renv->findProxy("VP/Acc").call(ctor, 1, v); store(x);
        } break;
        case 2:
        {
            const auto name = s.pick({std::string("VP/Acc"), std::string("Pothos/DType"), std::string("no/such"), std::string("Pothos/Nothing"), std::string("bad name!")});
            Slot x; x.kind = CLASS; desc << "find " << name << "; ";
            auto b = Both::run([&](void) { x.l = lenv->findProxy(name); }, [&](void) { x.r = renv->findProxy(name); }, "findProxy " + name);
            if (b.ok && name == "VP/Acc") store(x); else if (!b.ok) errors++;
        } break;
        case 3: // calls, with good and bad arguments
        {
            auto x = pick(s.chance(3, 4) ? int(ACC) : s.chance(2, 3) ? int(CLASS) : int(VALUE)); if (!x) break;
            calls++;
            std::string name; std::vector<Pothos::Proxy> la, ra;
            auto arg = [&](const Pothos::Object &o) { la.push_back(lenv->makeProxy(o)); ra.push_back(s.flip() ? renv->makeProxy(o) : lenv->makeProxy(o)); }; // remote calls take local proxies as well
            auto slotArg = [&](int kind) { auto y = pick(kind); if (y) { la.push_back(y->l); ra.push_back(y->r); } else arg(Pothos::Object(1)); };
            if (x->kind == ACC) name = s.pick({std::string("add"), std::string("get"), std::string("cat"), std::string("cplx"), std::string("boom"), std::string("stdboom"), std::string("proxied"), std::string("get:v"), std::string("set:v"), std::string("nosuch")});
            else name = s.pick({std::string("twice"), std::string("rev"), std::string("sum"), std::string("copyOf"), std::string("peek"), std::string("join"), std::string("nosuch")});
            if (name == "add" || name == "set:v" || name == "boom" || name == "proxied") arg(Pothos::Object(int(s.range(-50, 50))));
            if (name == "cat") { arg(Pothos::Object(genString(s, 6))); arg(Pothos::Object(genString(s, 6))); }
            if (name == "cplx") { arg(Pothos::Object(int(s.range(0, 9)))); arg(Pothos::Object(0.5)); }
            if (name == "twice") { if (s.flip()) arg(Pothos::Object(int(s.range(-99, 99)))); else arg(Pothos::Object(genString(s, 5))); }
            if (name == "rev") { Pothos::ObjectVector v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(genObject(s, 0)); arg(Pothos::Object(v)); }
            if (name == "sum") { std::vector<int> v; for (size_t n = size_t(s.small(0, 4)); n > 0; n--) v.push_back(int(s.range(-9, 9))); arg(Pothos::Object(v)); }
            if (name == "copyOf") slotArg(ACC);
            if (name == "join") for (size_t n = size_t(s.small(0, 26)); n > 0; n--) arg(s.flip() ? Pothos::Object(int(n)) : Pothos::Object(std::to_string(n)));
            if (name == "peek") { slotArg(ACC); slotArg(ACC); }
            switch (s.weighted({8, 1, 1, 1})) // spoil it now and then
            {
            case 1: if (!la.empty()) { la.pop_back(); ra.pop_back(); } break;
            case 2: arg(Pothos::Object("extra")); break;
            case 3: slotArg(-1); break;
            default: break;
            }
            desc << "call " << name << "/" << la.size() << "; ";
            Slot y; y.kind = VALUE;
            auto b = Both::run([&](void) { y.l = x->l.getHandle()->call(name, la.data(), la.size()); }, [&](void) { y.r = x->r.getHandle()->call(name, ra.data(), ra.size()); }, "call " + name);
            if (!b.ok) { errors++; break; }
            PBT_CHECK(bool(y.l) == bool(y.r), "call " << name << ": the result is " << (y.r ? "a proxy" : "null") << ", locally " << (y.l ? "a proxy" : "null")); if (!y.l) break;
            if (name == "copyOf") { y.kind = ACC; PBT_CHECK(y.l.call<long long>("get") == y.r.call<long long>("get"), "value of the returned instance"); }
            else sameValue(y.l, y.r, "result of " + name);
            store(y);
        } break;
        case 4: { auto x = pick(VALUE), y = pick(VALUE); if (!x) break; int a = 0, b = 0; desc << "compare; "; auto r = Both::run([&](void) { a = x->l.compareTo(y->l); }, [&](void) { b = x->r.compareTo(y->r); }, "compareTo"); PBT_CHECK((a < 0) == (b < 0) && (a > 0) == (b > 0), "compareTo gives " << b << ", locally " << a); } break;
        case 5: { auto x = pick(VALUE); if (!x) break; desc << "convert; "; sameValue(x->l, x->r, "value"); } break;
        case 6:
        {
            auto x = pick(VALUE); if (!x) break; const auto o = x->l.toObject();
            const bool plain = o.type() == typeid(int) || o.type() == typeid(std::string) || o.type() == typeid(double) || o.type() == typeid(long long) || o.type() == typeid(bool) || o.type() == typeid(unsigned char);
            if (!plain) break; desc << "print; ";
            PBT_CHECK(x->r.toString() == x->l.toString(), "toString '" << x->r.toString() << "', locally '" << x->l.toString() << "'");
            PBT_CHECK(x->r.hashCode() == x->l.hashCode(), "hashCode differs");
        } break;
        case 7: { if (slots.empty()) break; const size_t i = s.draw(slots.size() - 1); desc << "drop; "; slots.erase(slots.begin() + i); } break;
        case 8: { auto x = pick(-1); if (!x) break; auto y = *x; desc << "copy; "; store(y); } break;
        default: // values that cannot travel are an error of that operation only
        {
            desc << "unserializable; "; bool threw = false;
            if (s.flip()) { try { (void)renv->makeProxy(Secret()); } catch (const Pothos::Exception &) { threw = true; } }
            else { auto x = pick(ACC); if (!x) break; try { (void)x->r.toObject(); } catch (const Pothos::Exception &) { threw = true; } }
            PBT_CHECK(threw, "a value that cannot be serialized was transferred");
            auto p = renv->makeProxy(7); PBT_CHECK(p.convert<int>() == 7, "the connection does not work after a refused value");
        } break;
        }
        if (counts) PBT_CHECK(live[0] == live[1], "instances alive on the server: " << live[1] << ", the same operations locally leave " << live[0]);
    }
};

static void differential(Case &c)
{
    auto &s = c.s;
    live[0] = live[1] = 0;
    size_t errors, calls;
    {
        Link link(0, s.flip());
        {
            Session x{s, c.desc, Pothos::ProxyEnvironment::make("managed"), link.connect()};
            x.counts = true;
            PBT_CHECK(x.renv->getName() == "managed", "name of the environment");
            const size_t n = 1 + size_t(s.small(0, 40));
            for (size_t i = 0; i < n; i++) x.step();
            // live handles still work at the end
            for (auto &y : x.slots) if (y.kind == ACC) PBT_CHECK(y.l.call<long long>("get") == y.r.call<long long>("get"), "state of an instance differs at the end");
            x.slots.clear();
            PBT_CHECK(live[1] == 0, live[1] << " instances are left on the server after all handles were dropped");
            errors = x.errors; calls = x.calls;
        }
        link.join();
        PBT_CHECK(link.ended == 1, "the server ended with an error: " << link.error);
    }
    if (errors) c.tag("errors-compared");
    c.count("calls", calls); c.nontrivial = calls > 2;
}

// several client threads on one connection
static void threads(Case &c)
{
    auto &s = c.s;
    const size_t nt = size_t(s.range(2, 6)), ops = size_t(s.range(3, 60)); const bool sharedAcc = s.flip();
    c.desc << nt << " threads x " << ops << (sharedAcc ? " one shared instance" : "");
    live[0] = live[1] = 0;
    std::vector<std::string> errs(nt); std::atomic<size_t> finished{0};
    std::vector<uint64_t> seeds; for (size_t i = 0; i < nt; i++) seeds.push_back(s.draw(1 << 30));
    auto link = std::make_shared<Link>(0, s.flip());
    {
        auto env = link->connect();
        Pothos::Proxy one = env->findProxy("VP/Acc").call("()", 1, 0);
        std::vector<std::thread> ths;
        for (size_t t = 0; t < nt; t++) ths.emplace_back([&, t](void)
        {
            try
            {
                Src ts(seeds[t]); std::ostringstream d;
                auto cls = env->findProxy("VP/Acc");
                auto mine = cls.call("()", 1, (long long)(t * 1000000)); long long v = t * 1000000;
                for (size_t i = 0; i < ops; i++) switch (ts.draw(4))
                {
                case 0: { const int k = int(ts.draw(100)); v += k; const auto r = mine.call<long long>("add", k); PBT_CHECK(r == v, "own instance: add gave " << r << ", want " << v); } break;
                case 1: { auto o = genObject(ts, 1); auto p = env->makeProxy(o); PBT_CHECK(text(p.toObject()) == text(o), "value of another request"); } break;
                case 2: { const int k = int(ts.draw(100000)); PBT_CHECK(cls.call<int>("twice", k) == 2 * k, "result of another request"); } break;
                case 3: { const int k = int(ts.draw(1000)); std::string m; try { mine.call("boom", k); } catch (const Pothos::ProxyExceptionMessage &ex) { m = ex.message(); } PBT_CHECK(m.find("boom " + std::to_string(k)) != std::string::npos, "exception of another request: " << m); } break;
                default: if (sharedAcc) one.call("add", 1); else { const auto r = mine.call<long long>("get"); PBT_CHECK(r == v, "get"); } break;
                }
            }
            catch (const Pothos::Exception &ex) { errs[t] = ex.displayText(); }
            catch (const std::exception &ex) { errs[t] = ex.what(); }
            finished++;
        });
        const double end = nowS() + 30;
        while (finished < nt && nowS() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (finished < nt) { const bool stuck = othersAsleep(3); std::string st = "client threads wait forever"; std::cout << "FAIL " << st << std::endl; for (auto &t : ths) t.detach(); link->server.detach(); new std::shared_ptr<Link>(link); new Pothos::ProxyEnvironment::Sptr(env); new Pothos::Proxy(one); new std::vector<std::string>(std::move(errs)); pbt::fail(st, !stuck); }
        for (auto &t : ths) t.join();
        for (auto &e : errs) PBT_CHECK(e.empty(), e);
        PBT_CHECK(live[1] == 1, live[1] << " instances alive on the server, 1 is referenced");
        one = Pothos::Proxy();
        PBT_CHECK(live[1] == 0, "the last instance was not released");
    }
    link->join();
    PBT_CHECK(link->ended == 1, "the server ended with an error: " << link->error);
    c.nontrivial = ops > 5;
}

// rounds: all threads make one request at once, then all fall idle, so that nobody else's traffic can rescue a thread that was not woken
static void rounds(Case &c)
{
    auto &s = c.s;
    const size_t nt = size_t(s.range(2, 8)), nr = size_t(s.range(5, 60));
    c.desc << nt << " threads, " << nr << " rounds";
    struct State { std::mutex m; std::condition_variable cv; size_t round = 0; std::atomic<size_t> done{0}, bad{0}; std::vector<std::string> blobs; std::shared_ptr<Link> link; Pothos::ProxyEnvironment::Sptr env; };
    auto st = std::make_shared<State>(); st->link = std::make_shared<Link>(0, s.flip()); st->env = st->link->connect();
    for (size_t t = 0; t < nt; t++) st->blobs.push_back(std::string(size_t(s.small(0, 3000)), char('a' + t)));
    std::vector<std::thread> ths;
    for (size_t t = 0; t < nt; t++) ths.emplace_back([st, t, nr](void)
    {
        for (size_t r = 1; r <= nr; r++)
        {
            { std::unique_lock<std::mutex> l(st->m); while (st->round < r) st->cv.wait(l); }
            try { auto p = st->env->makeProxy(st->blobs[t]); if (p.convert<std::string>() != st->blobs[t]) st->bad++; } catch (const std::exception &) { st->bad++; }
            st->done++;
        }
    });
    for (size_t r = 1; r <= nr; r++)
    {
        { std::lock_guard<std::mutex> l(st->m); st->round = r; } st->cv.notify_all(); const double end = nowS() + 30;
        while (st->done < r * nt && nowS() < end) std::this_thread::yield();
        if (st->done < r * nt) { const bool certain = othersAsleep(3); for (auto &t : ths) t.detach(); st->link->server.detach(); new std::shared_ptr<State>(st); pbt::fail("in a round of requests a thread waits forever for its answer", !certain); }
    }
    for (auto &t : ths) t.join();
    PBT_CHECK(st->bad == 0, st->bad << " wrong or failed answers");
    st->env.reset(); st->link->join();
    PBT_CHECK(st->link->ended == 1, "the server ended with an error: " << st->link->error);
    c.nontrivial = nt > 2;
}

// two connections to the same server share its objects
static void connections(Case &c)
{
    auto &s = c.s;
    live[0] = live[1] = 0;
    Link a, b; auto ea = a.connect(), eb = b.connect();
    long long v = s.range(-100, 100); auto acc = ea->findProxy("VP/Acc").call("()", 1, v);
    const size_t n = 1 + size_t(s.small(0, 10)); c.desc << n << " steps over two connections";
    for (size_t i = 0; i < n; i++)
    {
        auto cls = (s.flip() ? ea : eb)->findProxy("VP/Acc");
        if (s.flip()) { v += 3; PBT_CHECK(acc.call<long long>("add", eb->makeProxy(3)) == v, "add through the first connection"); } // an argument that lives on the other connection
        else PBT_CHECK(cls.call<long long>("peek", acc, acc) == 4 * v, "instance passed through the other connection");
    }
    acc = Pothos::Proxy(); PBT_CHECK(live[1] == 0, "instance left"); ea.reset(); auto p = eb->makeProxy(5); PBT_CHECK(p.convert<int>() == 5, "closing one connection disturbed the other");
    c.nontrivial = n > 2;
}

PBT_MAIN("C24", {{"differential", 6, differential, true}, {"threads", 2, threads, true}, {"rounds", 1, rounds, true}, {"connections", 1, connections, true}})
