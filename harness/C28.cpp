// C28: SpinLock / SpinLockRW / FileLock: exclusion under generated histories, threads and processes.
#include "common.hpp"
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <Pothos/Util/FileLock.hpp>
#include <mutex>
#include <sys/wait.h>
using namespace pbt;

template <typename F> static bool eventually(F f)
{
    for (int i = 0; i < 1000; i++) if (f()) return true;
    return false;
}

// one thread, lock-state model: (writer, readers)
static void rwModel(Case &c)
{
    auto &s = c.s;
    Pothos::Util::SpinLockRW l; Pothos::Util::SpinLock sp;
    bool writer = false, spin = false; unsigned readers = 0, refused = 0, maxReaders = 0;
    std::vector<std::unique_ptr<Pothos::Util::SpinLockRW::SharedLock>> guards;
    const size_t n = size_t(s.small(1, 80));
    for (size_t i = 0; i < n; i++)
    {
        switch (s.draw(9))
        {
        case 0:
            c.desc << "try_lock ";
            if (writer || readers + guards.size()) { PBT_CHECK(!eventually([&]{ return l.try_lock(); }), "try_lock succeeded while held (writer " << writer << ", readers " << readers + guards.size() << ")"); refused++; }
            else { PBT_CHECK(eventually([&]{ return l.try_lock(); }), "try_lock refused on a free lock"); writer = true; }
            break;
        case 1: case 8:
            c.desc << "try_lock_shared ";
            if (writer) { PBT_CHECK(!eventually([&]{ return l.try_lock_shared(); }), "try_lock_shared succeeded while a writer holds"); refused++; }
            else { PBT_CHECK(eventually([&]{ return l.try_lock_shared(); }), "try_lock_shared refused without a writer"); readers++; }
            break;
        case 2: if (!writer && !readers && guards.empty()) { c.desc << "lock "; l.lock(); writer = true; } break;
        case 3: if (!writer) { c.desc << "lock_shared "; l.lock_shared(); readers++; } break;
        case 4: if (writer) { c.desc << "unlock "; l.unlock(); writer = false; } break;
        case 5: if (readers) { c.desc << "unlock_shared "; l.unlock_shared(); readers--; } break;
        case 6:
            if (guards.size() && s.flip()) { c.desc << "~guard "; guards.erase(guards.begin() + s.draw(guards.size() - 1)); }
            else if (!writer) { c.desc << "guard "; guards.emplace_back(new Pothos::Util::SpinLockRW::SharedLock(l)); }
            break;
        case 7:
            c.desc << "spin.try ";
            if (spin) { PBT_CHECK(!eventually([&]{ return sp.try_lock(); }), "SpinLock::try_lock succeeded while held"); refused++; }
            else { PBT_CHECK(eventually([&]{ return sp.try_lock(); }), "SpinLock::try_lock refused on a free lock"); spin = true; }
            break;
        default: if (spin) { c.desc << "spin.unlock "; sp.unlock(); spin = false; } else { c.desc << "spin.lock "; sp.lock(); spin = true; } break;
        }
        maxReaders = std::max<unsigned>(maxReaders, readers + guards.size());
    }
    guards.clear();
    c.nontrivial = refused > 0 && maxReaders > 1;
    if (maxReaders > 1) c.tag("shared-readers");
    if (refused) c.tag("refused");
}

struct Step { int op; int work; };

// threads run generated scripts; guarded plain data must stay consistent
static void rwThreads(Case &c)
{
    auto &s = c.s;
    const size_t nt = size_t(s.range(2, 6));
    const bool useSpin = s.chance(1, 3);
    std::vector<std::vector<Step>> scripts(nt);
    const int reps = int(s.range(5, 60));
    for (auto &sc : scripts)
    {
        const size_t n = size_t(s.range(2, 8));
        for (size_t i = 0; i < n; i++) { Step st; st.op = int(s.draw(4)); st.work = int(s.small(0, 60)); sc.push_back(st); }
        c.desc << "T["; for (auto &x : sc) c.desc << x.op << ":" << x.work << " "; c.desc << "] ";
    }
    c.desc << "x" << reps << (useSpin ? " spin" : " rw");

    Pothos::Util::SpinLockRW rw; Pothos::Util::SpinLock sp;
    // plain guarded data
    long a = 0, b = 0; long data[8] = {0};
    std::atomic<int> writersIn(0), readersIn(0), bad(0), sharedSeen(0), ready(0);
    std::vector<long> expected(nt, 0);
    auto body = [&](size_t t)
    {
        ready++;
        while (ready.load() < int(nt)) std::this_thread::yield();
        for (int r = 0; r < reps; r++) for (auto &st : scripts[t])
        {
            auto write = [&](void)
            {
                // relaxed: the checkers must not add the ordering that the lock has to provide
                if (writersIn.fetch_add(1, std::memory_order_relaxed) != 0 || readersIn.load(std::memory_order_relaxed) != 0) bad.store(1, std::memory_order_relaxed);
                a++;
                for (int w = 0; w < st.work; w++) data[w & 7] = a;
                for (int w = 0; w < 8; w++) data[w] = a;
                b++;
                expected[t]++;
                writersIn.fetch_sub(1, std::memory_order_relaxed);
            };
            auto read = [&](void)
            {
                if (readersIn.fetch_add(1, std::memory_order_relaxed) > 0) sharedSeen.store(1, std::memory_order_relaxed);
                if (writersIn.load(std::memory_order_relaxed) != 0) bad.store(2, std::memory_order_relaxed);
                const long v = a;
                if (b != v) bad.store(3, std::memory_order_relaxed);
                for (int w = 0; w < 8 + st.work; w++) if (data[w & 7] != v) bad.store(4, std::memory_order_relaxed);
                if (a != v) bad.store(5, std::memory_order_relaxed);
                readersIn.fetch_sub(1, std::memory_order_relaxed);
            };
            if (useSpin)
            {
                if (st.op & 1) { std::lock_guard<Pothos::Util::SpinLock> g(sp); write(); }
                else if (sp.try_lock()) { write(); sp.unlock(); }
                continue;
            }
            switch (st.op)
            {
            case 0: { std::lock_guard<Pothos::Util::SpinLockRW> g(rw); write(); } break;
            case 1: { Pothos::Util::SpinLockRW::SharedLock g(rw); read(); } break;
            case 2: if (rw.try_lock()) { write(); rw.unlock(); } break;
            case 3: if (rw.try_lock_shared()) { read(); rw.unlock_shared(); } break;
            default: rw.lock_shared(); read(); rw.unlock_shared(); break;
            }
        }
    };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++) ts.emplace_back(body, t);
    for (auto &t : ts) t.join();
    long total = 0; for (auto e : expected) total += e;
    PBT_CHECK(bad.load() == 0, "exclusion violated, kind " << bad.load());
    PBT_CHECK(a == total && b == total, "guarded counter " << a << "," << b << " want " << total);
    c.nontrivial = total > 0;
    if (sharedSeen.load()) c.tag("readers-coexisted");
}

struct Shm { std::atomic<int> inside, bad, entries, started, held; };

// file locks held by threads of this process and by forked processes
static void fileLock(Case &c)
{
    auto &s = c.s;
    static Shm *shm = (Shm *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm->inside = 0; shm->bad = 0; shm->entries = 0; shm->started = 0; shm->held = 0;
    const std::string path = scratchDir() + "/lock";
    const size_t procs = size_t(s.range(0, 2)), threads = size_t(s.range(1, 3));
    struct Op { int kind, hold; };
    std::vector<std::vector<Op>> scripts(procs + threads);
    int wantEntries = 0;
    for (size_t p = 0; p < scripts.size(); p++)
    {
        const size_t n = size_t(s.range(1, 8));
        for (size_t i = 0; i < n; i++)
        {
            Op o; o.kind = int(s.draw(4)); o.hold = int(s.small(0, 200));
            scripts[p].push_back(o);
            wantEntries++;
        }
        c.desc << (p < procs ? "P[" : "T["); for (auto &o : scripts[p]) c.desc << o.kind << ":" << o.hold << " "; c.desc << "] ";
    }
    const int total = int(scripts.size());
    auto run = [&](size_t p)
    {
        shm->started++;
        while (shm->started.load() < total) std::this_thread::yield();
        std::unique_ptr<Pothos::Util::FileLock> l(new Pothos::Util::FileLock(path));
        for (auto &o : scripts[p])
        {
            if (o.kind == 3) l->unlock(); // unlock of an unlocked lock: no effect
            l->lock();
            if (o.kind == 1) l->lock(); // repeated lock: no effect
            if (shm->inside.fetch_add(1) != 0) shm->bad = 1;
            shm->entries++;
            for (volatile int w = 0; w < o.hold; w = w + 1) { if (shm->inside.load() != 1) shm->bad = 2; if (w % 50 == 0) std::this_thread::yield(); }
            if (shm->inside.fetch_sub(1) != 1) shm->bad = 3;
            if (o.kind == 2) l.reset(new Pothos::Util::FileLock(path)); // released by destruction
            else l->unlock();
            if (o.kind == 4) { l->unlock(); l.reset(new Pothos::Util::FileLock(path)); }
        }
    };
    std::vector<pid_t> pids;
    for (size_t p = 0; p < procs; p++)
    {
        const pid_t pid = fork();
        if (pid == 0) { try { run(p); } catch (...) { shm->bad = 4; } _exit(0); }
        pids.push_back(pid);
    }
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; t++) ts.emplace_back([&, t](void) { try { run(procs + t); } catch (...) { shm->bad = 5; } });
    for (auto &t : ts) t.join();
    for (auto p : pids) { int st; waitpid(p, &st, 0); }
    PBT_CHECK(shm->bad.load() == 0, "file lock exclusion violated, kind " << shm->bad.load());
    PBT_CHECK(shm->entries.load() == wantEntries, "entries " << shm->entries.load() << " want " << wantEntries);
    c.nontrivial = total > 1;
    c.tag(procs ? "processes" : "threads-only");
}

// one lock held: a second one on the same path must wait until it is released
static void fileLockBlocks(Case &c)
{
    auto &s = c.s;
    const std::string path = scratchDir() + "/lockb";
    const bool byDtor = s.flip();
    const bool again = s.flip();
    const bool samePath = !s.chance(1, 4);
    c.desc << "release by " << (byDtor ? "destruction" : "unlock") << (again ? ", locked twice" : "") << (samePath ? "" : ", other path");
    std::unique_ptr<Pothos::Util::FileLock> a(new Pothos::Util::FileLock(path));
    a->lock(); if (again) a->lock();
    std::atomic<bool> got(false);
    std::thread t([&](void) { Pothos::Util::FileLock b(samePath ? path : path + "2"); b.lock(); got = true; });
    if (samePath)
    {
        const auto end = nowS() + 0.003;
        while (nowS() < end) { if (got) break; std::this_thread::yield(); }
        const bool g = got;
        if (byDtor) a.reset(); else a->unlock();
        t.join();
        PBT_CHECK(!g, "second file lock acquired while the first was held");
    }
    else t.join(); // must not wait for the other path
    PBT_CHECK(got, "never acquired");
    c.nontrivial = true;
}

PBT_MAIN("C28", {{"rw_model", 40, rwModel}, {"rw_threads", 20, rwThreads, true}, {"file_lock", 10, fileLock, true}, {"file_lock_blocks", 1, fileLockBlocks, true}})
