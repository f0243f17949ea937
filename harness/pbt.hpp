// Property-based testing engine: choice-sequence generation with integrated shrinking.
//
// Every random decision of a case is one "choice" drawn from Src, so a case is a vector of
// integers; shrinking edits that vector and re-runs the property; a replay file stores it.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <json.hpp>

namespace pbt {

using json = nlohmann::json;

struct Fail : std::runtime_error
{
    Fail(const std::string &m, bool live = false): std::runtime_error(m), liveness(live) {}
    bool liveness;
};

[[noreturn]] inline void fail(const std::string &m, bool live = false) { throw Fail(m, live); }

#define PBT_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream pbt_os_; \
    pbt_os_ << msg; throw pbt::Fail(pbt_os_.str() + "  [" #cond "]"); } } while (0)
#define PBT_FAIL(msg) do { std::ostringstream pbt_os_; pbt_os_ << msg; throw pbt::Fail(pbt_os_.str()); } while (0)

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
inline double nowS(void)
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Memory shared with the supervisor: which case runs right now, and the choices made so far.
struct Status
{
    static const size_t MAXC = 1 << 16;
    volatile uint64_t caseIdx, subIdx, startMs, active, n;
    uint64_t choices[MAXC];
};

struct Src
{
    std::vector<uint64_t> choices; // recorded
    std::vector<uint64_t> input;   // replayed
    bool replay = false;
    uint64_t state = 0;
    Status *status = nullptr;

    explicit Src(uint64_t seed): state(seed) {}
    explicit Src(const std::vector<uint64_t> &in): input(in), replay(true) {}

    uint64_t raw(void) { state += 0x9e3779b97f4a7c15ull; return mix(state); }

    void record(uint64_t v)
    {
        if (status && choices.size() < Status::MAXC)
        {
            status->choices[choices.size()] = v;
            status->n = choices.size() + 1;
        }
        choices.push_back(v);
    }

    //! uniform in [0, max]; 0 is the simplest value
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if (replay)
        {
            v = choices.size() < input.size() ? input[choices.size()] : 0;
            if (v > max) v = max;
        }
        else v = (max == ~0ull) ? raw() : raw() % (max + 1);
        record(v);
        return v;
    }
    //! like draw, but random mode uses the supplied biased value
    uint64_t drawBiased(uint64_t max, const std::function<uint64_t(Src &)> &f)
    {
        uint64_t v;
        if (replay)
        {
            v = choices.size() < input.size() ? input[choices.size()] : 0;
            if (v > max) v = max;
        }
        else v = std::min(f(*this), max);
        record(v);
        return v;
    }

    //! uniform integer in [lo, hi]; shrinks to lo
    long long range(long long lo, long long hi) { return lo + (long long)draw(uint64_t(hi - lo)); }
    //! integer in [lo, hi] biased to small offsets (log-uniform); shrinks to lo
    long long small(long long lo, long long hi)
    {
        const uint64_t max = uint64_t(hi - lo);
        return lo + (long long)drawBiased(max, [max](Src &s)
        {
            unsigned bits = 0; while (bits < 64 && (max >> bits)) bits++;
            const unsigned b = unsigned(s.raw() % (bits + 1));
            const uint64_t mask = b >= 64 ? ~0ull : ((1ull << b) - 1);
            const uint64_t v = s.raw() & mask;
            return v > max ? s.raw() % (max + 1) : v;
        });
    }
    //! true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den)
    {
        return drawBiased(1, [=](Src &s) { return uint64_t((s.raw() % den) < num); }) != 0;
    }
    bool flip(void) { return chance(1, 2); }
    template <typename T> const T &pick(const std::vector<T> &v) { return v.at(draw(v.size() - 1)); }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
    //! weighted choice of an index
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0; for (auto x : w) total += x;
        std::vector<unsigned> ws(w);
        return size_t(drawBiased(ws.size() - 1, [=](Src &s)
        {
            unsigned r = unsigned(s.raw() % total);
            for (size_t i = 0; i < ws.size(); i++) { if (r < ws[i]) return uint64_t(i); r -= ws[i]; }
            return uint64_t(0);
        }));
    }
};

struct Case
{
    explicit Case(Src &s): s(s) {}
    Src &s;
    std::ostringstream desc;      // human readable rendering of the generated case
    bool nontrivial = false;      // set by the property according to its stated rule
    std::set<std::string> tags;   // classification
    std::map<std::string, uint64_t> counts;
    void tag(const std::string &t) { tags.insert(t); }
    void count(const std::string &t, uint64_t n = 1) { counts[t] += n; }
};

struct Sub
{
    std::string name;
    unsigned weight;              // share of the cases
    std::function<void(Case &)> fn;
    bool racy = false;            // outcome may depend on thread timing
};

struct Result { bool failed = false, liveness = false; std::string msg; };

inline Result runCase(const Sub &sub, Src &src, Case &c)
{
    Result r;
    try { sub.fn(c); }
    catch (const Fail &ex) { r.failed = true; r.liveness = ex.liveness; r.msg = ex.what(); }
    catch (const std::exception &ex)
    {
        r.failed = true;
        r.msg = std::string("unexpected exception: ") + typeid(ex).name() + ": " + ex.what();
        if (auto f = std::getenv("PBT_WHAT")) (void)f;
    }
    return r;
}

// Optional hook to render library exceptions with their full text.
inline std::function<std::string(void)> &describeCurrentException(void)
{
    static std::function<std::string(void)> f;
    return f;
}

inline Result runCaseDesc(const Sub &sub, Src &src, Case &c)
{
    Result r;
    try { sub.fn(c); }
    catch (const Fail &ex) { r.failed = true; r.liveness = ex.liveness; r.msg = ex.what(); }
    catch (...)
    {
        r.failed = true;
        r.msg = "unexpected exception: ";
        if (describeCurrentException()) r.msg += describeCurrentException()();
        else try { throw; } catch (const std::exception &ex) { r.msg += ex.what(); } catch (...) { r.msg += "?"; }
    }
    return r;
}

// Candidate simplifications of a choice vector, in the order they should be tried.
inline std::vector<std::vector<uint64_t>> shrinkCandidates(const std::vector<uint64_t> &c, size_t limit)
{
    std::vector<std::vector<uint64_t>> out;
    const size_t n = c.size();
    for (size_t k = n; k >= 1 && out.size() < limit; k /= 2)
    {
        for (size_t i = 0; i + k <= n && out.size() < limit; i += (k > 1 ? k / 2 : 1))
        {
            auto d = c; d.erase(d.begin() + i, d.begin() + i + k); out.push_back(d);
        }
        if (k == 1) break;
    }
    for (size_t k = 8; k >= 1; k /= 2)
    {
        for (size_t i = 0; i + k <= n && out.size() < limit; i += k)
        {
            bool any = false; auto d = c;
            for (size_t j = i; j < i + k; j++) { if (d[j]) any = true; d[j] = 0; }
            if (any) out.push_back(d);
        }
        if (k == 1) break;
    }
    for (size_t i = 0; i < n && out.size() < limit; i++)
    {
        if (c[i] > 1) { auto d = c; d[i] = c[i] / 2; out.push_back(d); }
        if (c[i] > 0) { auto d = c; d[i] = c[i] - 1; out.push_back(d); }
    }
    return out;
}

inline std::vector<uint64_t> shrink(const Sub &sub, std::vector<uint64_t> best, std::string &msg,
    std::string &desc, double budgetS, Status *st, unsigned reps)
{
    const double end = nowS() + budgetS;
    size_t attempts = 0;
    auto fails = [&](const std::vector<uint64_t> &cand, std::vector<uint64_t> &used) -> bool
    {
        for (unsigned r = 0; r < reps; r++)
        {
            Src s(cand); s.status = st;
            Case c(s);
            if (st) st->startMs = uint64_t(nowS() * 1000);
            const auto res = runCaseDesc(sub, s, c);
            attempts++;
            if (res.failed && !res.liveness)
            {
                used = s.choices; msg = res.msg; desc = c.desc.str(); return true;
            }
        }
        return false;
    };
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
    {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    while (progress && nowS() < end && attempts < 20000)
    {
        progress = false;
        const size_t n = best.size();
        // delete blocks
        for (size_t k = n; k >= 1; k /= 2)
        {
            for (size_t i = 0; i + k <= best.size() && nowS() < end;)
            {
                auto d = best; d.erase(d.begin() + i, d.begin() + i + k);
                std::vector<uint64_t> used;
                if (fails(d, used))
                {
                    if (used.size() > d.size()) used.resize(d.size()); // trailing implicit zeros
                    best = d; if (better(used, best)) best = used;
                    progress = true;
                }
                else i += std::max<size_t>(1, k / 2);
            }
            if (k == 1) break;
        }
        // zero blocks and minimise values
        for (size_t k = 8; k >= 1; k /= 2)
        {
            for (size_t i = 0; i + k <= best.size() && nowS() < end; i += k)
            {
                bool any = false; auto d = best;
                for (size_t j = i; j < i + k; j++) { if (d[j]) any = true; d[j] = 0; }
                std::vector<uint64_t> used;
                if (any && fails(d, used)) { best = d; progress = true; }
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && nowS() < end; i++)
        {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && nowS() < end)
            {
                const uint64_t mid = lo + (hi - lo) / 2;
                auto d = best; d[i] = mid;
                std::vector<uint64_t> used;
                if (fails(d, used)) { hi = mid; best = d; progress = true; }
                else lo = mid + 1;
            }
        }
    }
    // final run to leave msg/desc describing the minimal case
    std::vector<uint64_t> used;
    fails(best, used);
    return best;
}

inline int harnessMain(int argc, char **argv, const std::string &id, const std::vector<Sub> &subs)
{
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, double d) { return opt.count(k) ? std::stod(opt[k]) : d; };

    unsigned total = 0;
    for (auto &s : subs) total += s.weight;

    Status *st = nullptr;
    if (opt.count("--status"))
    {
        const int fd = open(opt["--status"].c_str(), O_RDWR | O_CREAT, 0644);
        if (ftruncate(fd, sizeof(Status)) != 0) return 3;
        st = (Status *)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (st == MAP_FAILED) return 3;
    }

    if (mode == "list")
    {
        for (auto &s : subs) std::cout << s.name << " " << s.weight << " " << s.racy << std::endl;
        return 0;
    }
    if (mode == "replay")
    {
        std::ifstream f(opt["--file"]);
        const json j = json::parse(f);
        const int times = int(num("--times", 1));
        for (auto &sub : subs)
        {
            if (sub.name != j["sub"].get<std::string>()) continue;
            for (int t = 0; t < times; t++)
            {
                Src s(j["choices"].get<std::vector<uint64_t>>());
                s.status = st;
                if (st) { st->startMs = uint64_t(nowS() * 1000); st->active = 1; }
                Case c(s);
                const auto r = runCaseDesc(sub, s, c);
                if (st) st->active = 0;
                if (opt.count("--verbose") || r.failed)
                {
                    std::cout << "CASE " << c.desc.str() << std::endl;
                }
                if (r.failed)
                {
                    json o; o["msg"] = r.msg; o["desc"] = c.desc.str(); o["liveness"] = r.liveness;
                    if (opt.count("--out")) std::ofstream(opt["--out"]) << o.dump(-1, ' ', false, json::error_handler_t::replace);
                    std::cout << "FAIL " << r.msg << std::endl;
                    std::cout.flush();
                    _exit(1);
                }
            }
            std::cout << "PASS" << std::endl;
            std::cout.flush();
            _exit(0);
        }
        return 3;
    }
    if (mode != "worker") { std::cerr << "usage: worker|replay|list" << std::endl; return 3; }

    const uint64_t seed = uint64_t(num("--seed", 1));
    const uint64_t start = uint64_t(num("--start", 0)), stride = uint64_t(num("--stride", 1)), cases = uint64_t(num("--cases", 100));
    const double secs = num("--secs", 60);
    const double shrinkS = num("--shrink", 30);
    const std::string only = opt.count("--sub") ? opt["--sub"] : "";
    const double t0 = nowS();

    uint64_t evals = 0, nontriv = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> tags, counts, perSub;
    std::map<std::string, std::vector<std::string>> samples;
    json failJ;
    bool capped = false;
    for (uint64_t i = start; i < cases; i += stride)
    {
        if (nowS() - t0 > secs) { capped = true; break; }
        unsigned w = unsigned((i + i / total) % total); // rotate so that every worker meets every sub
        size_t si = 0;
        while (w >= subs[si].weight) { w -= subs[si].weight; si++; }
        const auto &sub = subs[si];
        if (!only.empty() && sub.name != only) continue;
        Src s(mix(mix(seed) ^ mix(i * 7919 + 13) ^ hashStr(id + "/" + sub.name)));
        s.status = st;
        if (st)
        {
            st->n = 0; st->caseIdx = i; st->subIdx = si;
            st->startMs = uint64_t(nowS() * 1000); st->active = 1;
        }
        Case c(s);
        const auto r = runCaseDesc(sub, s, c);
        evals++; perSub[sub.name]++;
        for (auto &t : c.tags) tags[sub.name + ":" + t]++;
        for (auto &p : c.counts) counts[sub.name + ":" + p.first] += p.second;
        if (c.nontrivial)
        {
            nontriv++;
            uint64_t h = hashStr(sub.name);
            for (auto v : s.choices) h = mix(h ^ v) + v;
            distinct.insert(h);
            auto &sm = samples[sub.name];
            if (sm.size() < 2 || (sm.size() < 4 && (evals % 97) == 0)) sm.push_back(c.desc.str().substr(0, 1500));
        }
        if (r.failed)
        {
            failJ["sub"] = sub.name; failJ["liveness"] = r.liveness; failJ["racy"] = sub.racy;
            failJ["original"] = r.msg;
            std::string msg = r.msg, desc = c.desc.str();
            auto best = s.choices;
            if (!r.liveness)
            {
                // only shrink from the recorded choices if they reproduce the failure
                best = shrink(sub, best, msg, desc, shrinkS, st, sub.racy ? 8 : 1);
            }
            failJ["msg"] = msg; failJ["desc"] = desc; failJ["choices"] = best;
            failJ["caseIdx"] = i; failJ["seed"] = seed;
            break;
        }
    }
    if (st) st->active = 0;
    json o;
    o["evaluations"] = evals; o["nontrivial"] = nontriv; o["tags"] = tags; o["counts"] = counts; o["perSub"] = perSub;
    o["samples"] = samples; o["capped"] = capped; o["wall"] = nowS() - t0;
    o["hashes"] = std::vector<uint64_t>(distinct.begin(), distinct.end());
    if (!failJ.is_null()) o["fail"] = failJ;
    if (opt.count("--out"))
    {
        std::ofstream f(opt["--out"] + ".tmp");
        f << o.dump(-1, ' ', false, json::error_handler_t::replace);
        f.close();
        std::rename((opt["--out"] + ".tmp").c_str(), opt["--out"].c_str());
    }
    else std::cout << o.dump(1, ' ', false, json::error_handler_t::replace) << std::endl;
    std::cout.flush();
    _exit(0); // skip static destruction: not part of any property
}

} // namespace pbt

#define PBT_MAIN(id, ...) int main(int argc, char **argv) { \
    return pbt::harnessMain(argc, argv, id, std::vector<pbt::Sub> __VA_ARGS__); }
