// C12: shared, circular and file-mapped buffers.
#include "common.hpp"
#include <Pothos/Framework/SharedBuffer.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <sys/stat.h>
using namespace pbt;
using Pothos::SharedBuffer;

static uint8_t *mem(const SharedBuffer &b) { return reinterpret_cast<uint8_t *>(b.getAddress()); }

static void checkSub(Case &c, const SharedBuffer &parent, const size_t span)
{
    // span: valid bytes counted from the parent's address
    auto &s = c.s;
    const size_t a = parent.getAddress();
    size_t off, len;
    switch (s.draw(3))
    {
    case 0: off = size_t(s.range(0, span)); len = size_t(s.range(0, span)); break;
    case 1: off = size_t(s.range(0, span)); len = span - off + size_t(s.range(0, 2)) - (s.flip() && span > off ? 1 : 0); break;
    case 2: off = size_t(-s.range(1, 100)); len = size_t(s.range(0, span)); break;
    default: off = size_t(s.range(0, span)); len = s.pick<size_t>({~size_t(0), ~size_t(0) - 1, size_t(0) - off, (size_t(0) - a) - off, size_t(1) << 63}); break;
    }
    const bool inside = off <= span && len <= span - off;
    c.desc << "sub(" << (long long)off << "," << len << ")" << (inside ? "in " : "out ");
    bool ok = false; SharedBuffer sub;
    try { sub = SharedBuffer(a + off, len, parent); ok = true; }
    catch (const Pothos::SharedBufferError &) {}
    PBT_CHECK(ok == inside, "sub-buffer offset " << (long long)off << " length " << len << " of " << span << " bytes " << (ok ? "accepted" : "rejected"));
    if (!ok) { c.tag("rejected"); return; }
    c.tag("accepted");
    PBT_CHECK(sub.getAddress() == a + off && sub.getLength() == len && sub.getEnd() == a + off + len, "sub-buffer fields");
    PBT_CHECK(sub == parent && !(sub != parent), "sub-buffer does not refer to the parent's memory");
}

static void slab(Case &c)
{
    auto &s = c.s;
    const size_t n = size_t(s.small(0, 70000));
    const long node = s.chance(1, 4) ? 0 : -1;
    c.desc << "make(" << n << ", node " << node << ") ";
    SharedBuffer b = node < 0 && s.flip() ? SharedBuffer::make(n) : SharedBuffer::make(n, node);
    PBT_CHECK(bool(b) && b.getLength() >= n && b.getAddress() != 0, "allocation length " << b.getLength());
    PBT_CHECK(b.getAlias() == 0, "plain buffer with an alias");
    PBT_CHECK(b.getAddress() % 16 == 0, "alignment of " << b.getAddress());
    for (size_t i = 0; i < b.getLength(); i++) mem(b)[i] = uint8_t(i * 7 + 1);
    PBT_CHECK(b.unique() && b.useCount() == 1, "fresh buffer not unique");
    const size_t k = size_t(s.range(1, 5));
    for (size_t i = 0; i < k; i++) checkSub(c, b, b.getLength());
    // a sub-buffer keeps the memory alive
    const size_t off = size_t(s.range(0, n)), len = size_t(s.range(0, n - off));
    SharedBuffer sub(b.getAddress() + off, len, b);
    SharedBuffer sub2(sub.getAddress(), len, sub);
    PBT_CHECK(b.useCount() == 3, "use count " << b.useCount());
    b = SharedBuffer(); sub = SharedBuffer();
    PBT_CHECK(sub2.unique(), "last reference not unique");
    for (size_t i = 0; i < len; i++) PBT_CHECK(mem(sub2)[i] == uint8_t((i + off) * 7 + 1), "content at " << i);
    PBT_CHECK(!bool(SharedBuffer()) && SharedBuffer().getLength() == 0 && !bool(SharedBuffer::null()), "null buffer");
    c.nontrivial = n > 0;
}

static void verifyCirc(Src &s, const SharedBuffer &b, const size_t want)
{
    const size_t L = b.getLength();
    PBT_CHECK(L >= want && L > 0, "circular length " << L << " want " << want);
    PBT_CHECK(b.getAlias() == b.getAddress() + L && b.getAliasOffset() == L, "alias fields");
    auto p = mem(b);
    for (size_t i = 0; i < L; i += 61) p[i] = uint8_t(i * 3 + 1);
    for (size_t i = 0; i < L; i += 61) PBT_CHECK(p[i + L] == uint8_t(i * 3 + 1), "byte " << i << " not seen through the second image");
    for (size_t k = 0; k < 8; k++)
    {
        const size_t i = size_t(s.draw(2 * L - 1)), j = i >= L ? i - L : i + L;
        const uint8_t v = uint8_t(s.range(1, 255));
        p[i] = v; PBT_CHECK(p[j] == v, "write at " << i << " not seen at " << j);
        p[j] = uint8_t(v + 1); PBT_CHECK(p[i] == uint8_t(v + 1), "write at " << j << " not seen at " << i);
    }
    // a write across the seam
    for (size_t i = L - 8; i < L + 8; i++) p[i] = uint8_t(i);
    for (size_t i = 0; i < 8; i++) PBT_CHECK(p[i] == uint8_t(L + i) && p[2 * L - 8 + i] == uint8_t(L - 8 + i), "seam");
}

static void circ(Case &c)
{
    auto &s = c.s;
    const size_t n = s.flip() ? size_t(s.small(1, 60000)) : 4096 * size_t(s.range(1, 8)) + size_t(s.range(0, 2)) - 1;
    c.desc << "makeCirc(" << n << ") ";
    SharedBuffer b = SharedBuffer::makeCirc(n, s.flip() ? -1 : 0);
    verifyCirc(s, b, n);
    const size_t L = b.getLength();
    const size_t k = size_t(s.range(1, 6));
    for (size_t i = 0; i < k; i++) checkSub(c, b, 2 * L);
    const size_t off = size_t(s.range(0, L)), len = size_t(s.range(0, L));
    for (size_t i = 0; i < L; i++) mem(b)[i] = uint8_t(i * 5 + 3);
    SharedBuffer sub(b.getAddress() + off, len, b);
    PBT_CHECK(sub.getAliasOffset() == L, "alias offset of a sub-buffer " << sub.getAliasOffset());
    if (s.flip())
    {
        // two circular buffers are independent
        SharedBuffer o = SharedBuffer::makeCirc(n);
        verifyCirc(s, o, n);
    }
    b = SharedBuffer();
    for (size_t i = 0; i < len; i++) PBT_CHECK(mem(sub)[i] == uint8_t(((off + i) % L) * 5 + 3), "content at " << i);
    c.nontrivial = len > 0;
}

// the mapping must be right although other threads change the address space at the same time
static void circConcurrent(Case &c)
{
    auto &s = c.s;
    const size_t n = 4096 * size_t(s.range(1, 4));
    const size_t nt = size_t(s.range(1, 3)), rounds = size_t(s.range(5, 40));
    const size_t churn = 4096 * size_t(s.range(1, 8));
    c.desc << "makeCirc(" << n << ") x" << rounds << " against " << nt << " threads mapping " << churn << " bytes";
    std::atomic<bool> stop(false); std::atomic<int> bad(0);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++) ts.emplace_back([&](void)
    {
        std::vector<void *> ps(4, nullptr); size_t i = 0;
        while (!stop)
        {
            auto &p = ps[i++ % ps.size()];
            if (p) munmap(p, churn);
            p = mmap(nullptr, churn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) { p = nullptr; continue; }
            if (*(volatile int *)p != 0) bad = 1;
            *(volatile int *)p = 0x1234;
        }
        for (auto p : ps) if (p) munmap(p, churn);
    });
    std::string err;
    for (size_t r = 0; r < rounds && err.empty(); r++)
    {
        try
        {
            SharedBuffer b = SharedBuffer::makeCirc(n);
            verifyCirc(s, b, n);
        }
        catch (const Fail &ex) { err = ex.what(); }
        catch (const Pothos::SharedBufferError &) { c.count("allocation-refused"); }
    }
    stop = true;
    for (auto &t : ts) t.join();
    PBT_CHECK(err.empty(), err);
    PBT_CHECK(bad == 0, "another thread's fresh mapping was written to");
    c.nontrivial = true;
}

static size_t openFds(void) { size_t n = 0; if (DIR *d = ::opendir("/proc/self/fd")) { while (::readdir(d)) n++; ::closedir(d); } return n; }
static void fileMap(Case &c)
{
    auto &s = c.s;
    const std::string path = scratchDir() + "/mapped";
    const size_t n = size_t(s.small(1, 20000));
    std::string content(n, 0);
    const uint8_t k = uint8_t(s.range(1, 255));
    for (size_t i = 0; i < n; i++) content[i] = char(i * k + (i >> 8));
    { std::ofstream f(path, std::ios::binary); f << content; }
    const bool w = s.flip(), r = !w || s.chance(2, 3); const size_t fds = openFds();
    c.desc << "file of " << n << " bytes, " << (r ? w ? "read-write" : "read-only" : "write-only") << " ";
    {
        SharedBuffer b = SharedBuffer::makeFromFileMMap(path, r, w);
        PBT_CHECK(b.getLength() == n, "length " << b.getLength() << " want " << n); PBT_CHECK(openFds() == fds, "a file is left open");
        if (r) PBT_CHECK(std::memcmp(mem(b), content.data(), n) == 0, "mapped content differs");
        if (r) for (size_t i = 0; i < 2; i++) checkSub(c, b, n);
        const size_t off = size_t(s.range(0, n)), len = size_t(s.range(0, n - off));
        SharedBuffer sub(b.getAddress() + off, len, b), other; const bool twice = s.chance(1, 3); if (twice) other = SharedBuffer::makeFromFileMMap(path, true, s.flip());
        if (w)
        {
            const size_t at = size_t(s.draw(n - 1));
            mem(b)[at] = uint8_t(content[at] + 1); content[at] = char(content[at] + 1);
        }
        b = SharedBuffer();
        if (r) PBT_CHECK(std::memcmp(mem(sub), content.data() + off, len) == 0, "sub-buffer content after the parent is gone");
        if (twice) PBT_CHECK(std::memcmp(mem(other), content.data(), n) == 0, "another mapping of the file differs");
    }
    { std::ifstream f(path, std::ios::binary); std::string back((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); PBT_CHECK(back == content, "file content after unmapping"); }
    unlink(path.c_str());
    auto refuse = [&](const std::string &p, const char *what) { bool pothos = false; try { SharedBuffer::makeFromFileMMap(p, r, w); PBT_FAIL("mapping " << what << " did not fail"); } catch (const Pothos::Exception &) { pothos = true; } PBT_CHECK(openFds() == fds, "a failed mapping leaves a file open"); };
    switch (s.draw(3)) { case 0: refuse(path, "a missing file"); break; case 1: { { std::ofstream f(path); } refuse(path, "an empty file"); unlink(path.c_str()); break; } case 2: refuse(scratchDir(), "a directory"); break; default: refuse(path + "/below", "a file below a missing directory"); }
    c.nontrivial = n > 1;
}

// user containers: released exactly once, after the last reference
static void lifetime(Case &c)
{
    auto &s = c.s;
    struct Owner { std::vector<uint8_t> m; int *released; Owner(size_t n, int *r): m(n), released(r) {} ~Owner(void) { (*released)++; } };
    int released = 0;
    const size_t n = size_t(s.range(1, 100));
    std::vector<SharedBuffer> refs;
    {
        auto o = std::make_shared<Owner>(n, &released);
        for (size_t i = 0; i < n; i++) o->m[i] = uint8_t(i);
        refs.emplace_back(size_t(o->m.data()), n, o);
    }
    const size_t base = refs[0].getAddress();
    const size_t k = size_t(s.range(1, 30));
    for (size_t i = 0; i < k && !refs.empty(); i++)
    {
        const size_t at = size_t(s.draw(refs.size() - 1));
        switch (s.draw(4))
        {
        case 0: { c.desc << "copy "; auto r = refs[at]; refs.push_back(r); } break;
        case 1: { c.desc << "sub "; const auto p = refs[at]; const size_t off = size_t(s.range(0, p.getLength())); refs.emplace_back(p.getAddress() + off, size_t(s.range(0, p.getLength() - off)), p); } break;
        case 2: c.desc << "drop "; refs.erase(refs.begin() + at); break;
        case 3: { c.desc << "assign "; const size_t b = size_t(s.draw(refs.size() - 1)); refs[at] = refs[b]; } break;
        default: { c.desc << "move "; auto r = std::move(refs[at]); refs[at] = std::move(r); } break;
        }
        PBT_CHECK(released == (refs.empty() ? 1 : 0), "owner released " << released << " times with " << refs.size() << " references");
        for (auto &r : refs)
        {
            PBT_CHECK(r.useCount() == refs.size() && r.unique() == (refs.size() == 1), "use count " << r.useCount() << " want " << refs.size());
            for (size_t j = 0; j < r.getLength(); j++) PBT_CHECK(mem(r)[j] == uint8_t(r.getAddress() - base + j), "content");
        }
    }
    refs.clear();
    PBT_CHECK(released == 1, "owner released " << released << " times");
    c.nontrivial = k > 3;
}

// sub-buffer of a circular sub-buffer: only reachable memory may be accepted
static void circNested(Case &c)
{
    auto &s = c.s;
    SharedBuffer b = SharedBuffer::makeCirc(4096);
    const size_t L = b.getLength(), a = b.getAddress();
    const size_t off = size_t(s.range(0, L)), len = size_t(s.range(0, L));
    SharedBuffer sub(a + off, len, b);
    const size_t off2 = size_t(s.range(0, 2 * L)), len2 = size_t(s.range(0, 2 * L));
    c.desc << "sub(" << off << "," << len << ") then sub at +" << off2 << " length " << len2;
    bool ok = false;
    try { SharedBuffer sub2(sub.getAddress() + off2, len2, sub); ok = true; } catch (const Pothos::SharedBufferError &) {}
    if (off2 <= len && len2 <= len - off2) PBT_CHECK(ok, "range inside the parent rejected");
    if (off + off2 + len2 > 2 * L) PBT_CHECK(!ok, "range beyond the mapped memory accepted");
    c.nontrivial = true;
}

PBT_MAIN("C12", {{"slab", 20, slab}, {"circular", 10, circ}, {"circular_concurrent", 2, circConcurrent, true}, {"file_map", 10, fileMap}, {"lifetime", 30, lifetime}, {"circular_nested", 0, circNested}})
