// An element type that records every construction and destruction by address.
#pragma once
#include "pbt.hpp"
#include <unordered_map>

namespace pbt {

struct LiveTable
{
    std::unordered_map<const void *, int> live;
    std::string error;
    void born(const void *p)
    {
        if (live.count(p) && error.empty()) error = "element constructed over a live element";
        live[p] = 1;
    }
    void died(const void *p)
    {
        if (!live.count(p) && error.empty()) error = "element destroyed that was not alive";
        live.erase(p);
    }
    void used(const void *p)
    {
        if (!live.count(p) && error.empty()) error = "element used that was not alive";
    }
};
inline LiveTable &liveTable(void) { static LiveTable t; return t; }

struct Tracked
{
    int v; bool moved = false; int *heap;
    Tracked(void): v(-1), heap(new int(v)) { liveTable().born(this); }
    Tracked(int x): v(x), heap(new int(x)) { liveTable().born(this); }
    Tracked(int x, int y): v(x * 1000 + y), heap(new int(v)) { liveTable().born(this); }
    Tracked(const Tracked &o): v(o.get()), heap(new int(v)) { liveTable().born(this); }
    Tracked(Tracked &&o): v(o.get()), heap(o.heap) { o.heap = nullptr; o.moved = true; liveTable().born(this); }
    Tracked &operator=(const Tracked &o) { liveTable().used(this); v = o.get(); delete heap; heap = new int(v); moved = false; return *this; }
    Tracked &operator=(Tracked &&o) { liveTable().used(this); if (this == &o) return *this; v = o.get(); delete heap; heap = o.heap; o.heap = nullptr; o.moved = true; moved = false; return *this; }
    ~Tracked(void) { liveTable().died(this); delete heap; v = -777; }
    int get(void) const
    {
        liveTable().used(this);
        if (moved) return -888; // moved-from content
        return (heap && *heap == v) ? v : -999;
    }
};

} // namespace pbt
