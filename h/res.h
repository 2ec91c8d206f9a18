// Resource accounting: stack allocators and payloads that know who owns them.
#ifndef H_RES_H
#define H_RES_H
#include "common.h"
#include <boost/context/stack_context.hpp>
#include <cstdlib>
#include <cstring>
#include <new>

// One arena per allocator "origin": every stack must come back to the allocator it was taken from, with the same address and size.
struct Origin {
    struct Rec { char* base; size_t size; void* sp; bool live; };
    std::vector<Rec> recs; std::mutex mx; int live{ 0 }, total{ 0 }, copies{ 0 }, max_live{ 0 }; size_t size; int fail_in{ -1 };
    explicit Origin(size_t s = 32 * 1024) : size(s) { recs.reserve(16); }
    ~Origin() { MC_CHECKF(live == 0, "%d fiber stack(s) never given back to their allocator", live); }
    Origin(Origin const&) = delete;
};
template<int Kind> struct Tracked {
    typedef boost::context::stack_traits traits_type; Origin* o; int magic{ 0x5a5a + Kind };
    explicit Tracked(Origin& r) : o(&r) {}
    Tracked(Tracked const& t) : o(t.o) { MC_CHECKF(t.magic == 0x5a5a + Kind, "a dead stack allocator was copied"); }
    Tracked& operator=(Tracked const&) = delete;
    ~Tracked() { MC_CHECKF(magic == 0x5a5a + Kind, "stack allocator destroyed twice"); magic = 0; }
    boost::context::stack_context allocate() {
        MC_CHECKF(magic == 0x5a5a + Kind, "a dead stack allocator was used");
        std::unique_lock<std::mutex> lk(o->mx);
        if (o->fail_in >= 0 && o->fail_in-- == 0) throw std::bad_alloc();
        char* p = static_cast<char*>(std::malloc(o->size)); if (!p) throw std::bad_alloc();
        boost::context::stack_context s; s.size = o->size; s.sp = p + o->size;
        o->recs.push_back({ p, o->size, s.sp, true }); ++o->live; ++o->total; if (o->live > o->max_live) o->max_live = o->live; mc::log("stack %p allocated (kind %d)", (void*)p, Kind);
        return s;
    }
    void deallocate(boost::context::stack_context& s) noexcept {
        MC_CHECKF(magic == 0x5a5a + Kind, "a dead stack allocator was used");
        char here; char* p = nullptr;
        { std::unique_lock<std::mutex> lk(o->mx);
          for (auto& r : o->recs) if (r.sp == s.sp && r.live) { p = r.base; MC_CHECKF(r.size == s.size, "a stack was given back with another size (%zu, not %zu)", s.size, r.size); r.live = false; }
          MC_CHECKF(p, "a stack was given back to an allocator that it does not come from, or twice"); --o->live; }
        MC_CHECKF(!(&here >= p && &here < p + s.size), "a stack was released while running on it");
        mc::log("stack %p released", (void*)p); std::free(p);
    }
};
// A payload owned by a callable or argument. reg(slot) counts owners alive.
struct Pay {
    int slot; bool own; int* canary;
    explicit Pay(int s) : slot(s), own(true), canary(new int(7)) { ++mc::reg(slot); }
    Pay(Pay const& o) : slot(o.slot), own(o.own), canary(o.own ? new int(7) : nullptr) { if (own) ++mc::reg(slot); }
    Pay(Pay&& o) noexcept : slot(o.slot), own(o.own), canary(o.canary) { o.own = false; o.canary = nullptr; }
    Pay& operator=(Pay const&) = delete;
    ~Pay() { if (own) { MC_CHECKF(*canary == 7, "payload damaged"); *canary = 0; delete canary; MC_CHECKF(--mc::reg(slot) >= 0, "payload released twice"); own = false; } }
    void use() const { MC_CHECKF(own && *canary == 7, "a function object or argument is used after it was released"); }
};
#endif
