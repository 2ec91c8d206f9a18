// C28 NUMA topology reflects exactly what the system reports
#include "common.h"
#include "fakefs.h"
#include <boost/fiber/numa/pin_thread.hpp>
#include <boost/fiber/numa/topology.hpp>
#include <map>
#include <set>
#include <system_error>
namespace fs = fakefs; namespace nu = bf::numa;

// a system description and its rendering as the kernel shows it
struct Sys {
    std::vector<int> cpus, node, nodes;       // present CPUs, node of each, present nodes (may include nodes without a CPU)
    std::vector<bool> online; bool nodeinfo{ true }; std::map<int, std::vector<int>> dist;
};
static std::string list(std::vector<int> const& v, int style) {   // 0 ranges, 1 singles, 2 pairs as ranges, 3 ranges with a blank after the comma
    std::string r; 
    for (size_t i = 0; i < v.size();) {
        size_t j = i; if (style != 1) while (j + 1 < v.size() && v[j + 1] == v[j] + 1 && (style != 2 || j == i)) ++j;
        if (!r.empty()) r += style == 3 ? ", " : ",";
        r += std::to_string(v[i]); if (j > i) r += "-" + std::to_string(v[j]);
        i = j + 1;
    }
    return r;
}
static void cpudir(int c) { std::string p = fs::sys("cpu/cpu" + std::to_string(c)); fs::mkdirs(p + "/topology"); fs::mkdirs(p + "/cache"); fs::write(p + "/topology/physical_package_id", "0\n"); fs::link("../../../../firmware/x", p + "/firmware_node"); fs::link("../../../../bus/cpu", p + "/subsystem"); }
static void build(Sys const& s, int style, bool nl, bool onlinefile = true) {
    std::string base = fs::sys("");
    fs::remove();
    fs::mkdirs(fs::sys("cpu")); 
    std::vector<int> on; for (size_t i = 0; i < s.cpus.size(); ++i) if (s.online[i]) on.push_back(s.cpus[i]);
    if (onlinefile) fs::write(fs::sys("cpu/online"), list(on, style) + (nl ? "\n" : ""));
    fs::write(fs::sys("cpu/present"), list(s.cpus, 0) + "\n"); fs::write(fs::sys("cpu/possible"), list(s.cpus, 0) + "\n");
    for (int c : s.cpus) cpudir(c);
    if (!s.nodeinfo) return;
    for (int n : s.nodes) {
        std::string p = fs::sys("node/node" + std::to_string(n)); fs::mkdirs(p); std::vector<int> own;
        for (size_t i = 0; i < s.cpus.size(); ++i) if (s.node[i] == n) { if (s.online[i]) own.push_back(s.cpus[i]);
            fs::link("../../cpu/cpu" + std::to_string(s.cpus[i]), p + "/cpu" + std::to_string(s.cpus[i]));
            fs::link("../../node/node" + std::to_string(n), fs::sys("cpu/cpu" + std::to_string(s.cpus[i]) + "/node" + std::to_string(n))); }
        fs::write(p + "/cpulist", list(own, 0) + "\n"); fs::write(p + "/meminfo", "Node 0 MemTotal: 1 kB\n");
        auto d = s.dist.find(n); if (d != s.dist.end()) { std::string l; for (int x : d->second) l += (l.empty() ? "" : " ") + std::to_string(x); fs::write(p + "/distance", l + (nl ? "\n" : "")); }
    }
    fs::write(fs::sys("node/online"), list(s.nodes, 0) + "\n"); fs::write(fs::sys("node/possible"), list(s.nodes, 0) + "\n");
}
static std::string show(std::vector<nu::node> const& t) {
    std::string r; for (auto& n : t) { r += "node " + std::to_string(n.id) + " {"; for (auto c : n.logical_cpus) r += " " + std::to_string(c); r += " } distance {"; for (auto d : n.distance) r += " " + std::to_string(d); r += " }; "; } return r;
}
static void expect(Sys const& s, std::string const& what) {
    std::vector<nu::node> t = nu::topology();
    std::map<int, std::set<uint32_t>> want;
    for (size_t i = 0; i < s.cpus.size(); ++i) if (s.online[i]) want[s.nodeinfo ? s.node[i] : 0].insert(s.cpus[i]);
    auto no = [&](char const* why) { mc::fail("topology() %s: %s for %s", why, show(t).c_str(), what.c_str()); };
    if (t.size() != want.size()) no("reports a wrong number of nodes");
    std::set<int> seen;
    for (auto& n : t) {
        if (!want.count(n.id) || !seen.insert(n.id).second) no("reports a wrong node");
        if (n.logical_cpus != want[n.id]) no("reports wrong CPUs");
        auto d = s.dist.find(n.id);
        if (s.nodeinfo && d != s.dist.end() && !std::equal(n.distance.begin(), n.distance.end(), d->second.begin(), d->second.end())) no("reports a wrong distance list");
    }
}
static std::string describe(Sys const& s, int style) {
    std::vector<int> on; for (size_t i = 0; i < s.cpus.size(); ++i) if (s.online[i]) on.push_back(s.cpus[i]);
    std::string r = "online '" + list(on, style) + "'"; if (s.nodeinfo) for (size_t i = 0; i < s.cpus.size(); ++i) r += " cpu" + std::to_string(s.cpus[i]) + ":node" + std::to_string(s.node[i]); else r += " without nodes"; return r;
}
static std::vector<int> const numbering[] = { { 0, 1, 2, 3 }, { 0, 2, 9, 10 }, { 1, 10, 64, 130 }, { 0, 1, 11, 12 }, { 7, 8, 9, 10 } };
static std::vector<int> const nodeids[] = { { 0, 1 }, { 0, 2 }, { 3, 10 }, { 1, 12 } };

MC_SCENARIO(C28, maps, "every online subset of 4 CPUs x CPU and node numbering x CPU-to-node map x spelling of the list", o.quick = 0; o.thorough = 0) {
    Sys s; s.cpus = numbering[mc::choose(mc::thorough() ? 5 : 3)]; auto ids = nodeids[mc::choose(mc::thorough() ? 4 : 3)]; int on = 1 + mc::choose(15), map = mc::choose(16), style = mc::choose(4);
    s.nodes = ids; for (int i = 0; i < 4; ++i) { s.online.push_back(on >> i & 1); s.node.push_back(ids[map >> i & 1]); }
    s.dist[ids[0]] = { 10, 21 }; s.dist[ids[1]] = { 21, 10 };
    build(s, style, true); expect(s, describe(s, style)); mc::outcome("%d", on);
}
MC_SCENARIO(C28, distances, "distance lists (three nodes, one of them without CPUs), lists missing, files without a final newline", o.quick = 0; o.thorough = 0) {
    Sys s; s.cpus = numbering[mc::choose(3)]; int lonely = mc::choose(3), on = 1 + mc::choose(15), order = mc::choose(4), gone = mc::choose(4); bool nl = mc::choose(2); int style = mc::choose(2);
    s.nodes = order == 0 ? std::vector<int>{ 0, 1, 2 } : order == 1 ? std::vector<int>{ 0, 4, 9 } : order == 2 ? std::vector<int>{ 1, 2, 11 } : std::vector<int>{ 8, 9, 10 };
    for (int i = 0, k = 0; i < 4; ++i) { s.online.push_back(on >> i & 1); int n = k++ % 2; if (n >= lonely) n++; s.node.push_back(s.nodes[n]); }
    int d[3][3] = { { 10, 16, 255 }, { 17, 10, 32 }, { 254, 100, 10 } };
    for (int n = 0; n < 3; ++n) if (gone != n) s.dist[s.nodes[n]].assign(d[n], d[n] + 3);
    build(s, style, nl); expect(s, describe(s, style)); mc::outcome("%d", lonely);
}
MC_SCENARIO(C28, nonodes, "no node information: all online CPUs form node 0", o.quick = 0; o.thorough = 0) {
    Sys s; s.cpus = numbering[mc::choose(5)]; s.nodeinfo = false; int on = 1 + mc::choose(15), style = mc::choose(4); bool nl = mc::choose(2);
    for (int i = 0; i < 4; ++i) { s.online.push_back(on >> i & 1); s.node.push_back(0); }
    build(s, style, nl); expect(s, describe(s, style)); mc::outcome("%d", on);
}
MC_SCENARIO(C28, noonline, "the list of online CPUs is missing or empty", o.quick = 0; o.thorough = 0) {
    Sys s; s.cpus = numbering[mc::choose(5)]; s.nodeinfo = mc::choose(2); bool file = mc::choose(2), nl = mc::choose(2); s.nodes = { 0 }; s.dist[0] = { 10 };
    for (int i = 0; i < 4; ++i) { s.online.push_back(false); s.node.push_back(0); }
    build(s, 0, nl, file);
    try { auto t = nu::topology(); MC_CHECKF(t.empty(), "topology() reports %s without a list of online CPUs", show(t).c_str()); }
    catch (std::exception const& e) { mc::fail("topology() throws (%s) although the list of online CPUs is just %s", e.what(), file ? "empty" : "missing"); }
}
MC_SCENARIO(C28, large, "longer lists: every split of 12 CPUs into online runs", o.quick = 0; o.thorough = 0) {
    Sys s; int on = mc::choose(64) * 64 + mc::choose(64), off = 92 * mc::choose(2), style = mc::choose(2); s.nodes = { 0, 1, 2, 3 }; if (!on) mc::discard();
    for (int i = 0; i < 12; ++i) { s.cpus.push_back(i + off); s.online.push_back(on >> i & 1); s.node.push_back(i / 3); }
    for (int n = 0; n < 4; ++n) s.dist[n] = { 10 + n, 20, 30, 40 };
    build(s, style, true); expect(s, describe(s, style)); 
}
// the same question asked again after CPUs went on- or offline: no stale answer
MC_SCENARIO(C28, again, "two queries with a change in between", o.quick = 0; o.thorough = 0) {
    Sys s; s.cpus = numbering[0]; s.nodes = { 0, 1 }; s.dist[0] = { 10, 20 }; s.dist[1] = { 20, 10 };
    for (int round = 0; round < 2; ++round) {
        int on = 1 + mc::choose(15), cut = mc::choose(3); s.online.clear(); s.node.clear();
        for (int i = 0; i < 4; ++i) { s.online.push_back(on >> i & 1); s.node.push_back(i > cut); }
        build(s, 0, true); expect(s, describe(s, 0));
    }
}

// pin_thread
static void pinned(int k, uint64_t thread, int cpu, int err, int before) {
    bool bad = cpu >= 1024;   // does not fit into the mask the system accepts
    MC_CHECKF(k == (err ? err : bad ? EINVAL : 0), "pin_thread(%d) with system error %d reports %d", cpu, err, k);
    if (bad && mc::affinity_count() == before) return;
    MC_CHECKF(mc::affinity_count() == before + 1, "pin_thread made %d affinity calls", mc::affinity_count() - before);
    auto a = mc::affinity_get(before);
    MC_CHECKF(a.thread == thread, "pin_thread bound another thread");
    MC_CHECKF(bad ? a.cpus == 0 : a.cpus == 1 && a.cpu == cpu, "pin_thread(%d) bound %d CPUs, lowest %d", cpu, a.cpus, a.cpu);
}
template<typename F> static int code(F&& f) { try { f(); return 0; } catch (std::system_error const& e) { MC_CHECK(e.code().category() == std::system_category() || e.code().category() == std::generic_category()); MC_CHECK(e.code().value() != 0); return e.code().value(); } }
MC_SCENARIO(C28, pin, "pin_thread: own and other thread, every CPU number up to the limit and beyond, every error", o.quick = 1; o.thorough = 2) {
    static int const edge[] = { 0, 1, 2, 31, 32, 63, 64, 127, 128, 129, 255, 256, 512, 1022, 1023, 1024, 1025, 4096, 65536 }; static int const errs[] = { 0, EINVAL, ESRCH, EPERM, EFAULT };
    int cpu = edge[mc::choose(19)], err = errs[mc::choose(5)], who = mc::choose(4);
    uint64_t self = 0, target = 0; int before = mc::affinity_count();
    if (who == 0) { self = (uint64_t)pthread_self(); mc::affinity_fail(err); int k = code([&] { nu::pin_thread(cpu); }); pinned(k, self, cpu, err, before); }
    else if (who == 1) { self = (uint64_t)pthread_self(); mc::affinity_fail(err); int k = code([&] { nu::pin_thread(cpu, pthread_self()); }); pinned(k, self, cpu, err, before); }
    else if (who == 2) { std::thread t([] {}); target = (uint64_t)t.native_handle(); mc::affinity_fail(err); int k = code([&] { nu::pin_thread(cpu, t.native_handle()); }); pinned(k, target, cpu, err, before); t.join(); }
    else { std::thread t([&] { mc::affinity_fail(err); int k = code([&] { nu::pin_thread(cpu); }); pinned(k, (uint64_t)pthread_self(), cpu, err, before); }); t.join(); }
    mc::outcome("%d", who);
}
MC_SCENARIO(C28, pin_all, "pin_thread: every CPU number from 0 to 1100", o.quick = 0; o.thorough = 0) { int cpu = mc::choose(11) * 100 + mc::choose(100); int before = mc::affinity_count(); int k = code([&] { nu::pin_thread(cpu); }); pinned(k, (uint64_t)pthread_self(), cpu, 0, before); }
// lazily initialised parts of the C++ library (locale facets, ...) are set up before the first execution
static bool const warm = [] { if (!getenv("MC_SCRATCH")) return false; Sys s; s.cpus = { 0 }; s.node = { 0 }; s.nodes = { 0 }; s.online = { true }; s.dist[0] = { 10 }; build(s, 0, true); nu::topology(); fs::remove(); return true; }();
