// C30 waiting for GPU streams: the driver's completion callback wakes exactly the waiting fiber, with the stream's status
#include "common.h"
#include <deque>
#include <functional>
#include <map>
#include <set>
#include "gpu/cuda.h"
#include "gpu/hip/hip_runtime.h"
// the headers include <cuda.h> and <hip/hip_runtime.h>
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>

// The driver: streams are small numbers. Registration may be refused; a completed stream's callback runs on a driver thread, possibly before the registration returns.
struct Driver {
    struct Job { int st; std::function<void()> call; };
    std::mutex m; std::condition_variable c; std::deque<Job> q[4]; int refuse[4] = {}, status[4] = {}, registered[4] = {}, called[4] = {}; bool gate[4] = {}; bool quit{ false }; int nth; std::vector<std::thread> th;
    explicit Driver(int threads) : nth(threads) {}
    void start() { for (int i = 0; i < nth; ++i) th.emplace_back([this, i] { std::unique_lock<std::mutex> l(m); for (;;) { if (!q[i].empty() && !gate[q[i].front().st]) { Job j = std::move(q[i].front()); q[i].pop_front(); ++called[j.st]; l.unlock(); j.call(); l.lock(); continue; } if (quit && q[i].empty()) return; c.wait(l); } }); }
    void open(int st) { { std::unique_lock<std::mutex> l(m); gate[st] = false; } c.notify_all(); }
    int add(int st, std::function<void()> f) { std::unique_lock<std::mutex> l(m); ++registered[st]; if (refuse[st]) return refuse[st]; q[st % nth].push_back(Job{ st, std::move(f) }); l.unlock(); c.notify_all(); return 0; }
    void stop() { { std::unique_lock<std::mutex> l(m); quit = true; } c.notify_all(); for (auto& t : th) t.join(); }
};
static Driver* drv;
template<typename S> static S stream(int i) { return reinterpret_cast<S>((uintptr_t)(i + 1) * 64); }
template<typename S> static int number(S s) { uintptr_t v = reinterpret_cast<uintptr_t>(s); MC_CHECKF(v >= 64 && v % 64 == 0 && v / 64 <= 4, "a stream handle was damaged"); return (int)(v / 64) - 1; }
cudaError_t cudaStreamAddCallback(cudaStream_t s, cudaStreamCallback_t cb, void* p, unsigned int f) { MC_CHECK(f == 0); int i = number(s); Driver* d = drv; return (cudaError_t)d->add(i, [=] { cb(s, (cudaError_t)d->status[i], p); }); }
hipError_t hipStreamAddCallback(hipStream_t s, hipStreamCallback_t cb, void* p, unsigned int f) { MC_CHECK(f == 0); int i = number(s); Driver* d = drv; return (hipError_t)d->add(i, [=] { cb(s, (hipError_t)d->status[i], p); }); }
struct Cuda { typedef cudaStream_t S; typedef cudaError_t E; template<typename... A> static auto wait(A... a) { return bf::cuda::waitfor_all(a...); } };
struct Hip { typedef hipStream_t S; typedef hipError_t E; template<typename... A> static auto wait(A... a) { return bf::hip::waitfor_all(a...); } };
static int const codes[] = { 0, 719, 1 };
static void scribble() { volatile char b[2048]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)i; }   // the memory of the finished rendezvous is used for something else
template<typename G> static void single(Driver& d, int st) {
    int want = d.refuse[st] ? d.refuse[st] : d.status[st]; bool refused = d.refuse[st];
    auto r = G::wait(stream<typename G::S>(st)); 
    { std::unique_lock<std::mutex> l(d.m); MC_CHECKF(refused || d.called[st] == 1, "the wait for a stream ended before its work was finished"); MC_CHECKF(d.registered[st] == 1, "%d callbacks were registered", d.registered[st]); }
    scribble(); MC_CHECKF(number(std::get<0>(r)) == st, "the wait returned another stream"); MC_CHECKF((int)std::get<1>(r) == want, "stream status %d was reported as %d", want, (int)std::get<1>(r)); mc::outcome("%d", want);
}
template<typename G, typename... I> static void many(Driver& d, I... st) {
    std::vector<int> list{ st... }; std::set<int> uniq(list.begin(), list.end());
    auto r = G::wait(stream<typename G::S>(st)...);
    { std::unique_lock<std::mutex> l(d.m); for (int s : uniq) { MC_CHECKF(d.refuse[s] || d.called[s] >= 1, "the wait ended before stream %d was finished", s); MC_CHECKF(d.registered[s] >= 1, "no callback was registered for stream %d", s); } }
    scribble(); std::map<int, int> got; for (auto& t : r) { int s = number(std::get<0>(t)); MC_CHECKF(uniq.count(s), "an unknown stream was returned"); MC_CHECKF(!got.count(s), "a stream was returned twice"); got[s] = (int)std::get<1>(t); mc::outcome("%d:%d", s, got[s]); }
    for (int s : uniq) { int want = d.refuse[s] ? d.refuse[s] : d.status[s]; MC_CHECKF(got.count(s), "stream %d was not returned", s); MC_CHECKF(got[s] == want, "status %d of stream %d was reported as %d", want, s, got[s]); }
}
static void pick(Driver& d, int st, bool refusal) { d.status[st] = codes[mc::choose(2)]; if (refusal && mc::choose(2)) d.refuse[st] = 1; }

// one stream, waited for by the main fiber, a launched fiber whose stack is freed at once, or a thread
template<typename G> static void s_single(int who) {
    Driver d(1); drv = &d; pick(d, 0, true); d.start();
    if (who == 0) single<G>(d, 0);
    else if (who == 1) { bf::fiber f(mc::choose(2) ? bf::launch::dispatch : bf::launch::post, [&] { single<G>(d, 0); }); f.join(); }
    else { std::thread t([&] { single<G>(d, 0); }); t.join(); }
    d.stop();
}
// the stream is not finished before another fiber of the same thread has run: only the caller may be suspended
template<typename G> static void s_only_caller(bool more) {
    Driver d(1); drv = &d; pick(d, 0, false); pick(d, 1, false); d.gate[0] = d.gate[1] = true; d.start(); int ran = 0;
    bf::fiber w([&] { if (more) many<G>(d, 0, 1); else single<G>(d, 0); MC_CHECKF(ran == 2, "the waiting fiber kept others from running"); });
    bf::fiber o([&] { ++ran; tf::yield(); ++ran; d.open(0); if (more) d.open(1); });
    w.join(); o.join(); d.stop();
}
// two fibers each wait for their own stream; one driver thread or two
template<typename G> static void s_two(int drivers, bool threads) {
    Driver d(drivers); drv = &d; pick(d, 0, mc::thorough()); pick(d, 1, true); d.start();
    if (threads) { std::thread t([&] { single<G>(d, 0); }); single<G>(d, 1); t.join(); }
    else { bf::fiber a([&] { single<G>(d, 0); }), b([&] { single<G>(d, 1); }); a.join(); b.join(); }
    d.stop();
}
// several streams in one wait; some refused
template<typename G> static void s_many(int n, int drivers, bool infiber) {
    Driver d(drivers); drv = &d; for (int i = 0; i < n; ++i) pick(d, i, true); d.start();
    auto go = [&] { if (n == 2) { if (mc::choose(2)) many<G>(d, 1, 0); else many<G>(d, 0, 1); } else many<G>(d, 2, 0, 1); };
    if (infiber) { bf::fiber f(go); f.join(); } else go();
    d.stop();
}
template<typename G> static void s_same() { Driver d(1); drv = &d; pick(d, 0, true); pick(d, 1, false); d.start(); int k = mc::choose(2); if (k) many<G>(d, 0, 0); else many<G>(d, 1, 0, 1); d.stop(); }
#define BOTH(NAME, WHAT, OPTS, BODY) \
    MC_SCENARIO(C30, cuda_##NAME, "CUDA: " WHAT, OPTS) { typedef Cuda G; BODY; } \
    MC_SCENARIO(C30, hip_##NAME, "HIP: " WHAT, OPTS) { typedef Hip G; BODY; }
#define OQT(Q, T) o.quick = Q; o.thorough = T; o.spurious = true
BOTH(single_main, "the main fiber waits for one stream", OQT(3, 6), s_single<G>(0))
BOTH(single_fiber, "a launched fiber waits for one stream", OQT(3, 5), s_single<G>(1))
BOTH(single_thread, "the main fiber of another thread waits for one stream", OQT(3, 5), s_single<G>(2))
BOTH(only_caller, "other fibers run while one waits", OQT(3, 5), s_only_caller<G>(mc::choose(2)))
BOTH(two_fibers, "two fibers wait for a stream each", OQT(1, 3), s_two<G>(1 + mc::choose(2), false))
BOTH(two_threads, "two threads wait for a stream each", OQT(2, 3), s_two<G>(1, true))
BOTH(many2_main, "one wait for two streams", OQT(3, 5), s_many<G>(2, 1, false))
BOTH(many2_fiber, "one wait for two streams in a launched fiber", OQT(2, 4), s_many<G>(2, 1, true))
BOTH(many2_drivers, "one wait for two streams that two driver threads complete", OQT(1, 3), s_many<G>(2, 2, mc::choose(2)))
BOTH(many3, "one wait for three streams", OQT(1, 3), s_many<G>(3, 1 + mc::choose(2), false))
BOTH(same, "the same stream twice in one wait", OQT(2, 4), s_same<G>())
