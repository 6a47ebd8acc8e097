// SOURCES:
// LIBS: common
// FLAGS: -pthread
// Oracle: a std::deque / sorted list for one thread; for several threads: every item delivered once, each producer's items in order, nobody left blocked.
#include "h.hpp"
#include "util/common/blocking_queue.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
using namespace cbdc;
static std::atomic<uint64_t> beat{0}; static std::atomic<bool> armed{false};
static void watchdog() {
    std::thread([] { uint64_t last = 0; unsigned same = 0; for(;;) { std::this_thread::sleep_for(std::chrono::milliseconds(250)); if(armed && beat == last) { if(++same >= 40) vh::fail("a consumer stays blocked although an item is there or the queue was cleared"); } else same = 0; last = beat; } }).detach();
}
template<class Q, class Top> static void sequential(vh::rng& r, Top top) {
    Q q; std::vector<size_t> m; bool cleared = false; unsigned ops = 2 + (unsigned)r.below(30);
    for(unsigned o = 0; o < ops; o++) {
        beat++; unsigned w = (unsigned)r.below(10);
        if(w < 4) { size_t x = r.below(6); vh::logf("push", x); m.push_back(x); auto n = q.push(x); vh::check(n == m.size(), "push returns the number of items"); }
        else if(w < 8) { if(m.empty() && !cleared) continue; vh::logf("pop"); size_t x = 999; bool ok = q.pop(x); vh::check(ok == !m.empty(), "pop succeeds exactly when there is an item"); if(ok) { auto i = top(m); vh::check(*i == x, "the first item comes out"); m.erase(i); } }
        else if(w < 9) { vh::logf("clear"); q.clear(); m.clear(); cleared = true; }
        else if(cleared) { vh::logf("reset"); q.reset(); cleared = false; }
    }
}
static void threads(vh::rng& r) {
    unsigned P = 1 + (unsigned)r.below(3), C = 1 + (unsigned)r.below(4), N = 1 + (unsigned)r.below(40); bool slow = r.chance(30); vh::logf("threads", P, C, N, slow);
    auto q = std::make_unique<blocking_queue<size_t>>(); std::vector<std::vector<size_t>> got(C); std::vector<std::thread> ts; std::atomic<size_t> total{0}; std::atomic<unsigned> ended{0};
    for(unsigned c = 0; c < C; c++) ts.emplace_back([&, c] { size_t x{}; while(q->pop(x)) { got[c].push_back(x); total++; beat++; if(slow) std::this_thread::yield(); } ended++; });
    if(slow) std::this_thread::sleep_for(std::chrono::microseconds(200));
    std::vector<std::thread> ps; for(unsigned p = 0; p < P; p++) ps.emplace_back([&, p] { for(unsigned i = 0; i < N; i++) { q->push(p * 1000 + i); if(slow && i % 5 == 0) std::this_thread::yield(); } });
    for(auto& t : ps) t.join();
    while(total < P * N) std::this_thread::yield();
    bool again = r.chance(50); q->clear(); if(again) q->push(77777); // a late producer during shutdown
    for(auto& t : ts) t.join();
    beat++; std::vector<size_t> all;
    for(auto& g : got) { std::vector<long> last(P, -1); for(auto x : g) { if(x == 77777) continue; all.push_back(x); vh::check((long)(x % 1000) > last[x / 1000], "a consumer sees each producer's items in order"); last[x / 1000] = (long)(x % 1000); } }
    std::sort(all.begin(), all.end()); vh::check(all.size() == P * N && std::adjacent_find(all.begin(), all.end()) == all.end(), "every item is delivered exactly once");
}
static void waiters(vh::rng& r) { // consumers blocked first, then a burst of pushes: each item releases one of them
    unsigned C = 1 + (unsigned)r.below(4), N = (unsigned)r.below(C + 1); vh::logf("waiters", C, N);
    blocking_queue<size_t> q; std::atomic<unsigned> got{0}, none{0}; std::vector<std::thread> ts;
    for(unsigned c = 0; c < C; c++) ts.emplace_back([&] { size_t x{}; if(q.pop(x)) got++; else none++; });
    std::this_thread::sleep_for(std::chrono::milliseconds(2)); for(unsigned i = 0; i < N; i++) q.push(i);
    while(got < N) std::this_thread::yield();
    q.clear(); for(auto& t : ts) t.join(); beat++;
    vh::check(got == N && none == C - N, "each item goes to one consumer, clear releases the others");
}
static void one(vh::rng& r) {
    static bool started = (watchdog(), true); (void)started; armed = true; beat++;
    sequential<blocking_queue<size_t>>(r, [](auto& m) { return m.begin(); });
    sequential<blocking_priority_queue<size_t, std::greater<>>>(r, [](auto& m) { return std::min_element(m.begin(), m.end()); });
    sequential<blocking_priority_queue<size_t>>(r, [](auto& m) { return std::max_element(m.begin(), m.end()); });
    if(r.chance(20)) threads(r);
    if(r.chance(20)) waiters(r);
}
int main(int c, char** v) { return vh::main_loop(c, v, one); }
