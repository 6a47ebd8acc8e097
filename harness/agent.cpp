// SOURCES: src/parsec/agent/impl.cpp src/parsec/agent/interface.cpp src/parsec/agent/runners/interface.cpp
// LIBS: common serialization crypto
// FLAGS: -fno-access-control -O1
// Oracle: an independent account of what was asked, answered and reported, in order.  Broker and runner are mocks which answer at once or later,
// in any order, fail, refuse to start, wound; the caller runs the agent again after every report that is not final.
#include "h.hpp"
#include "parsec/agent/impl.hpp"
#include <deque>
#include <map>
using namespace cbdc; using namespace cbdc::parsec;
namespace rl = cbdc::parsec::runtime_locking_shard;
using BI = broker::interface; using BE = BI::error_code; using AE = agent::interface::error_code; using RI = agent::runner::interface; using RE = RI::error_code; using LT = broker::lock_type; using ST = agent::impl::state;
static buffer B(const std::string& s) { buffer b; if(!s.empty()) b.append(s.data(), s.size()); return b; }
static std::string S(const buffer& b) { return std::string((const char*)b.data(), b.size()); }
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal, false);
enum class ph { start, begin, func, relock, run, commit, rollback, finish, report, done };
static const char* PH[] = {"start", "begin", "function", "relock", "run", "commit", "rollback", "finish", "report", "done"};
struct world {
    vh::rng& r; std::deque<std::pair<int, std::function<void()>>> q; unsigned faults; size_t steps{0};
    bool ro; std::string fn; LT init; std::shared_ptr<secp256k1_context> secp; std::shared_ptr<thread_pool> pool;
    ph next{ph::start}; bool awaiting{false}; uint64_t ticket{0}, tickets{100}; bool perm{false}; AE why{}; std::optional<AE> expect; std::optional<std::map<std::string, std::string>> ran; bool committed{false}, wounded{false}, told{false}, restarted{false}; size_t attempt{0};
    std::map<std::string, LT> req, saved; size_t relock_out{0}, relock_sent{0}; bool commit_wounded{false}; std::string code; agent::impl* a{nullptr};
    explicit world(vh::rng& x) : r(x) {}
    bool fault() { return steps++ < 60 && r.chance(faults); }
    void later(int kind, std::function<void()> f) { if(r.chance(45)) f(); else q.emplace_back(kind, std::move(f)); }
    void expecting(ph p, const char* what) { vh::check(!awaiting, std::string(what) + " while another request is unanswered"); vh::check(next == p, std::string(what) + " when the next step is: " + PH[(int)next]); }
    void transient() { next = ph::rollback; perm = false; } void permanent(AE e) { next = ph::rollback; perm = true; why = e; }
    void flush_locks() { for(bool again = true; again;) { again = false; for(auto it = q.begin(); it != q.end(); it++) if(it->first == 1) { auto f = std::move(it->second); q.erase(it); f(); again = true; break; } } }
};
struct mock : BI {
    world& w; explicit mock(world& x) : w(x) {}
    bool begin(begin_callback_type cb) override {
        w.expecting(ph::begin, "begin"); vh::log("begin");
        if(w.fault()) { w.next = ph::report; w.expect = AE::broker_unreachable; return false; }
        w.awaiting = true; w.later(0, [this, cb] { w.awaiting = false; if(w.fault()) { vh::log("begin: error"); w.next = ph::report; w.expect = AE::ticket_number_assignment; cb(BE::ticket_number_assignment); return; }
            w.ticket = w.tickets++; vh::logf("begin: ticket", w.ticket); begun(); cb(w.ticket); }); return true;
    }
    void begun() { w.attempt++; w.wounded = false; w.ran.reset(); if((w.ro && w.fn.empty()) || w.fn.size() == 1) { w.code = w.fn; start_run(); } else w.next = ph::func; }
    void start_run() { w.saved = std::move(w.req); w.req.clear(); w.relock_out = w.relock_sent = 0; w.next = w.saved.empty() ? ph::run : ph::relock; }
    bool try_lock(uint64_t t, broker::key_type key, LT lt, try_lock_callback_type cb) override {
        auto k = S(key); vh::logf("try_lock", k, (int)lt); vh::check(t == w.ticket, "locks are taken for the ticket");
        vh::check(!w.ro || lt == LT::read, "a read-only run takes no write lock");
        if(w.next == ph::func) {
            w.expecting(ph::func, "the function's lock"); vh::check(k == w.fn, "the function is retrieved by its key"); vh::check(lt == (w.ro ? LT::read : w.init), "the function is locked as the runner asks");
            if(w.fault()) { w.transient(); return false; }
            w.awaiting = true;
            w.later(0, [this, cb] { w.awaiting = false; if(w.fault()) switch(w.r.below(3)) { case 0: vh::log("function: broker error"); w.transient(); cb(w.r.chance(50) ? BE::shard_unreachable : BE::prepared); return;
                    case 1: vh::log("function: wounded"); w.transient(); cb(rl::shard_error{rl::error_code::wounded, std::nullopt}); return; default: vh::log("function: shard error"); w.permanent(AE::function_retrieval); cb(rl::shard_error{rl::error_code::not_prepared, std::nullopt}); return; }
                vh::log("function: code"); w.code = "code" + std::to_string(w.ticket); start_run(); cb(B(w.code)); });
            return true;
        }
        vh::check(!w.wounded, "a wounded ticket requests no more locks");
        vh::check(w.next == ph::relock || w.next == ph::run, std::string("locks are requested only while the function runs, next step: ") + PH[(int)w.next]);
        auto again = w.next == ph::relock; if(again) { auto it = w.saved.find(k); vh::check(it != w.saved.end() && it->second == lt, "a lock held before the restart is taken again as it was"); vh::check(!w.req.contains(k), "a lock is taken again once"); w.relock_sent++; }
        auto& x = w.req[k]; if(lt == LT::write) x = lt;
        if(w.fault()) { if(again) w.transient(); return false; }
        if(again) w.relock_out++;
        auto n = w.attempt; w.later(1, [this, cb, again, k, n] {
            if(n != w.attempt || w.next == ph::rollback) { vh::logf("lock: too late", k); cb(BE::unknown_ticket); return; }
            if(again) { w.relock_out--; if(w.relock_out == 0 && (w.wounded || w.relock_sent == w.saved.size())) w.next = ph::run; }
            if(w.fault()) { if(w.r.chance(70)) { vh::logf("lock: wounded", k); w.wounded = true; w.commit_wounded = true; if(again && w.relock_out == 0) w.next = ph::run; cb(rl::shard_error{rl::error_code::wounded, std::nullopt}); } else { vh::logf("lock: error", k); cb(w.r.chance(50) ? try_lock_return_type{BE::prepared} : try_lock_return_type{rl::shard_error{rl::error_code::prepared, std::nullopt}}); } return; }
            vh::logf("lock: value", k); cb(B("v" + k)); });
        return true;
    }
    bool commit(uint64_t t, broker::state_update_type u, commit_callback_type cb) override {
        w.expecting(ph::commit, "commit"); vh::logf("commit", u.size()); vh::check(t == w.ticket, "the ticket is committed"); vh::check(w.ran.has_value(), "commit only after the function ran");
        std::map<std::string, std::string> m; for(auto& [k, v] : u) m[S(k)] = S(v); if(w.ro) vh::check(m.empty(), "a read-only run commits nothing"); else vh::check(m == *w.ran, "commit carries exactly the run's updates");
        if(w.fault()) { w.transient(); return false; }
        w.awaiting = true; w.later(0, [this, cb] { w.awaiting = false;
            if(w.commit_wounded) { vh::log("commit: wounded"); w.transient(); cb(rl::shard_error{rl::error_code::wounded, std::nullopt}); return; }
            if(w.fault()) switch(w.r.below(4)) { case 0: vh::log("commit: hazard"); w.permanent(AE::commit_error); cb(BE::commit_hazard); return; case 1: vh::log("commit: broker error"); w.transient(); cb(w.r.chance(50) ? BE::prepare_error : BE::shard_unreachable); return;
                case 2: vh::log("commit: wounded"); w.transient(); cb(rl::shard_error{rl::error_code::wounded, std::nullopt}); return; default: vh::log("commit: shard error"); w.permanent(AE::commit_error); cb(rl::shard_error{rl::error_code::lock_not_held, std::nullopt}); return; }
            vh::log("commit: done"); w.committed = true; w.next = ph::finish; cb(std::nullopt); });
        return true;
    }
    bool finish(uint64_t t, finish_callback_type cb) override {
        w.expecting(ph::finish, "finish"); vh::log("finish"); vh::check(t == w.ticket, "the ticket is finished");
        if(w.fault()) { w.next = ph::report; w.expect = AE::broker_unreachable; return false; }
        w.awaiting = true; w.later(0, [this, cb] { w.awaiting = false; w.next = ph::report; if(w.fault()) { vh::log("finish: error"); w.expect = AE::finish_error; cb(BE::finish_error); return; } vh::log("finish: done"); w.expect.reset(); w.told = true; cb(std::nullopt); });
        return true;
    }
    bool rollback(uint64_t t, rollback_callback_type cb) override {
        w.expecting(ph::rollback, "rollback"); vh::log("rollback"); vh::check(t == w.ticket, "the ticket is rolled back"); vh::check(!w.committed, "a committed ticket is not rolled back");
        if(w.fault()) { w.next = ph::report; w.expect = AE::broker_unreachable; return false; }
        w.awaiting = true; w.later(0, [this, cb] { w.flush_locks(); w.awaiting = false; if(w.fault()) { vh::log("rollback: error"); w.next = ph::report; w.expect = AE::rollback_error; if(w.r.chance(50)) cb(BE::rollback_error); else cb(rl::error_code::not_prepared); return; }
            vh::log("rollback: done"); w.commit_wounded = false; if(w.perm) w.next = ph::finish; else { w.next = ph::report; w.expect = AE::retry; } cb(std::nullopt); });
        return true;
    }
    bool recover(recover_callback_type) override { return false; }
    uint64_t highest_ticket() override { return w.tickets; }
};
struct script { world& w; std::vector<std::pair<std::string, LT>> locks; size_t at{0}; RI::run_callback_type done; RI::try_lock_callback_type lock; uint64_t n; bool over{false};
    void end(RI::run_return_type res) {
        vh::check(!over, "mock runner ends once"); over = true;
        if(w.attempt != n) return;
        if(res.index() == 0) { std::map<std::string, std::string> m; for(auto& [k, v] : std::get<0>(res)) m[S(k)] = S(v); w.ran = m; w.next = ph::commit; } else if(std::get<RE>(res) == RE::wounded) w.transient(); else w.permanent(AE::function_execution);
        w.awaiting = false; vh::logf("run:", res.index() == 0 ? "updates" : "failed"); done(res);
    } };
static void go(const std::shared_ptr<script>& s) {
    if(s->at == s->locks.size()) {
        s->w.later(0, [s] { if(s->w.fault()) { static const RE es[] = {RE::result_value_type, RE::exec_error, RE::internal_error, RE::function_load, RE::yield_count, RE::wounded}; s->end(es[s->w.r.below(6)]); return; }
            rl::state_update_type u; if(!s->w.ro || s->w.r.chance(50)) for(auto& [k, lt] : s->locks) if(lt == LT::write || s->w.r.chance(20)) u[B(k)] = B("new" + std::to_string(s->w.r.below(9))); s->end(u); });
        return;
    }
    auto [k, lt] = s->locks[s->at++];
    auto ok = s->lock(B(k), lt, [s](BI::try_lock_return_type res) { if(s->over) return; if(res.index() == 0) { go(s); return; }
        auto wd = std::holds_alternative<rl::shard_error>(res) && std::get<rl::shard_error>(res).m_error_code == rl::error_code::wounded; s->end(wd ? RE::wounded : RE::lock_error); });
    if(!ok && !s->over) { vh::logf("lock refused", k); s->end(RE::internal_error); }
}
struct runner_mock : RI {
    world& w; std::shared_ptr<script> s; bool refuse;
    runner_mock(world& x, std::shared_ptr<logging::log> l, const parsec::config& c, buffer f, buffer p, bool ro, run_callback_type cb, try_lock_callback_type lk, std::shared_ptr<secp256k1_context> sc, std::shared_ptr<thread_pool> tp, uint64_t t)
        : RI(l, c, f, p, ro, cb, lk, sc, tp, t), w(x) {
        w.expecting(ph::run, "the function is run"); vh::check(w.relock_out == 0, "the function runs only after the locks held before were answered"); vh::check(S(f) == w.code, "the runner gets the function retrieved"); vh::check(S(p) == "param", "the runner gets the parameter"); vh::check(ro == w.ro, "the runner knows whether the run is read-only"); vh::check(t == w.ticket, "the runner gets the ticket");
        vh::check(sc == w.secp, "the runner gets the context"); vh::check(tp == (w.restarted ? nullptr : w.pool), "restarted functions run on their own thread");
        s = std::make_shared<script>(script{w, {}, 0, cb, lk, w.attempt}); auto n = w.r.below(4); for(size_t i = 0; i < n; i++) s->locks.emplace_back("k" + std::to_string(w.r.below(4)), w.r.chance(w.ro ? 90 : 50) ? LT::read : LT::write); refuse = w.fault();
    }
    bool run() override { vh::log("run"); if(refuse) { w.transient(); return false; } w.awaiting = true; go(s); return true; }
};
static void one(vh::rng& r) {
    world w(r); w.faults = (unsigned)r.below(35); w.ro = r.chance(25); w.fn = r.chance(10) ? "" : r.chance(10) ? "E" : "function"; w.init = r.chance(50) ? LT::read : LT::write;
    auto br = std::make_shared<mock>(w); w.pool = r.chance(50) ? std::make_shared<thread_pool>() : nullptr;
    std::function<void()> exec; size_t finals = 0; std::unique_ptr<agent::impl> a;
    auto callback = [&](agent::interface::exec_return_type res) {
        vh::logf("report", res.index() == 0 ? std::string("updates") : "error " + std::to_string((int)std::get<AE>(res)));
        vh::check(!w.awaiting, "reported while a request is unanswered"); vh::check(w.next == ph::report, std::string("reported when the next step is: ") + PH[(int)w.next]);
        if(w.told) {
            finals++; vh::check(finals == 1, "the outcome is reported once"); w.next = ph::done;
            if(w.committed) { vh::check(res.index() == 0, "a committed ticket is reported as such"); std::map<std::string, std::string> m; for(auto& [k, v] : std::get<0>(res)) m[S(k)] = S(v); vh::check(m == *w.ran, "what is reported is what the run produced"); }
            else vh::check(res.index() == 1 && std::get<AE>(res) != AE::retry, "a permanent failure is reported as such");
            vh::check(w.a->get_state() == ST::finish_complete, "finished when the outcome is reported"); return;
        }
        vh::check(res.index() == 1, "success is reported only once the ticket is committed and finished"); vh::check(w.expect == std::get<AE>(res), "the report says what failed");
        auto rb = w.expect == AE::rollback_error, fe = w.expect == AE::finish_error, bu = w.expect == AE::broker_unreachable; (void)rb; (void)fe; (void)bu;
        w.expect.reset(); auto st = w.a->get_state();
        w.next = st == ST::begin_failed ? ph::begin : st == ST::rollback_failed ? ph::rollback : st == ST::finish_failed ? ph::finish : ph::start;
        if(w.next == ph::start) { vh::check(st == ST::rollback_complete, "reported in a state from which the agent can go on"); w.restarted = true; br->begun(); }
        if(r.chance(10)) exec(); else w.q.emplace_back(2, exec);
    };
    a = std::make_unique<agent::impl>(logger, parsec::config{}, [&](auto l, const parsec::config& c, auto f, auto p, auto ro, auto cb, auto lk, auto sc, auto tp, auto t) -> std::unique_ptr<RI> { return std::make_unique<runner_mock>(w, l, c, f, p, ro, cb, lk, sc, tp, t); },
        br, B(w.fn), B("param"), callback, w.init, w.ro, w.secp, w.pool);
    w.a = a.get(); exec = [&] { vh::log("exec"); vh::check(a->exec(), "exec starts"); };
    vh::check(a->get_state() == ST::init && !a->get_ticket_number(), "a new agent has done nothing"); w.next = ph::begin; exec();
    for(size_t n = 0; !w.q.empty(); n++) { vh::check(n < 5000, "the agent gets somewhere"); auto i = w.r.below(w.q.size()); auto f = std::move(w.q[i].second); w.q.erase(w.q.begin() + (long)i); f(); }
    vh::check(finals == 1, std::string("the agent reports an outcome, last step: ") + PH[(int)w.next]);
    vh::check(a->get_ticket_number() == w.ticket, "the ticket is known");
    if(r.chance(30)) { exec(); vh::check(finals == 1 && w.q.empty(), "a finished agent does nothing more"); }
}
int main(int c, char** v) { return vh::main_loop(c, v, one); }
