// SOURCES: src/parsec/broker/impl.cpp
// LIBS: common serialization crypto
// FLAGS: -fno-access-control -O1
// Oracle: what the shards were asked and answered, in order.  The shards are mocks following the three-phase protocol which process requests
// first in first out, answer at once or later, fail, or are unreachable.
#include "h.hpp"
#include "parsec/broker/impl.hpp"
#include <csignal>
#include <deque>
#include <map>
#include <set>
#include <unistd.h>
using namespace cbdc;
using namespace cbdc::parsec;
namespace rl = cbdc::parsec::runtime_locking_shard;
using tn_t = uint64_t;
using EC = broker::interface::error_code;
static buffer B(const std::string& s) { buffer b; b.append(s.data(), s.size()); return b; }
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal, false);
static void onalarm(int) { std::printf("FAIL: a call never returns\nCASE: --seed %llu --case %llu\n", (unsigned long long)vh::cur_seed, (unsigned long long)vh::cur_case); for(auto& t : vh::trace()) std::printf("  | %s\n", t.c_str()); std::fflush(stdout); std::_Exit(1); }
enum class ps { begun, wounded, prepared, committed, finished, rolled };
static const char* PS[] = {"begun", "wounded", "prepared", "committed", "finished", "rolled back"};
struct world;
struct part { ps st{ps::begun}; std::map<std::string, std::string> upd; bool heard_prep{}, heard_com{}, asked_com{}, heard_roll{}; };
struct attempt { std::map<size_t, part> parts; bool com_asked{}; std::set<std::string> keys; std::map<std::string, bool> locked; };
struct mock : rl::interface {
    size_t idx; world& w; std::map<tn_t, part> T; std::deque<std::function<void()>> req, ans;
    mock(size_t i, world& x) : idx(i), w(x) {}
    void step_req(); void step_ans();
    bool submit(const std::string& what, std::function<void()> fn);
    void answer(std::function<void()> f) { ans.push_back(std::move(f)); }
    bool try_lock(tn_t t, rl::broker_id_type b, rl::key_type k, rl::lock_type ty, bool first, try_lock_callback_type cb) override;
    bool prepare(tn_t t, rl::broker_id_type b, rl::state_update_type up, prepare_callback_type cb) override;
    bool commit(tn_t t, commit_callback_type cb) override;
    bool rollback(tn_t t, rollback_callback_type cb) override;
    bool finish(tn_t t, finish_callback_type cb) override;
    bool get_tickets(rl::broker_id_type b, get_tickets_callback_type cb) override;
};
struct world {
    vh::rng& r; std::vector<std::shared_ptr<mock>> sh; unsigned sync{}, fail{}, unreach{}; unsigned depth{};
    std::map<tn_t, attempt> A; std::map<tn_t, std::map<char, int>> fly; // requests not answered yet, by ticket and kind
    bool recovering{}; std::unique_ptr<broker::impl> br;
    std::set<tn_t> must, mustnot; // recovery: to be committed / not committed
    bool idle() { for(auto& s : sh) if(!s->req.empty() || !s->ans.empty()) return false; return true; }
};
static rl::shard_error err(rl::error_code c) { rl::shard_error e; e.m_error_code = c; return e; }
bool mock::submit(const std::string& what, std::function<void()> fn) {
    if(w.unreach && w.r.chance(w.unreach)) { vh::logf("shard", idx, what, "unreachable"); return false; }
    vh::logf("shard", idx, what);
    req.push_back(std::move(fn));
    if(w.sync && w.depth < 40 && w.r.chance(w.sync)) { w.depth++; while(!req.empty()) step_req(); while(!ans.empty()) step_ans(); w.depth--; }
    return true;
}
void mock::step_req() { auto f = std::move(req.front()); req.pop_front(); f(); }
void mock::step_ans() { auto f = std::move(ans.front()); ans.pop_front(); f(); }
bool mock::try_lock(tn_t t, rl::broker_id_type, rl::key_type, rl::lock_type, bool first, try_lock_callback_type cb) {
    vh::check(!w.A[t].parts.count(idx) == first, "first_lock must tell exactly whether it is the ticket's first lock on the shard");
    w.A[t].parts[idx];
    return submit("try_lock " + std::to_string(t), [=, this, fl = w.fail && w.r.chance(w.fail)]() {
        auto& p = T[t]; if(p.st == ps::begun && fl) p.st = ps::wounded;
        vh::logf("shard", idx, "lock", t, PS[(int)p.st]);
        if(p.st == ps::begun) answer([=]() { cb(B("v")); }); else answer([=]() { cb(err(rl::error_code::wounded)); });
    });
}
bool mock::prepare(tn_t t, rl::broker_id_type bid, rl::state_update_type up, prepare_callback_type cb) {
    vh::check(bid == 7, "the broker's id goes with a prepare");
    auto& a = w.A[t];
    vh::check(a.parts.count(idx) == 1, "prepare is sent only to the ticket's shards");
    vh::check(!a.com_asked, "no shard is asked to prepare after a commit was sent");
    for(auto& [k, v] : up) { auto ks = std::string((const char*)k.data(), k.size()); vh::check(std::stoul(ks.substr(1)) % w.sh.size() == idx, "a shard is sent updates of its own keys only"); }
    w.fly[t]['p']++;
    bool ok = submit("prepare " + std::to_string(t), [=, this, n = up.size(), fl = w.fail && w.r.chance(w.fail), wo = w.r.chance(60)]() {
        auto it = T.find(t); rl::interface::prepare_return_type res;
        if(it == T.end()) res = err(rl::error_code::unknown_ticket);
        else if(it->second.st == ps::wounded) res = err(rl::error_code::wounded);
        else if(it->second.st == ps::prepared) res = err(rl::error_code::prepared);
        else if(it->second.st != ps::begun) res = err(rl::error_code::committed);
        else if(fl && wo) { it->second.st = ps::wounded; res = err(rl::error_code::wounded); }
        else if(fl) res = err(rl::error_code::internal_error);
        else it->second.st = ps::prepared;
        vh::logf("shard", idx, "handles prepare", t, it == T.end() ? "" : PS[(int)it->second.st]);
        answer([=, this]() { w.fly[t]['p']--; vh::logf("shard", idx, "answers prepare", t, res.has_value() ? "error" : "ok"); if(!res.has_value()) w.A[t].parts[idx].heard_prep = true; cb(res); });
    });
    if(!ok) w.fly[t]['p']--;
    return ok;
}
bool mock::commit(tn_t t, commit_callback_type cb) {
    auto& a = w.A[t];
    if(!w.recovering) {
        vh::check(a.parts.count(idx) == 1, "commit is sent only to the ticket's shards");
        for(auto& [s, p] : a.parts) vh::check(p.heard_prep, "a shard is asked to commit before every shard prepared");
    } else {
        vh::check(w.must.count(t), "recovery commits a ticket no shard committed");
    }
    vh::check(!a.parts[idx].heard_com, "a shard which committed is asked to commit again");
    a.com_asked = true;
    w.fly[t]['c']++;
    bool ok = submit("commit " + std::to_string(t), [=, this, fl = w.fail && w.r.chance(w.fail)]() {
        auto it = T.find(t); rl::interface::commit_return_type res;
        if(it == T.end()) res = err(rl::error_code::unknown_ticket);
        else if(it->second.st != ps::prepared) res = err(rl::error_code::not_prepared);
        else if(fl) res = err(rl::error_code::internal_error);
        else it->second.st = ps::committed;
        vh::logf("shard", idx, "handles commit", t, it == T.end() ? "" : PS[(int)it->second.st]);
        answer([=, this]() { w.fly[t]['c']--; vh::logf("shard", idx, "answers commit", t, res.has_value() ? "error" : "ok"); if(!res.has_value()) w.A[t].parts[idx].heard_com = true; cb(res); });
    });
    if(!ok) w.fly[t]['c']--;
    return ok;
}
bool mock::rollback(tn_t t, rollback_callback_type cb) {
    auto& a = w.A[t];
    vh::check(!a.com_asked, "a shard is asked to roll back a ticket which is being committed");
    if(w.recovering) vh::check(w.mustnot.count(t), "recovery rolls back a ticket some shard committed");
    w.fly[t]['r']++;
    bool ok = submit("rollback " + std::to_string(t), [=, this, fl = w.fail && w.r.chance(w.fail)]() {
        rl::interface::rollback_return_type res; auto it = T.find(t);
        if(fl) res = err(rl::error_code::internal_error);
        else if(it == T.end()) res = err(rl::error_code::unknown_ticket);
        else if(it->second.st == ps::committed) res = err(rl::error_code::committed);
        else T.erase(it);
        vh::logf("shard", idx, "handles rollback", t);
        answer([=, this]() { w.fly[t]['r']--; vh::logf("shard", idx, "answers rollback", t, res.has_value() ? "error" : "ok"); if(!res.has_value()) w.A[t].parts[idx].heard_roll = true; cb(res); });
    });
    if(!ok) w.fly[t]['r']--;
    return ok;
}
bool mock::finish(tn_t t, finish_callback_type cb) {
    auto& a = w.A[t];
    if(!w.recovering) for(auto& [s, p] : a.parts) vh::check(p.heard_com, "finish is sent before every shard committed");
    else vh::check(w.must.count(t), "recovery finishes a ticket which was not committed");
    w.fly[t]['f']++;
    bool ok = submit("finish " + std::to_string(t), [=, this, fl = w.fail && w.r.chance(w.fail)]() {
        auto it = T.find(t); rl::interface::finish_return_type res;
        if(fl) res = err(rl::error_code::internal_error);
        else if(it == T.end()) res = err(rl::error_code::unknown_ticket);
        else if(it->second.st != ps::committed) res = err(rl::error_code::not_committed);
        else it->second.st = ps::finished;
        vh::logf("shard", idx, "handles finish", t);
        answer([=, this]() { w.fly[t]['f']--; vh::logf("shard", idx, "answers finish", t, res.has_value() ? "error" : "ok"); cb(res); });
    });
    if(!ok) w.fly[t]['f']--;
    return ok;
}
bool mock::get_tickets(rl::broker_id_type bid, get_tickets_callback_type cb) {
    vh::check(bid == 7, "recovery asks for the broker's own tickets");
    return submit("get_tickets", [=, this, fl = w.fail && w.r.chance(w.fail)]() {
        if(fl) { answer([=]() { cb(rl::error_code::internal_error); }); return; }
        get_tickets_success_type m;
        for(auto& [t, p] : T) switch(p.st) { case ps::begun: m[t] = rl::ticket_state::begun; break; case ps::wounded: m[t] = rl::ticket_state::wounded; break; case ps::prepared: m[t] = rl::ticket_state::prepared; break; case ps::committed: m[t] = rl::ticket_state::committed; break; default: break; }
        vh::logf("shard", idx, "reports", m.size(), "tickets");
        answer([=]() { cb(m); });
    });
}
struct tm_mock : ticket_machine::interface { tn_t next{1}; vh::rng& r; unsigned fail{}; explicit tm_mock(vh::rng& x) : r(x) {}
    bool get_ticket_number(get_ticket_number_callback_type cb) override { if(fail && r.chance(fail)) return false; if(fail && r.chance(fail)) { cb(ticket_machine::interface::error_code{}); return true; } auto n = next; next += 3; cb(ticket_machine::interface::ticket_number_range_type{n, n + 2}); return true; } };
struct dir_mock : directory::interface { size_t n; vh::rng& r; unsigned fail{}, async{}; std::deque<std::function<void()>> q; dir_mock(size_t k, vh::rng& x) : n(k), r(x) {}
    bool key_location(rl::key_type k, key_location_callback_type cb) override {
        if(fail && r.chance(fail)) return false;
        key_location_return_type v = std::stoul(std::string((const char*)k.data() + 1, k.size() - 1)) % n;
        if(async && r.chance(async)) { q.push_back([=]() { cb(v); }); return true; }
        cb(v); return true; } };
static void one(vh::rng& r) {
    alarm(30);
    world w{r}; size_t ns = 1 + r.below(4); for(size_t i = 0; i < ns; i++) w.sh.push_back(std::make_shared<mock>(i, w));
    w.sync = r.chance(30) ? 100 : r.chance(50) ? 0 : (unsigned)r.below(100); w.fail = r.chance(40) ? 0 : (unsigned)r.below(35); w.unreach = r.chance(60) ? 0 : (unsigned)r.below(25);
    auto tm = std::make_shared<tm_mock>(r); auto dir = std::make_shared<dir_mock>(ns, r); if(r.chance(30)) { tm->fail = 10; dir->fail = 10; } dir->async = r.chance(50) ? 0 : (unsigned)r.below(80);
    std::vector<std::shared_ptr<rl::interface>> shs(w.sh.begin(), w.sh.end());
    auto mk = [&]() { w.br = std::make_unique<broker::impl>(7, shs, tm, dir, logger); };
    mk(); vh::logf("shards", ns, "sync", w.sync, "fail", w.fail, "unreachable", w.unreach);
    std::vector<tn_t> known; std::set<tn_t> busy, rolling; std::map<tn_t, unsigned> pend; std::map<tn_t, bool> fresh;
    using TS = broker::impl::ticket_state; bool react = r.chance(50);
    auto st = [&](tn_t t) -> int { auto it = w.br->m_tickets.find(t); return it == w.br->m_tickets.end() ? -1 : (int)it->second->m_state; };
    auto commit_ok = [&](tn_t t) { for(auto& [s, p] : w.A[t].parts) { vh::check(p.heard_prep, "reported committed without a shard's prepare"); vh::check(p.heard_com, "reported committed before every shard committed"); } };
    unsigned ops = 10 + (unsigned)r.below(60);
    for(unsigned o = 0; o < ops; o++) {
        unsigned k = (unsigned)r.below(20);
        if(k < 2 || known.empty()) { unsigned n = 0; vh::check(w.br->begin([&](broker::interface::ticketnum_or_errcode_type v) { n++; if(std::holds_alternative<tn_t>(v)) { auto t = std::get<tn_t>(v); known.push_back(t); w.A[t] = {}; vh::logf("begin", t); } }), "begin"); vh::check(n == 1, "begin answers once"); continue; }
        tn_t t = r.pick(known); if(k >= 6 && k < 13) while(!dir->q.empty()) { auto f = std::move(dir->q.front()); dir->q.pop_front(); f(); } // the directory answers before anything else is asked of the ticket
        int s = st(t); auto& F = w.fly[t];
        if(k < 6) { // try_lock (not while a commit or rollback is being sent or answered)
            if(busy.count(t) || F['p'] || F['c'] || F['r'] || (rolling.count(t) && s == (int)TS::begun)) continue;
            rolling.erase(t);
            std::string key = "k" + std::to_string(r.below(ns * 2)); auto ty = r.chance(50) ? rl::lock_type::read : rl::lock_type::write;
            vh::logf("try_lock", t, key, s); if(s == (int)TS::aborted) { w.A[t] = {}; pend[t] = 0; }
            auto n = std::make_shared<unsigned>(0); pend[t]++;
            if(!w.br->try_lock(t, B(key), ty, [&, t, key, n, s](broker::interface::try_lock_return_type v) {
                (*n)++; vh::check(*n == 1, "a lock request is answered more than once"); if(pend[t]) pend[t]--;
                if(s == (int)TS::prepared || s == (int)TS::committed || s == -1) { vh::check(std::holds_alternative<EC>(v) && std::get<EC>(v) == (s == -1 ? EC::unknown_ticket : s == (int)TS::prepared ? EC::prepared : EC::committed), "a lock request in the wrong state is refused"); }
            })) vh::fail("try_lock returned false");
        } else if(k < 9) { // commit
            if(F['p'] || F['c'] || F['r']) continue;
            rl::state_update_type up; bool foreign = r.chance(5);
            auto it = w.br->m_tickets.find(t); bool waiting = false;
            if(it != w.br->m_tickets.end()) for(auto& [si, ss] : it->second->m_shard_states) for(auto& [kk, ks] : ss.m_key_states) { if(ks.m_key_state == broker::impl::key_state::locking) waiting = true; if(r.chance(60)) up[kk] = B("u"); }
            if(foreign) up[B("k999")] = B("u");
            vh::logf("commit", t, s, waiting ? "waiting" : "", foreign ? "foreign" : "");
            busy.insert(t); auto was = busy.size(); (void)was; auto first = std::make_shared<bool>(true); auto succ = std::make_shared<unsigned>(0);
            if(!w.br->commit(t, up, [&, t, s, waiting, foreign, first, succ](broker::interface::commit_return_type v) {
                vh::logf("commit of", t, "reported", v.has_value() ? "error" : "ok"); busy.erase(t);
                if(!v.has_value()) { vh::check(++*succ == 1, "success reported twice"); commit_ok(t); }
                std::optional<EC> e = s == -1 ? EC::unknown_ticket : s == (int)TS::committed ? EC::committed : s == (int)TS::aborted ? EC::aborted : waiting ? EC::waiting_for_locks : foreign ? EC::commit_hazard : std::optional<EC>();
                if(*first && e.has_value()) vh::check(v.has_value() && std::holds_alternative<EC>(*v) && std::get<EC>(*v) == *e, "a commit out of order is refused");
                *first = false;
                // as an agent does: roll back at once after a failed prepare, then start over with the same ticket
                if(react && v.has_value() && st(t) == (int)TS::begun && !w.fly[t]['r']) {
                    rolling.insert(t); vh::logf("rollback after failed commit", t);
                    if(!w.br->rollback(t, [&, t](broker::interface::rollback_return_type v2) {
                        vh::logf("rollback of", t, "reported", v2.has_value() ? "error" : "ok");
                        if(v2.has_value() || !react) return;
                        w.A[t] = {}; rolling.erase(t); std::string key = "k" + std::to_string(r.below(ns * 2)); vh::logf("lock again", t, key);
                        if(!w.br->try_lock(t, B(key), rl::lock_type::write, [](broker::interface::try_lock_return_type) {})) vh::fail("try_lock returned false");
                    })) vh::fail("rollback returned false");
                }
            })) vh::fail("commit returned false");
            if(s == -1 || s == (int)TS::committed || s == (int)TS::aborted || waiting || foreign) vh::check(!*first, "a commit out of order is refused at once");
            if(st(t) == (int)TS::begun || st(t) == (int)TS::prepared) { auto i2 = w.br->m_tickets.find(t); if(i2->second->m_shard_states.empty()) busy.erase(t); }
        } else if(k < 11) { // rollback at any time
            if(F['r']) continue;
            vh::logf("rollback", t, s); auto n = std::make_shared<unsigned>(0); busy.insert(t); rolling.insert(t);
            if(!w.br->rollback(t, [&, t, s, n](broker::interface::rollback_return_type v) {
                vh::logf("rollback of", t, "reported", v.has_value() ? "error" : "ok"); busy.erase(t); (*n)++;
                std::optional<EC> e = s == -1 ? EC::unknown_ticket : s == (int)TS::committed ? EC::committed : s == (int)TS::aborted ? EC::aborted : s == (int)TS::prepared ? EC::prepared : std::optional<EC>();
                if(*n == 1 && e.has_value()) vh::check(v.has_value() && std::holds_alternative<EC>(*v) && std::get<EC>(*v) == *e, "a rollback out of order is refused");
                if(!v.has_value()) { vh::check(st(t) == (int)TS::aborted || st(t) == -1, "rolled back"); for(auto& [si, p] : w.A[t].parts) vh::check(p.heard_roll, "reported rolled back before every shard rolled back"); }
            })) vh::fail("rollback returned false");
            if(s != (int)TS::begun) vh::check(*n == 1, "a rollback out of order is refused at once");
        } else if(k < 13) { // finish
            if(F['f']) continue;
            vh::logf("finish", t, s); auto n = std::make_shared<unsigned>(0);
            if(!w.br->finish(t, [&, t, s, n](broker::interface::finish_return_type v) {
                vh::logf("finish of", t, "reported", v.has_value() ? "error" : "ok"); (*n)++;
                std::optional<EC> e = s == -1 ? EC::unknown_ticket : s == (int)TS::begun ? EC::begun : s == (int)TS::prepared ? EC::prepared : std::optional<EC>();
                if(*n == 1 && e.has_value()) vh::check(v.has_value() && *v == *e, "a finish out of order is refused");
                if(!v.has_value()) { vh::check(st(t) == -1, "a finished ticket is forgotten"); if(s == (int)TS::committed) for(auto& [si, p] : w.A[t].parts) vh::check(w.sh[si]->T[t].st == ps::finished, "reported finished before every shard finished"); }
            })) vh::fail("finish returned false");
            if(s != (int)TS::committed) vh::check(*n == 1, "a finish out of order is refused at once");
        } else if(k < 14 && !dir->q.empty()) { auto f = std::move(dir->q.front()); dir->q.pop_front(); f(); }
        else { auto& m = *w.sh[r.below(ns)]; if(r.chance(50)) { if(!m.req.empty()) m.step_req(); } else if(!m.ans.empty()) m.step_ans(); }
        for(auto& [tt, p] : w.br->m_tickets) {
            auto& aa = w.A[tt];
            if(p->m_state == TS::prepared) for(auto& [si, x] : aa.parts) vh::check(x.heard_prep, "a ticket counts as prepared without a shard's answer");
            if(p->m_state == TS::committed) for(auto& [si, x] : aa.parts) vh::check(x.heard_com, "a ticket counts as committed without a shard's answer");
        }
    }
    // crash: the answers and a suffix of each shard's requests are lost; tickets some shard committed must end committed everywhere
    for(unsigned round = 0; round < 6; round++) {
        for(auto& m : w.sh) { auto keep = r.below(m->req.size() + 1); while(keep--) m->step_req(); m->req.clear(); m->ans.clear(); }
        dir->q.clear(); w.recovering = true; w.must.clear(); w.mustnot.clear(); w.A.clear(); w.fly.clear();
        for(auto& m : w.sh) for(auto& [t, p] : m->T) if(p.st == ps::committed || p.st == ps::finished) w.must.insert(t);
        for(auto& m : w.sh) for(auto& [t, p] : m->T) if(!w.must.count(t)) w.mustnot.insert(t);
        for(auto& m : w.sh) for(auto& [t, p] : m->T) if(p.st == ps::committed) w.A[t].parts[m->idx].heard_com = true;
        if(round == 5) { w.fail = 0; w.unreach = 0; }
        mk(); vh::logf("crash, recovery", round); unsigned n = 0, oks = 0;
        bool ok = w.br->recover([&](broker::interface::recover_return_type v) { n++; if(!v.has_value()) oks++; vh::logf("recovery reports", v.has_value() ? "error" : "ok"); });
        unsigned lim = round < 5 && r.chance(30) ? (unsigned)r.below(20) : 100000;
        while(!w.idle() && lim--) { auto& m = *w.sh[r.below(ns)]; if(r.chance(50)) { if(!m.req.empty()) m.step_req(); } else if(!m.ans.empty()) m.step_ans(); }
        if(oks) {
            vh::check(oks == 1, "recovery reports success twice");
            vh::check(w.br->m_tickets.empty(), "recovery leaves tickets behind");
            for(auto& m : w.sh) for(auto& [t, p] : m->T) vh::check(p.st == ps::finished, "recovery reports success although a ticket is unresolved");
            bool again = w.br->recover([&](broker::interface::recover_return_type v) { (void)v; });
            (void)again; while(!w.idle()) for(auto& m : w.sh) { while(!m->req.empty()) m->step_req(); while(!m->ans.empty()) m->step_ans(); }
            break;
        }
        if(round == 5) { vh::check(ok && n >= 1 && oks == 1, "recovery without failures succeeds"); }
        if(w.idle() && n && r.chance(60) && w.br->m_tickets.empty()) { // retry with the same instance
            auto f = w.fail; auto u = w.unreach; w.fail = w.unreach = 0; oks = 0;
            w.must.clear(); w.mustnot.clear();
            for(auto& m : w.sh) for(auto& [t, p] : m->T) if(p.st == ps::committed || p.st == ps::finished) w.must.insert(t);
            for(auto& m : w.sh) for(auto& [t, p] : m->T) if(!w.must.count(t)) w.mustnot.insert(t);
            vh::logf("retry on the same instance");
            bool ok2 = w.br->recover([&](broker::interface::recover_return_type v) { if(!v.has_value()) oks++; });
            while(!w.idle()) for(auto& m : w.sh) { while(!m->req.empty()) m->step_req(); while(!m->ans.empty()) m->step_ans(); }
            vh::check(ok2 && oks == 1, "recovery without failures succeeds (same instance)");
            for(auto& m : w.sh) for(auto& [t, p] : m->T) vh::check(p.st == ps::finished, "recovery reports success although a ticket is unresolved");
            w.fail = f; w.unreach = u;
        }
    }
    for(auto& m : w.sh) for(auto& [t, p] : m->T) { vh::check(p.st == ps::finished, "every ticket is resolved in the end"); }
    alarm(0);
}
int main(int argc, char** argv) { signal(SIGALRM, onalarm); return vh::main_loop(argc, argv, one); }
