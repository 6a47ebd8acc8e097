// SOURCES: src/parsec/runtime_locking_shard/impl.cpp src/parsec/runtime_locking_shard/replicated_shard.cpp src/parsec/runtime_locking_shard/server.cpp
// LIBS: common serialization crypto
// FLAGS: -fno-access-control -iquote $H/../dv/stubs -I$H/../dv/stubs
// Oracle: the replicated tickets and values as plain maps; for the server: the order of requests to the shard and to the replicated state.
#include "h.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/runtime_locking_shard/server.hpp"
#include <map>
using namespace cbdc;
using namespace cbdc::parsec::runtime_locking_shard;
using RI = replicated_shard_interface;
using iface = cbdc::parsec::runtime_locking_shard::interface;
static buffer B(const std::string& s) { buffer b; if(!s.empty()) b.append(s.data(), s.size()); return b; }
static std::string S(const buffer& b) { return std::string((const char*)b.data(), b.size()); }
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal, false);
struct mrec { size_t broker; std::map<std::string, std::string> upd; bool committed; };
struct mstate {
    std::map<uint64_t, mrec> T; std::map<std::string, std::string> val;
    void prepare(uint64_t t, size_t b, const std::map<std::string, std::string>& u) { T.emplace(t, mrec{b, u, false}); }
    bool commit(uint64_t t) { auto i = T.find(t); if(i == T.end()) return false; if(!i->second.committed) for(auto& [k, v] : i->second.upd) val[k] = v; i->second.committed = true; return true; }
};
static void compare(const replicated_shard& rs, const mstate& m) {
    std::map<std::string, std::string> v; for(auto& [k, x] : rs.get_state()) v[S(k)] = S(x);
    vh::check(v == m.val, "the values stored are exactly those of the committed tickets");
    unsigned n = 0;
    rs.get_tickets([&](RI::get_tickets_return_type r) {
        n++; auto& t = std::get<RI::tickets_type>(r); vh::check(t.size() == m.T.size(), "exactly the undropped tickets are recorded");
        for(auto& [tn, x] : t) {
            auto i = m.T.find(tn); vh::check(i != m.T.end() && i->second.broker == x.m_broker_id && (x.m_state == RI::ticket_state::committed) == i->second.committed, "recorded ticket state and broker");
            if(!i->second.committed) { std::map<std::string, std::string> u; for(auto& [k, y] : x.m_state_update) u[S(k)] = S(y); vh::check(u == i->second.upd, "a prepared ticket's updates are kept"); }
        }
    });
    vh::check(n == 1, "tickets reported once");
}
static std::map<std::string, std::string> updates(vh::rng& r) { std::map<std::string, std::string> u; for(unsigned i = (unsigned)r.below(4); i > 0; i--) u["k" + std::to_string(r.below(4))] = r.chance(15) ? "" : "v" + std::to_string(r.below(1000)); return u; }
static state_update_type su(const std::map<std::string, std::string>& u) { state_update_type s; for(auto& [k, v] : u) s[B(k)] = B(v); return s; }
static void direct(vh::rng& r) {
    replicated_shard rs; mstate m; unsigned ops = 3 + (unsigned)r.below(25);
    for(unsigned o = 0; o < ops; o++) {
        uint64_t t = 1 + r.below(4); unsigned w = (unsigned)r.below(10), n = 0; bool ok = false; std::string nm;
        auto cb = [&](RI::return_type x) { n++; ok = !x.has_value(); compare(rs, m); };
        bool ret;
        if(w < 4) { auto u = updates(r); size_t b = r.below(3); vh::logf("prepare", t, "broker", b, "updates", u.size()); m.prepare(t, b, u); ret = rs.prepare(t, b, su(u), cb); vh::check(ok, "prepare accepted"); }
        else if(w < 8) { vh::logf("commit", t); bool k = m.commit(t); ret = rs.commit(t, cb); vh::check(ok == k, "an unknown ticket is refused, a known one accepted"); }
        else { vh::logf("finish", t); m.T.erase(t); ret = rs.finish(t, cb); vh::check(ok, "finish accepted"); }
        vh::check(ret && n == 1, "answered once"); compare(rs, m);
    }
}
struct flaky : RI { // the replicated state behind a consensus layer that may fail
    replicated_shard rs; mstate m; vh::rng* r; int mode = 0; // 0 works, 1 reports an error, 2 does not start
    std::vector<std::string> ops;
    bool f(const std::string& nm, callback_type& cb, bool& started) { ops.push_back(nm + (mode == 0 ? "" : mode == 1 ? " fails" : " not started")); started = mode != 2; if(mode == 1) cb(error_code::internal_error); return mode == 0; }
    bool prepare(uint64_t t, size_t b, state_type u, callback_type cb) override { bool s; if(!f("replicate prepare", cb, s)) return s; std::map<std::string, std::string> mu; for(auto& [k, v] : u) mu[S(k)] = S(v); m.prepare(t, b, mu); return rs.prepare(t, b, u, cb); }
    bool commit(uint64_t t, callback_type cb) override { bool s; if(!f("replicate commit", cb, s)) return s; m.commit(t); return rs.commit(t, cb); }
    bool finish(uint64_t t, callback_type cb) override { bool s; if(!f("replicate finish", cb, s)) return s; m.T.erase(t); return rs.finish(t, cb); }
    bool get_tickets(get_tickets_callback_type cb) const override { return rs.get_tickets(cb); }
};
struct spy : iface { // the shard implementation, recording what it is asked
    std::shared_ptr<impl> im; std::vector<std::string>* ops; std::string last;
    static std::string E(const std::optional<shard_error>& e) { return e.has_value() ? "error " + std::to_string((int)e->m_error_code) : "ok"; }
    bool try_lock(uint64_t t, size_t b, key_type k, lock_type ty, bool first, try_lock_callback_type cb) override { ops->push_back("try_lock " + std::to_string(t) + " " + std::to_string(b) + " " + S(k) + " " + std::to_string((int)ty) + " " + std::to_string(first)); return im->try_lock(t, b, k, ty, first, cb); }
    bool prepare(uint64_t t, size_t b, state_update_type u, prepare_callback_type cb) override { ops->push_back("prepare " + std::to_string(t)); return im->prepare(t, b, u, [this, cb](prepare_return_type e) { last = E(e); cb(e); }); }
    bool commit(uint64_t t, commit_callback_type cb) override { ops->push_back("commit " + std::to_string(t)); return im->commit(t, [this, cb](commit_return_type e) { last = E(e); cb(e); }); }
    bool rollback(uint64_t t, rollback_callback_type cb) override { ops->push_back("rollback " + std::to_string(t)); return im->rollback(t, [this, cb](rollback_return_type e) { last = E(e); cb(e); }); }
    bool finish(uint64_t t, finish_callback_type cb) override { ops->push_back("finish " + std::to_string(t)); return im->finish(t, [this, cb](finish_return_type e) { last = E(e); cb(e); }); }
    bool get_tickets(size_t b, get_tickets_callback_type cb) override { ops->push_back("get_tickets " + std::to_string(b)); return im->get_tickets(b, cb); }
};
namespace rq = cbdc::parsec::runtime_locking_shard::rpc;
struct srvstub : cbdc::rpc::async_server<rq::request, rq::response> {};
static void served(vh::rng& r) {
    auto sp = std::make_shared<spy>(); auto rp = std::make_shared<flaky>(); sp->im = std::make_shared<impl>(logger); sp->ops = &rp->ops; rp->r = &r;
    auto st = std::make_unique<srvstub>(); auto* sv = st.get();
    rq::server server(logger, sp, rp, std::move(st));
    unsigned ops = 4 + (unsigned)r.below(30); std::map<uint64_t, std::map<std::string, int>> held;
    for(unsigned o = 0; o < ops; o++) {
        uint64_t t = 1 + r.below(3); rp->ops.clear(); sp->last = ""; rp->mode = r.chance(75) ? 0 : 1 + (int)r.below(2);
        auto np = std::make_shared<unsigned>(0); auto rsp = std::make_shared<std::optional<rq::response>>(); auto& n = *np; auto& resp = *rsp; auto cb = [np, rsp](std::optional<rq::response> x) { (*np)++; *rsp = std::move(x); };
        unsigned w = (unsigned)r.below(20); std::string ts = std::to_string(t), good, first; std::vector<std::string> exp; bool rep0 = rp->mode == 0;
        std::string fl = rp->mode == 0 ? "" : rp->mode == 1 ? " fails" : " not started"; bool ret;
        if(w < 7) {
            std::string k = "k" + std::to_string(r.below(3)); bool fst = sp->im->m_tickets.count(t) == 0; held[t][k] = 1; vh::logf("try_lock", t, k);
            auto ty = r.chance(80) ? lock_type::write : lock_type::read;
            ret = sv->m_callback(rq::try_lock_request{t, t + 10, B(k), ty, fst}, cb);
            vh::check(ret && rp->ops == std::vector<std::string>{"try_lock " + ts + " " + std::to_string(t + 10) + " " + k + " " + std::to_string((int)ty) + " " + std::to_string(fst)}, "lock requests are passed on unchanged");
            vh::check(n == 0 || (n == 1 && resp->index() == 0), "a lock answer is a lock answer"); continue;
        }
        if(w < 11) {
            std::map<std::string, std::string> u; for(auto& [k, x] : held[t]) if(r.chance(70)) u[k] = "v" + std::to_string(r.below(1000)); vh::logf("prepare", t, fl);
            ret = sv->m_callback(rq::prepare_request{t, su(u), t + 10}, cb); exp = {"prepare " + ts}; if(sp->last == "ok") exp.push_back("replicate prepare" + fl);
            good = sp->last == "ok" && rep0 ? "ok" : sp->last == "ok" ? "error 10" : sp->last;
        } else if(w < 14) { vh::logf("commit", t, fl); ret = sv->m_callback(rq::commit_request{t}, cb); exp = {"replicate commit" + fl}; first = "commit"; }
        else if(w < 17) { vh::logf("finish", t, fl); ret = sv->m_callback(rq::finish_request{t}, cb); exp = {"replicate finish" + fl}; first = "finish"; if(ret && rep0) held.erase(t); }
        else if(w < 19) { vh::logf("rollback", t, fl); ret = sv->m_callback(rq::rollback_request{t}, cb); exp = {"replicate finish" + fl}; first = "rollback"; }
        else {
            vh::logf("get_tickets", t); ret = sv->m_callback(rq::get_tickets_request{t + 10}, cb);
            vh::check(ret && n == 1 && resp->index() == 2 && rp->ops == std::vector<std::string>{"get_tickets " + std::to_string(t + 10)}, "ticket queries are passed on"); continue;
        }
        if(!first.empty()) {
            if(rp->mode == 2) { vh::check(!ret && n == 0 && rp->ops == exp, "a request that does not start is reported"); continue; }
            bool asked = rp->ops.size() == 2; if(rep0 && asked) exp.push_back(first + " " + ts);
            good = asked ? sp->last : "error 10";
            if(rep0 && !asked) vh::check(first == "commit", "the shard is asked once the step is replicated");
        }
        std::string tr; for(auto& s : rp->ops) tr += s + "; ";
        vh::check(rp->ops == exp, "each step is taken only after the one before succeeded: " + tr);
        vh::check(ret && n == 1, "answered once");
        vh::check(resp.has_value() && resp->index() == 1, "the answer is a prepare/commit/rollback/finish answer, not one of another operation (alternative " + std::to_string(resp.has_value() ? (int)resp->index() : -1) + ")");
        vh::check(spy::E(std::get<1>(*resp)) == good, "a positive answer only after every step succeeded: " + spy::E(std::get<1>(*resp)) + " expected " + good);
        compare(rp->rs, rp->m);
    }
}
static void one(vh::rng& r) { if(r.chance(50)) direct(r); else served(r); }
int main(int c, char** v) { return vh::main_loop(c, v, one); }
