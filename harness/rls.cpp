// SOURCES: src/parsec/runtime_locking_shard/impl.cpp
// LIBS: common serialization crypto
// FLAGS: -fno-sanitize=all -O1
// Oracle: wound-wait two-phase locking written down directly (tables of holders and waiters), plus the ticket life cycle.
#include "h.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include <csignal>
#include <map>
#include <set>
#include <unistd.h>
using namespace cbdc;
using namespace cbdc::parsec::runtime_locking_shard;
using iface = cbdc::parsec::runtime_locking_shard::interface;
static buffer B(const std::string& s) { buffer b; b.append(s.data(), s.size()); return b; }
static std::string S(const buffer& b) { return std::string((const char*)b.data(), b.size()); }
struct mt { ticket_state st{ticket_state::begun}; std::map<std::string, lock_type> held, queued; std::map<std::string, std::string> upd; size_t broker{}; uint64_t wt{}; std::string wk; };
struct model {
    std::map<std::string, std::string> val; std::map<uint64_t, mt> T;
    std::set<std::string> out; // expected deliveries
    bool writer(const std::string& k, uint64_t& w) { for(auto& [n, t] : T) if(auto i = t.held.find(k); i != t.held.end() && i->second == lock_type::write) { w = n; return true; } return false; }
    std::set<uint64_t> readers(const std::string& k) { std::set<uint64_t> r; for(auto& [n, t] : T) if(auto i = t.held.find(k); i != t.held.end() && i->second == lock_type::read) r.insert(n); return r; }
    std::set<std::string> release(uint64_t n) {
        std::set<std::string> ks; auto& t = T[n];
        for(auto& [k, ty] : t.queued) { ks.insert(k); out.insert("wounded " + std::to_string(n) + " " + k + " by " + std::to_string(t.wt) + "/" + t.wk); }
        for(auto& [k, ty] : t.held) ks.insert(k);
        t.queued.clear(); t.held.clear(); return ks;
    }
    void grant(const std::set<std::string>& ks) {
        for(auto& k : ks) for(;;) {
            uint64_t q = 0; bool any = false; lock_type ty{};
            for(auto& [n, t] : T) if(t.queued.count(k)) { q = n; ty = t.queued[k]; any = true; break; }
            if(!any) break;
            uint64_t w; bool hw = writer(k, w); auto rs = readers(k); rs.erase(q);
            if(hw || (ty == lock_type::write && !rs.empty())) break;
            T[q].queued.erase(k); T[q].held[k] = ty; out.insert("granted " + std::to_string(q) + " " + k + " = " + val[k]);
        }
    }
};
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal, false);
static const char* EC[] = {"prepared", "wounded", "lock_held", "lock_queued", "unknown_ticket", "lock_not_held", "read_lock", "not_prepared", "committed", "not_committed", "internal"};
static void onalarm(int) { std::printf("FAIL: deadlock: a callback runs while the shard's mutex is held (or a call never returns)\nCASE: --seed %llu --case %llu\n", (unsigned long long)vh::cur_seed, (unsigned long long)vh::cur_case); for(auto& t : vh::trace()) std::printf("  | %s\n", t.c_str()); std::fflush(stdout); std::_Exit(1); }
static std::string R(const std::optional<shard_error>& e) { return e.has_value() ? std::string(EC[(int)e->m_error_code]) : "ok"; }
static void one(vh::rng& r) {
    alarm(20);
    auto shp = std::make_unique<impl>(logger); auto& sh = *shp; model m; std::set<std::string> got; bool dup = false;
    auto add = [&](const std::string& s) { if(!got.insert(s).second) dup = true; };
    unsigned nk = 1 + (unsigned)r.below(4), nt = 2 + (unsigned)r.below(6), ops = 6 + (unsigned)r.below(60);
    unsigned vctr = 0;
    auto probe = [&]() { sh.get_tickets(0, [&](iface::get_tickets_return_type) {}); };
    for(unsigned o = 0; o < ops; o++) {
        got.clear(); m.out.clear(); dup = false; std::string exp_res = "", res = ""; unsigned nres = 0;
        uint64_t tn = 1 + r.below(nt); unsigned w = (unsigned)r.below(20); if(w == 19 && o < ops / 2 && r.chance(70)) w = (unsigned)r.below(14);
        auto it = m.T.find(tn);
        auto rescb = [&](const std::optional<shard_error>& e) { nres++; res = R(e); probe(); };
        if(w < 11) {
            bool first = it == m.T.end(); if(first && r.chance(10)) first = false;
            if(it != m.T.end() && it->second.st != ticket_state::begun && r.chance(60)) continue;
            std::string k = "k" + std::to_string(r.below(nk)); auto ty = r.chance(50) ? lock_type::read : lock_type::write; size_t br = r.below(3);
            vh::logf("try_lock ticket", tn, "broker", br, "key", k, ty == lock_type::read ? "read" : "write", first ? "first" : "");
            std::string err;
            if(it == m.T.end() && !first) err = "unknown_ticket";
            else if(it != m.T.end()) { auto& t = it->second;
                if(t.st == ticket_state::prepared) err = "prepared"; else if(t.st == ticket_state::committed) err = "committed"; else if(t.st == ticket_state::wounded) err = "wounded by " + std::to_string(t.wt) + "/" + t.wk;
                else if(t.held.count(k) && t.held[k] >= ty) err = "lock_held"; else if(t.queued.count(k)) err = "lock_queued"; }
            if(!err.empty()) m.out.insert("error " + std::to_string(tn) + " " + k + " " + err);
            else {
                auto& t = m.T[tn]; t.broker = br; t.queued[k] = ty; m.val.emplace(k, "");
                std::set<std::string> ks{k};
                for(auto& [n, x] : m.T) if(n > tn && x.st != ticket_state::prepared) { auto h = x.held.find(k); if(h != x.held.end() && (ty == lock_type::write || h->second == lock_type::write)) { x.st = ticket_state::wounded; x.wt = tn; x.wk = k; for(auto& q : m.release(n)) ks.insert(q); } }
                m.grant(ks);
            }
            auto okret = sh.try_lock(tn, br, B(k), ty, first, [&, tn, k](const iface::try_lock_return_type& v) {
                probe();
                if(std::holds_alternative<value_type>(v)) { add("granted " + std::to_string(tn) + " " + k + " = " + S(std::get<value_type>(v))); return; }
                auto& e = std::get<shard_error>(v);
                std::string d = EC[(int)e.m_error_code];
                if(e.m_error_code == error_code::wounded) d += e.m_wounded_details ? " by " + std::to_string(e.m_wounded_details->m_wounding_ticket) + "/" + S(e.m_wounded_details->m_wounding_key) : " by 0/";
                bool immediate = m.out.count("error " + std::to_string(tn) + " " + k + " " + d) > 0;
                if(immediate) add("error " + std::to_string(tn) + " " + k + " " + d);
                else { if(d.substr(0, 7) == "wounded") d = d.substr(8); add("wounded " + std::to_string(tn) + " " + k + " " + d); }
            });
            vh::check(okret, "try_lock returns true");
        } else if(w < 14) {
            state_update_type up; std::map<std::string, std::string> mu;
            if(it != m.T.end()) for(auto& [k, ty] : it->second.held) if(r.chance(ty == lock_type::write ? 80 : 8)) { mu[k] = "v" + std::to_string(++vctr); }
            if(r.chance(6)) mu["k" + std::to_string(r.below(nk + 1))] = "v" + std::to_string(++vctr);
            for(auto& [k, v] : mu) up.emplace(B(k), B(v));
            if(it == m.T.end()) exp_res = "unknown_ticket"; else { auto& t = it->second;
                if(t.st == ticket_state::prepared) exp_res = "prepared"; else if(t.st == ticket_state::committed) exp_res = "committed"; else if(t.st == ticket_state::wounded) exp_res = "wounded";
                else if(!t.queued.empty()) exp_res = "lock_queued"; else { exp_res = "ok"; std::set<std::string> pe; for(auto& [k, v] : mu) { if(!t.held.count(k)) pe.insert("lock_not_held"); else if(t.held[k] != lock_type::write) pe.insert("read_lock"); }
                    if(pe.size() > 1) continue; if(pe.size() == 1) exp_res = *pe.begin(); else { t.st = ticket_state::prepared; t.upd = mu; } } }
            { std::string s; for(auto& [k, v] : mu) s += k + "=" + v + " "; vh::logf("prepare ticket", tn, s); }
            vh::check(sh.prepare(tn, 0, up, rescb), "prepare returns true");
        } else if(w < 16) {
            vh::logf("commit ticket", tn);
            if(it == m.T.end()) exp_res = "unknown_ticket"; else if(it->second.st != ticket_state::prepared) exp_res = "not_prepared";
            else { exp_res = "ok"; for(auto& [k, v] : it->second.upd) m.val[k] = v; auto ks = m.release(tn); m.grant(ks); it->second.st = ticket_state::committed; }
            vh::check(sh.commit(tn, rescb), "commit returns true");
        } else if(w < 18) {
            vh::logf("rollback ticket", tn);
            if(it == m.T.end()) exp_res = "unknown_ticket"; else if(it->second.st == ticket_state::committed) exp_res = "committed";
            else { exp_res = "ok"; auto ks = m.release(tn); m.T.erase(tn); m.grant(ks); }
            vh::check(sh.rollback(tn, rescb), "rollback returns true");
        } else if(w < 19) {
            vh::logf("finish ticket", tn);
            if(it == m.T.end()) exp_res = "unknown_ticket"; else if(it->second.st != ticket_state::committed) exp_res = "not_committed"; else { exp_res = "ok"; m.T.erase(tn); }
            vh::check(sh.finish(tn, rescb), "finish returns true");
        } else {
            // recover: into this shard (must be refused unless it is empty), or into a fresh one
            replicated_shard::state_type st; replicated_shard::tickets_type tk;
            for(auto& [k, v] : m.val) if(!v.empty() || r.chance(50)) st.emplace(B(k), B(v));
            for(auto& [n, t] : m.T) if(t.st == ticket_state::prepared || t.st == ticket_state::committed) { auto e = replicated_shard::ticket_type(); e.m_broker_id = t.broker; for(auto& [k, v] : t.upd) e.m_state_update.emplace(B(k), B(v)); e.m_state = t.st == ticket_state::prepared ? replicated_shard::ticket_state::prepared : replicated_shard::ticket_state::committed; tk.emplace(n, e); }
            bool same = r.chance(50) && (!m.T.empty() || !m.val.empty());
            if(same) { vh::log("recover into the running shard"); st[B("k0")] = B("bogus"); vh::check(!sh.recover(st, tk), "recover into a shard that is not empty is refused"); }
            else {
                vh::log("recover into a fresh shard");
                shp = std::make_unique<impl>(logger); vh::check(shp->recover(st, tk), "recover into an empty shard succeeds");
                for(auto i = m.T.begin(); i != m.T.end();) { if(i->second.st == ticket_state::prepared || i->second.st == ticket_state::committed) { auto& t = i->second; t.held.clear(); t.queued.clear(); if(t.st == ticket_state::prepared) for(auto& [k, v] : t.upd) t.held[k] = lock_type::write; ++i; } else i = m.T.erase(i); }
                // the harness keeps its references valid by restarting the case on the recovered shard
                auto& nsh = *shp;
                for(auto& [n, t] : m.T) { std::string rs; unsigned c = 0; if(t.st == ticket_state::committed) { vh::logf("finish recovered", n); nsh.finish(n, [&](const std::optional<shard_error>& e) { c++; rs = R(e); }); vh::check(c == 1 && rs == "ok", "a recovered committed ticket can be finished"); }
                    else { std::map<std::string, std::string> wait; unsigned early = 0;
                        for(auto& [k, v] : t.upd) { vh::logf("try_lock read", k, "held by recovered ticket", n); nsh.try_lock(5000 + n * 100 + vctr++, 0, B(k), lock_type::read, true, [&, k = k](const iface::try_lock_return_type& x) { early++; wait[k] = std::holds_alternative<value_type>(x) ? S(std::get<value_type>(x)) : "error"; }); }
                        vh::check(early == 0, "keys updated by a recovered prepared ticket stay write locked until it is settled");
                        vh::logf("commit recovered", n); nsh.commit(n, [&](const std::optional<shard_error>& e) { c++; rs = R(e); }); vh::check(c == 1 && rs == "ok", "a recovered prepared ticket can be committed"); for(auto& [k, v] : t.upd) m.val[k] = v; vh::check(wait == t.upd && early == t.upd.size(), "requests waiting for a recovered ticket are granted once, with the committed value"); } }
                for(auto& [k, v] : m.val) { std::string g = "?"; nsh.try_lock(1000 + vctr++, 0, B(k), lock_type::read, true, [&](const iface::try_lock_return_type& x) { g = std::holds_alternative<value_type>(x) ? S(std::get<value_type>(x)) : "error"; }); vh::check(g == v, "recovered value of " + k + " must be " + v + " but is " + g); }
                alarm(0);
                return;
            }
        }
        if(!exp_res.empty()) vh::check(nres == 1 && res == exp_res, "result must be delivered once and be '" + exp_res + "', got '" + res + "' x" + std::to_string(nres));
        if(got != m.out || dup) { std::string s = "expected deliveries {"; for(auto& x : m.out) s += x + "; "; s += "} got {"; for(auto& x : got) s += x + "; "; vh::fail(s + "}" + (dup ? " (one delivered twice)" : "")); }
        vh::evals()++;
        for(size_t b = 0; b < 3; b++) {
            unsigned c = 0;
            sh.get_tickets(b, [&](const iface::get_tickets_return_type& v) {
                c++; auto& g = std::get<iface::get_tickets_success_type>(v); std::map<uint64_t, ticket_state> e; for(auto& [n, t] : m.T) if(t.broker == b) e[n] = t.st;
                bool ok = e.size() == g.size(); for(auto& [n, s] : e) { auto i = g.find(n); ok = ok && i != g.end() && i->second == s; }
                vh::check(ok, "get_tickets(" + std::to_string(b) + ") must list exactly the broker's tickets with their states");
            });
            vh::check(c == 1, "get_tickets answers once");
        }
    }
    alarm(0);
}
int main(int argc, char** argv) { std::signal(SIGALRM, onalarm); return vh::main_loop(argc, argv, one); }
