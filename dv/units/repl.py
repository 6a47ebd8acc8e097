"""replicated part of a runtime shard: replicated_shard.cpp (state), server.cpp (what is replicated before what is answered), state_machine.cpp

The state object is specified directly.  The RPC server is specified by the order of the requests it makes: g:a records what the shard
implementation or the replicated state was asked and answered, g:n how often the caller's callback was invoked."""
from units.common import *

RS = "cbdc::parsec::runtime_locking_shard::replicated_shard"
SV = "cbdc::parsec::runtime_locking_shard::rpc::server"
SMQ = "cbdc::parsec::runtime_locking_shard::state_machine"
Buf = usort("Buf")
PREPARED, COMMITTED = 0, 1

U64 = TInt(64, False)


def num(n):
    return Val(U64, [z3.IntVal(n) if isinstance(n, int) else n])


# ---- the replicated state ----------------------------------------------------------
def same_but(new, old, t, fields=None):
    return Forall([I], lambda x: Imp(x != t, And(new.has(x) == old.has(x), Imp(old.has(x), same(new.at(x), old.at(x))))))


def none(r):
    return z3.BoolVal(True) if isinstance(r, NullOpt) else Not(r.has())


def answered(C, cond):
    ev = [x for x in C.events if x[0] == "call"]
    f = [a for a in C.E.pre_args if isinstance(a.T, TOpaque) and a.T.sortname == "Fn"][0]
    if len(ev) != 1:
        return z3.BoolVal(False)
    return And(ev[0][1].t[0] == f.t[0], cond(ev[0][2][0]))


class Repl(Contract):
    def modifies(self, C):
        return ["m_state", "m_tickets"]


class Prepare(Repl):
    fn = RS + "::prepare"
    short = "replicated_shard::prepare"

    def ensures(self, C):
        T0, T, t = C.old.m_tickets, C.this.m_tickets, C.arg(0).z
        return [
            ("a new ticket is recorded as prepared with its broker and updates", And(T.has(t), Imp(Not(T0.has(t)), And(
                T.at(t).m_broker_id.z == C.arg(1).z, same(T.at(t).m_state_update, C.arg(2)), T.at(t).m_state.z == PREPARED)))),
            ("a recorded ticket keeps its record", Imp(T0.has(t), same(T.at(t), T0.at(t)))),
            ("other tickets unchanged", same_but(T, T0, t)),
            ("values unchanged", same(C.this.m_state, C.old.m_state)),
            ("answered once, positively", And(C.ret.z, answered(C, none))),
        ]


class Commit(Repl):
    fn = RS + "::commit"
    short = "replicated_shard::commit"

    def ensures(self, C):
        T0, T, t, S0, S = C.old.m_tickets, C.this.m_tickets, C.arg(0).z, C.old.m_state, C.this.m_state
        known, fresh = T0.has(t), And(T0.has(t), T0.at(t).m_state.z == PREPARED)
        up = T0.at(t).m_state_update
        return [
            ("commit applies exactly the ticket's updates", Imp(fresh, Forall([Buf], lambda k: And(
                S.has(k) == Or(S0.has(k), up.has(k)), Imp(up.has(k), S.at(k).z == up.at(k).z), Imp(And(S0.has(k), Not(up.has(k))), S.at(k).z == S0.at(k).z))))),
            ("the ticket is recorded as committed", Imp(known, And(T.has(t), T.at(t).m_state.z == COMMITTED, T.at(t).m_broker_id.z == T0.at(t).m_broker_id.z))),
            ("an unknown or already committed ticket changes nothing", Imp(Not(fresh), And(same(S, S0), Or(known, same(T, T0)), Imp(known, same(T.at(t), T0.at(t)))))),
            ("other tickets unchanged", same_but(T, T0, t)),
            ("an unknown ticket is refused, a known one accepted", And(C.ret.z, answered(C, lambda r: And(none(r) == known, Imp(Not(known), r.val.z == 0) if not isinstance(r, NullOpt) else known)))),
        ]

    def requires(self, C):
        T = C.this.m_tickets
        return [("tickets are prepared or committed", Forall([I], lambda x: Imp(T.has(x), Or(T.at(x).m_state.z == PREPARED, T.at(x).m_state.z == COMMITTED))))]

    def loopcands(self, Lc):
        if Lc.enum is None:
            return
        T0, S0, S, t = Lc.old.m_tickets, Lc.old.m_state, Lc.this.m_state, Lc.arg(0).z
        up, vis, T = T0.at(t).m_state_update, Lc.visited, Lc.this.m_tickets
        yield "applied so far", Forall([Buf], lambda k: And(
            S.has(k) == Or(S0.has(k), vis(k)), Imp(vis(k), S.at(k).z == up.at(k).z), Imp(And(S0.has(k), Not(vis(k))), S.at(k).z == S0.at(k).z)))
        yield "pending updates still there", Forall([Buf], lambda k: And(T.at(t).m_state_update.has(k) == up.has(k), Imp(And(up.has(k), Not(vis(k))), T.at(t).m_state_update.at(k).z == up.at(k).z)))
        yield "others", same_but(T, T0, t)
        yield "committed", And(T.has(t), T.at(t).m_state.z == COMMITTED, T.at(t).m_broker_id.z == T0.at(t).m_broker_id.z)


class Finish(Repl):
    fn = RS + "::finish"
    short = "replicated_shard::finish"

    def ensures(self, C):
        T0, T, t = C.old.m_tickets, C.this.m_tickets, C.arg(0).z
        return [("the ticket is dropped", Not(T.has(t))), ("other tickets unchanged", same_but(T, T0, t)),
                ("values unchanged", same(C.this.m_state, C.old.m_state)), ("answered once, positively", And(C.ret.z, answered(C, none)))]


class GetTickets(Contract):
    fn = RS + "::get_tickets"
    short = "replicated_shard::get_tickets"

    def ensures(self, C):
        return [("exactly the recorded tickets", And(C.ret.z, answered(C, lambda r: And(r.idx == 0, same(r.alt(0), C.this.m_tickets)) if isinstance(r.T, TVar) else same(r, C.this.m_tickets))))]


class GetState(Contract):
    fn = RS + "::get_state"
    short = "replicated_shard::get_state"

    def ensures(self, C):
        return [("exactly the stored values", same(C.ret, C.this.m_state))]


# ---- the RPC server ------------------------------------------------------------------
# what was asked so far: 0 nothing, then one value per kind of request
ASK = {("repl", "prepare"): 1, ("repl", "commit"): 2, ("repl", "finish"): 3, ("impl", "try_lock"): 11, ("impl", "prepare"): 12, ("impl", "commit"): 13,
       ("impl", "rollback"): 14, ("impl", "finish"): 15, ("impl", "get_tickets"): 16}


def g(E, n):
    return E.vars["g:" + n].t[0]


def setg(E, n, v):
    E.set_root("g:" + n, num(v) if not isinstance(v, Val) else v)


def plain(E, a, f):
    v = E.ev(a, f) if not isinstance(a, Val) else a
    if isinstance(v, Ref):
        v = E.read(v.loc)
    if isinstance(v, Loc):
        v = E.read(v)
    return v


def asked(side, op, argn):
    """a request to the implementation or to the replicated state; `argn`: how many arguments before the callback"""
    def h(E, p, args, e, f):
        vs = [plain(E, a, f) for a in args]
        k = ASK[(side, op)]
        setg(E, "n_ask", g(E, "n_ask") + 1)
        lam = vs[argn]
        rule(E, k, vs[:argn], e)
        # the request may fail to start; then nothing is called back
        started = E.fresh(B, "started")
        if E.choose(started):
            r = answer(E, side, op)
            setg(E, "last", k)
            setg(E, "ok", If(r.has(), z3.IntVal(0), z3.IntVal(1)) if isinstance(r.T, TOpt) else z3.IntVal(1))
            E.vars["g:answer"] = r
            E.call_value(lam, [r], e, f)
            return Val(TBool(), [z3.BoolVal(True)])
        setg(E, "unstarted", 1)
        return Val(TBool(), [z3.BoolVal(False)])
    return h


IQ = "cbdc::parsec::runtime_locking_shard::"


def answer(E, side, op):
    ty = {("impl", "try_lock"): IQ + "interface::try_lock_return_type", ("impl", "get_tickets"): IQ + "interface::get_tickets_return_type"}.get((side, op))
    if ty is None:
        ty = IQ + ("interface::prepare_return_type" if side == "impl" else "replicated_shard_interface::return_type")
    return E.fresh_val(E.types.parse(ty, ()), "answer")


def rule(E, k, vs, e):
    """what may be asked when: (last positive answer required, ticket, ...)"""
    last, ok, n = g(E, "last"), g(E, "ok"), g(E, "n_ask")
    req = E.vars["g:req"]
    kind, T = req["kind"], req["ticket"]
    E.oblige("requests carry the ticket of the message", "post", vs[0].z == T if k != 16 else vs[0].z == req["broker"], e)
    after = lambda need: And(last == need, ok == 1)
    rules = {
        11: And(kind == 0, n == 1), 16: And(kind == 5, n == 1), 12: And(kind == 1, n == 1),
        1: And(kind == 1, after(12)), 2: And(kind == 2, n == 1), 13: And(kind == 2, after(2)),
        3: And(Or(kind == 3, kind == 4), n == 1), 14: And(kind == 3, after(3)), 15: And(kind == 4, after(3)),
    }
    names = {1: "a prepare is replicated only once the shard prepared the ticket", 13: "the shard commits only what was replicated as committed",
             14: "the shard rolls back only what was discarded from the replicated state", 15: "the shard finishes only what was discarded from the replicated state"}
    E.oblige(names.get(k, "each message starts exactly the operation it names"), "post", rules[k], e)
    if k in (1, 12):
        E.oblige("the prepared updates and broker are the message's", "post", And(vs[1].z == req["broker"], same(vs[2], req["updates"])), e)
    if k == 11:
        E.oblige("the lock requested is the message's", "post", And(vs[1].z == req["broker"], vs[2].z == req["key"], vs[3].z == req["type"], vs[4].z == req["first"]), e)


def on_call(E, fv, vals, e, f):
    if not (E.K.fn.startswith(SV)):
        E.oblige("callbacks run without the mutex", "lock", z3.BoolVal(not E.held), e)
        return None
    setg(E, "n", g(E, "n") + 1)
    r = vals[0]
    last, ok = g(E, "last"), g(E, "ok")
    req = E.vars["g:req"]
    kind = req["kind"]
    E.oblige("the caller's own callback is invoked", "post", fv.t[0] == req["cb"], e)
    E.oblige("prepare, commit, rollback and finish are answered with success or a shard error", "post", Imp(And(1 <= kind, kind <= 4), shape(r)), e)
    # positive answers
    pos = positive(E, r)
    a = E.vars.get("g:answer")
    E.oblige("a positive answer is given only after the last step succeeded", "post", Imp(pos, Or(
        And(kind == 1, last == 1, ok == 1), And(kind == 2, last == 13, ok == 1), And(kind == 3, last == 14, ok == 1), And(kind == 4, last == 15, ok == 1), kind == 0, kind == 5)), e)
    if a is not None and not isinstance(a, dict):
        E.oblige("the shard's answer is passed on", "post", passed(E, r, a, kind, last), e)
    return VOID


def unwrap(r):
    """response -> (variant or alternative)"""
    if isinstance(r, Val) and isinstance(r.T, TOpt) and isinstance(r.T.t, TVar):
        r = r.val
    return r


def alts(r):
    """(cond, value) pairs of the non-variant contents of an answer"""
    r = unwrap(r)
    if isinstance(r, Val) and isinstance(r.T, TVar) and any(isinstance(t, (TVar, TOpt)) for t in r.T.ts):
        return [(r.idx == i, r.alt(i)) for i in range(len(r.T.ts))]
    return [(z3.BoolVal(True), r)]


def shape(r):
    """the answer is an optional<shard_error>"""
    return Or(*[c for c, x in alts(r) if isinstance(x, NullOpt) or isinstance(x.T, TOpt)])


def positive(E, r):
    out = []
    for c, x in alts(r):
        if isinstance(x, NullOpt):
            out.append(c)
        elif isinstance(x.T, TOpt):
            out.append(And(c, Not(x.has())))
    return Or(*out) if out else z3.BoolVal(False)


def passed(E, r, a, kind, last):
    """an answer coming straight from the implementation is handed on unchanged"""
    conj = []
    for c, x in alts(r):
        if isinstance(x, Val) and x.T == a.T:
            conj.append(And(c, same(x, a)))
    hit = Or(*conj) if conj else z3.BoolVal(False)
    return Imp(Or(last == 11, last == 16, And(last == 12, E.vars["g:ok"].t[0] == 0), last == 14, last == 15, last == 13), hit)


class Server(Contract):
    def ensures(self, C):
        n, uns = g(C.E, "n"), g(C.E, "unstarted")
        return [("the caller is answered exactly once unless a request could not be started", Or(n == 1, And(n == 0, uns == 1)))]


class Handler(Server):
    fn = SV + "::handler_callback"
    short = "server::handler_callback"

    def setup(self, E, C):
        req, cb = C.arg(0), C.arg(1)
        z, u = z3.IntVal(0), None
        kind = req.idx
        tk = If(kind == 0, req.alt(0).m_ticket_number.z, If(kind == 1, req.alt(1).m_ticket_number.z, If(kind == 2, req.alt(2).m_ticket_number.z, If(kind == 3, req.alt(3).m_ticket_number.z, req.alt(4).m_ticket_number.z))))
        br = If(kind == 0, req.alt(0).m_broker_id.z, If(kind == 1, req.alt(1).m_broker_id.z, req.alt(5).m_broker_id.z))
        return dict(kind=kind, ticket=tk, broker=br, updates=req.alt(1).m_state_updates, key=req.alt(0).m_key.z, type=req.alt(0).m_locktype.z, first=req.alt(0).m_first_lock.z, cb=cb.t[0])

    def ensures(self, C):
        n, r = g(C.E, "n"), C.ret.z
        return [("answered exactly once when accepted, never when refused", n == If(r, z3.IntVal(1), z3.IntVal(0)))]


class SubHandler(Server):
    """called once the first step has answered: the ghosts describe that step"""
    kind, first = 0, 0
    havocs = ("n", "n_ask", "last", "ok", "unstarted")

    def requires(self, C):
        E = C.E
        req, msg, res = E.vars["g:req"], C.arg(1), C.arg(0)
        out = [("the first step just answered", And(req["kind"] == self.kind, req["ticket"] == msg.m_ticket_number.z, g(E, "n") == 0, g(E, "last") == self.first,
                                                    g(E, "ok") == If(res.has(), z3.IntVal(0), z3.IntVal(1)), C.arg(2).t[0] == req["cb"]))]
        if self.kind == 1:
            out.append(("the message's broker and updates", And(msg.m_broker_id.z == req["broker"], same(msg.m_state_updates, req["updates"]))))
        if self.first == 12:
            a = E.vars.get("g:answer")
            if isinstance(a, Val):
                out.append(("the shard's answer is handed over", same(a, res)))
        return out

    def setup(self, E, C):
        res, msg, cb = C.arg(0), C.arg(1), C.arg(2)
        if self.first == 12:
            E.vars["g:answer"] = res
        setg(E, "n_ask", 1)
        setg(E, "last", self.first)
        setg(E, "ok", If(res.has(), z3.IntVal(0), z3.IntVal(1)))
        d = dict(kind=z3.IntVal(self.kind), ticket=msg.m_ticket_number.z, broker=z3.IntVal(0), cb=cb.t[0])
        if self.kind == 1:
            d.update(broker=msg.m_broker_id.z, updates=msg.m_state_updates)
        return d

    def ensures(self, C):
        return [("answered exactly once", g(C.E, "n") == 1)]


class HandlePrepare(SubHandler):
    fn, short, kind, first = SV + "::handle_prepare", "server::handle_prepare", 1, 12


class HandleCommit(SubHandler):
    fn, short, kind, first = SV + "::handle_commit", "server::handle_commit", 2, 2


class DoRollback(SubHandler):
    fn, short, kind, first = SV + "::do_rollback", "server::do_rollback", 3, 3


class DoFinish(SubHandler):
    fn, short, kind, first = SV + "::do_finish", "server::do_finish", 4, 3


INLINE = {HandlePrepare, HandleCommit, DoRollback, DoFinish}


# ---- the state machine -----------------------------------------------------------------
def applied(op):
    def h(E, p, args, e, f):
        vs = [plain(E, a, f) for a in args]
        req = E.pre_args[0]
        i = {"prepare": 0, "commit": 1, "finish": 2, "get_tickets": 3}[op]
        E.oblige("the request is applied once, as the operation it names", "post", And(g(E, "n_ask") == 0, req.idx == i), e)
        if i < 3:
            m = req.alt(i)
            E.oblige("with its ticket", "post", vs[0].z == m.m_ticket_number.z, e)
        if i == 0:
            E.oblige("with its broker and updates", "post", And(vs[1].z == m.m_broker_id.z, same(vs[2], m.m_state_update)), e)
        setg(E, "n_ask", 1)
        r = E.fresh_val(E.types.parse(IQ + ("replicated_shard_interface::return_type" if i < 3 else "replicated_shard_interface::get_tickets_return_type"), ()), "answer")
        E.vars["g:answer"] = r
        E.call_value(vs[-1], [r], e, f)
        return Val(TBool(), [z3.BoolVal(True)])
    return h


class Process(Contract):
    fn = SMQ + "::process_request"
    short = "state_machine::process_request"

    def ensures(self, C):
        a = C.E.vars["g:answer"]
        r = C.ret
        i = 0 if isinstance(a.T, TOpt) else 1
        return [("the answer of the replicated shard is the response", And(g(C.E, "n_ask") == 1, r.idx == i, same(r.alt(i), a)))]


class ReplUnit(Unit):
    name = "repl"
    sources = ["src/parsec/runtime_locking_shard/replicated_shard.cpp", "src/parsec/runtime_locking_shard/server.cpp", "src/parsec/runtime_locking_shard/state_machine.cpp"]
    extra_args = STUBS
    overrides = {"cbdc::buffer": TOpaque("Buf")}
    contracts = [Prepare(), Commit(), Finish(), GetTickets(), GetState(), Handler(), HandlePrepare(), HandleCommit(), DoRollback(), DoFinish(), Process()]
    opts = {"guards": {"m_state": "m_mut", "m_tickets": "m_mut"}}
    externs = {"on_call": on_call, "method": dict(
        [(("P_replicated_shard_interface", o), asked("repl", o, n)) for o, n in (("prepare", 3), ("commit", 1), ("finish", 1))]
        + [(("P_interface", o), asked("impl", o, n)) for o, n in (("try_lock", 5), ("prepare", 3), ("commit", 1), ("rollback", 1), ("finish", 1), ("get_tickets", 1))]
        + [(("P_replicated_shard", o), applied(o)) for o in ("prepare", "commit", "finish", "get_tickets")])}

    def on_ghosts(self, E, C):
        for n in ("n", "n_ask", "last", "ok", "unstarted"):
            E.vars["g:" + n] = num(0)
        if hasattr(E.K, "setup"):
            E.vars["g:req"] = E.K.setup(E, C)


unit = ReplUnit()
