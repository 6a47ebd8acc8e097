"""parsec agent: src/parsec/agent/impl.cpp

Ghosts record the evidence behind what the agent says: g:ran, the updates of the last successful run; g:com, the broker answered that the ticket
is committed; g:rolled, the last rollback was answered positively and nothing was started since; g:fin, the broker answered that the ticket is
finished; g:told, the final outcome was reported.  A request to the broker or the runner is refused, answered later (anything the agent does
meanwhile may have happened) or answered at once: then the callback handed over is run on an arbitrary answer."""
from units.common import *
from engine import PathEnd, Unsupported

Q = "cbdc::parsec::agent::impl"
BI = "cbdc::parsec::broker::interface::"
Buf = usort("Buf")
(INIT, BEGIN_SENT, BEGIN_FAILED, FGET_SENT, FGET_FAILED, FGET_ERROR, STARTED, FN_FAILED, FN_EXC, COMMIT_SENT, COMMIT_FAILED, COMMIT_ERROR, FINISH_SENT, FINISH_FAILED, FINISH_COMPLETE, RB_SENT, RB_FAILED,
 RB_COMPLETE) = range(18)
(R_UNREACH, R_TICKET, R_FGET, R_EXEC, R_COMMIT, R_FINISH, R_ROLLBACK, R_RETRY) = range(8)
HAZARD, WOUNDED_RUN = 17, 10
READ, WRITE = 0, 1
SHARD_WOUNDED = 1
GHOSTS = ("ran", "com", "rolled", "fin", "told")
MUT = ["m_ticket_number", "m_result", "m_runner", "m_state", "m_permanent_error", "m_wounded", "m_requested_locks", "m_restarted"]


def one_of(x, *vs):
    return Or(*[x == v for v in vs])


class G:
    def __init__(self, d):
        self.ran = d["g:ran"]
        self.com, self.rolled, self.fin, self.told = (d["g:" + n].t[0] for n in GHOSTS[1:])


def now(E):
    return G(E.vars)


def setg(E, n, z):
    v = E.vars["g:" + n]
    E.set_root("g:" + n, Val(v.T, [z]) if not isinstance(z, Val) else z)


def res(s):
    return s.m_result


def is_updates(r):
    return And(r.has(), r.val.idx == 0)


def is_error(r):
    return And(r.has(), r.val.idx == 1)


def final_error(r):
    return And(is_error(r), r.val.alt(1).z != R_RETRY)


def the_run(g, r):
    """r is what the run produced"""
    return And(is_updates(r), g.ran.has(), same(g.ran.val, r.val.alt(0)))


def inv(s, E):
    g, st, r = now(E), s.m_state.z, res(s)
    fin = one_of(st, FINISH_SENT, FINISH_FAILED, FINISH_COMPLETE)
    return [
        ("states are the named ones", And(0 <= st, st <= 17)),
        ("past the start there is a ticket", Imp(Not(one_of(st, INIT, BEGIN_SENT, BEGIN_FAILED)), s.m_ticket_number.has())),
        ("what is committed is what the run produced", Imp(st == COMMIT_SENT, the_run(g, r))),
        ("a committed ticket is only finished", Imp(g.com, Or(fin, st == COMMIT_SENT))),
        ("finished after a commit with its result, or after the rollback of a failure", Imp(fin, Or(And(g.com, the_run(g, r)), And(g.rolled, Not(g.com), final_error(r))))),
        ("complete once the broker finished the ticket", Imp(st == FINISH_COMPLETE, g.fin)),
        ("restarted only after a rollback", Imp(st == RB_COMPLETE, g.rolled)),
        ("a permanent failure keeps its error", Imp(And(one_of(st, RB_SENT, RB_FAILED), s.m_permanent_error.z), final_error(r))),
        ("a read-only run reads the function", Imp(s.m_is_readonly_run.z, s.m_initial_lock_type.z == READ)),
        ("locks remembered are of a kind", Forall([Buf], lambda k: Imp(s.m_requested_locks.has(k), one_of(s.m_requested_locks.at(k).z, READ, WRITE)))),
        ("before the start nothing is wounded", Imp(one_of(st, INIT, BEGIN_SENT, BEGIN_FAILED), Not(s.m_wounded.z))),
        ("the outcome is told at the end", Imp(g.told, st == FINISH_COMPLETE)),
    ]


def rest(s):
    """no failure waits to be rolled back"""
    return ("no failure is left lying", Not(one_of(s.m_state.z, FGET_FAILED, FN_FAILED, COMMIT_FAILED, FGET_ERROR, COMMIT_ERROR, FN_EXC)))


def rel(s0, s1, g0, g1):
    """what may happen between two moments"""
    return [
        ("committed stays committed, with what was run", Imp(g0.com, And(g1.com, same(g0.ran, g1.ran)))),
        ("told stays told", Imp(g0.told, g1.told)),
        ("complete is the end", Imp(s0.m_state.z == FINISH_COMPLETE, And(s1.m_state.z == FINISH_COMPLETE, same(s0.m_result, s1.m_result), same(s0.m_ticket_number, s1.m_ticket_number)))),
        ("the ticket stays the same", Imp(And(s0.m_ticket_number.has(), Not(one_of(s0.m_state.z, INIT, BEGIN_SENT, BEGIN_FAILED))), same(s0.m_ticket_number, s1.m_ticket_number))),
        ("never back to the start", Imp(Not(one_of(s0.m_state.z, INIT, BEGIN_SENT, BEGIN_FAILED)), Not(one_of(s1.m_state.z, INIT, BEGIN_SENT, BEGIN_FAILED)))),
    ]


def meanwhile(E):
    """anything the agent does may have happened"""
    this, g = E.vars["this"], now(E)
    for nm, fm in inv(this, E) + [rest(this)]:
        E.oblige("invariant before others act: " + nm, "inv", fm, E.cur_e)
    for n in GHOSTS:
        E.set_root("g:" + n, E.fresh_val(E.vars["g:" + n].T, "g_" + n))
    new = this
    for n in MUT:
        new = set_field(new, n, E.fresh_val(this.T.ft(n), n))
    E.set_root("this", new)
    for _, fm in inv(new, E) + rel(this, new, g, now(E)) + [rest(new)]:
        E.assume(fm)


def plain(E, a, f):
    v = E.ev(a, f) if not isinstance(a, Val) else a
    if isinstance(v, Ref):
        v = E.read(v.loc)
    if isinstance(v, Loc):
        v = E.read(v)
    return v


def outcome(E):
    """refused, answered at once or later"""
    if not E.choose(E.fresh(B, "started")):
        return "refused"
    return "now" if E.choose(E.fresh(B, "answered_at_once")) else "later"


NO, YES = lambda: Val(TBool(), [z3.BoolVal(False)]), lambda: Val(TBool(), [z3.BoolVal(True)])
RET = {"begin": "ticketnum_or_errcode_type", "try_lock": "try_lock_return_type", "commit": "commit_return_type", "finish": "finish_return_type", "rollback": "rollback_return_type"}


def getfn(E, n):
    this = E.vars["this"]
    return field(this, n)


def request(op):
    def h(E, sp, args, e, f):
        vs = [plain(E, a, f) for a in args]
        E.cur_e = e
        this, g, K = E.vars["this"], now(E), E.K
        st, lam = this.m_state.z, vs[-1]
        ob = lambda nm, fm: E.oblige(nm, "post", fm, e)
        if op != "begin":
            ob("the broker is asked about the agent's ticket", And(this.m_ticket_number.has(), vs[0].z == this.m_ticket_number.val.z))
        if op == "begin":
            ob("a ticket is asked for only at the start", And(st == BEGIN_SENT, one_of(E.pre_vars["this"].m_state.z, INIT, BEGIN_SENT, BEGIN_FAILED)))
        if op == "commit":
            ob("a commit is asked for only once the function ran", And(st == COMMIT_SENT, g.ran.has()))
            ob("exactly what the run produced is committed, nothing for a read-only run", same(vs[1], Val(vs[1].T, If2(this.m_is_readonly_run.z, default(vs[1].T), g.ran.val))))
        if op == "rollback":
            ob("a committed ticket is not rolled back", And(st == RB_SENT, Not(g.com)))
            ob("whether the failure is permanent is remembered", this.m_permanent_error.z == E.pre_args[0].z)
            setg(E, "rolled", z3.BoolVal(False))
        if op == "finish":
            ob("a ticket is finished only once it is committed or rolled back for good", And(st == FINISH_SENT, Or(g.com, And(g.rolled, final_error(res(this))))))
        if op == "try_lock":
            ob("a read-only run takes no write lock", Imp(this.m_is_readonly_run.z, vs[2].z == READ))
            if K.fn.endswith("::do_start"):
                ob("the function is retrieved by its key, locked as asked", And(st == FGET_SENT, vs[1].z == getfn(E, "m_function").z, vs[2].z == this.m_initial_lock_type.z))
                setg(E, "rolled", z3.BoolVal(False))
            else:
                ob("locks are requested only while the function runs and the ticket is not wounded", And(st == STARTED, Not(this.m_wounded.z)))
                if K.fn.endswith("::do_try_lock_request"):
                    rl0, rl = E.pre_vars["this"].m_requested_locks, this.m_requested_locks
                    k, lt = E.pre_args[0].z, E.pre_args[1].z
                    ob("the lock requested is the runner's", And(vs[1].z == k, vs[2].z == lt))
                    ob("the lock is remembered for a restart, at its strongest", And(rl.has(k), rl.at(k).z == If(And(rl0.has(k), rl0.at(k).z == WRITE), WRITE, lt)))
                    ob("other locks stay remembered", Forall([Buf], lambda x: Imp(x != k, And(rl.has(x) == rl0.has(x), Imp(rl0.has(x), rl.at(x).z == rl0.at(x).z)))))
            if K.fn.endswith("::handle_function"):
                rl0 = E.pre_vars["this"].m_requested_locks
                ob("only remembered locks are retaken, as they were held", And(rl0.has(vs[1].z), vs[2].z == rl0.at(vs[1].z).z))
        E.events.append(("request", op, vs))
        o = outcome(E)
        if o == "refused":
            return NO()
        if o == "later" and K.fn.endswith("::handle_function"):
            # the mutex is held until every lock is asked for: nothing happens before, the answer comes to whatever state is then reached
            if E.choose(E.fresh(B, "answered_here")):
                meanwhile(E)
                locks, n0 = E.vars["g:relocks"], E.vars["g:recount"]
                n = E.fresh_val(n0.T, "recount")
                E.assume(And(n0.z <= n.z, n.z < card(locks.t[0])))     # each request is answered once; this one was not
                E.set_root("g:recount", n)
                E.call_value(lam, [E.fresh_val(E.types.parse(BI + RET[op], ()), "answer")], e, f)
                for nm, fm in inv(E.vars["this"], E) + [rest(E.vars["this"])]:
                    E.oblige("invariant after the answer: " + nm, "inv", fm, e)
                raise PathEnd()
            return YES()
        if o == "later":
            meanwhile(E)
            return YES()
        for nm, fm in inv(E.vars["this"], E):
            E.oblige("invariant before the answer: " + nm, "inv", fm, e)
        r = E.fresh_val(E.types.parse(BI + RET[op], ()), "answer")
        if op in ("commit", "finish", "rollback"):
            n = {"commit": "com", "finish": "fin", "rollback": "rolled"}[op]
            old = E.vars["g:" + n].t[0]
            setg(E, n, Not(r.has()) if op == "rollback" else Or(old, Not(r.has())))
            if op == "commit":
                E.assume(Imp(r.has(), Not(old)))      # a request is answered once
        E.call_value(lam, [r], e, f)
        return YES()
    return h


def If2(c, a, b):
    return [If(c, x, y) for x, y in zip(a.t, b.t)]


def run(E, sp, args, e, f):
    E.cur_e = e
    this = E.vars["this"]
    E.oblige("the function runs in its own state", "post", this.m_state.z == STARTED, e)
    setg(E, "rolled", z3.BoolVal(False))
    E.events.append(("request", "run", []))
    o = outcome(E)
    if o == "refused":
        return NO()
    if o == "later":
        meanwhile(E)
        return YES()
    for nm, fm in inv(this, E):
        E.oblige("invariant before the answer: " + nm, "inv", fm, e)
    r = E.fresh_val(E.types.parse("cbdc::parsec::agent::runner::interface::run_return_type", ()), "run_result")
    setg(E, "ran", Val(E.vars["g:ran"].T, If2(r.idx == 0, E.some(E.vars["g:ran"].T, r.alt(0)), E.vars["g:ran"])))
    E.call_value(E.runner_cb, [r], e, f)
    return YES()


def on_call(E, fv, vals, e, f):
    E.cur_e = e
    this, g, K = E.vars["this"], now(E), E.K
    ob = lambda nm, fm: E.oblige(nm, "post", fm, e)
    if len(vals) == 10:
        # the runner factory
        a = E.pre_args
        ob("the factory given is used", fv.t[0] == this.m_runner_factory.t[0])
        ob("the runner gets the function retrieved, the parameter and the ticket", And(vals[2].z == a[0].z, vals[3].z == getfn(E, "m_param").z, vals[4].z == this.m_is_readonly_run.z, this.m_ticket_number.has(), vals[9].z == this.m_ticket_number.val.z))
        ob("restarted functions run on a thread of their own", vals[8].t[0] == If(this.m_restarted.z, E.nullconst(vals[8].T), this.m_threads.t[0]) if isinstance(vals[8], Val) else z3.BoolVal(False))
        E.runner_cb, E.runner_lock = vals[5], vals[6]
        E.events.append(("request", "factory", vals))
        return E.fresh_val(this.T.ft("m_runner"), "runner")
    if K.fn.endswith("::handle_try_lock_response"):
        w = E.pre_args[1]
        ob("the answer goes to who asked for the lock", And(fv.t[0] == E.pre_args[0].t[0], same(vals[0], w)))
        ob("answers are handed over only while the function runs", this.m_state.z == STARTED)
        ob("a wounded ticket is noticed", Imp(And(w.idx == 2, w.alt(2).m_error_code.z == SHARD_WOUNDED), this.m_wounded.z))
        E.events.append(("call", fv, vals))
        meanwhile(E)
        return VOID
    r = vals[0]
    ob("the caller's own callback is told", fv.t[0] == getfn(E, "m_result_callback").t[0])
    rv = r if isinstance(r, Val) and isinstance(r.T, TVar) else E.coerce(r, this.m_result.T.t)
    st = this.m_state.z
    ob("success is reported only once the ticket is committed and finished, with what the run produced", Imp(rv.idx == 0, And(g.com, g.fin, st == FINISH_COMPLETE, g.ran.has(), same(g.ran.val, rv.alt(0)))))
    ob("a committed and finished ticket is reported as such", Imp(And(st == FINISH_COMPLETE, g.com), rv.idx == 0))
    ob("the outcome is reported once", Imp(st == FINISH_COMPLETE, Not(g.told)))
    ob("a retry is asked for only after the ticket was rolled back", Imp(And(rv.idx == 1, rv.alt(1).z == R_RETRY), And(st == RB_COMPLETE, g.rolled)))
    ob("reported only when no request is waited for", one_of(st, BEGIN_FAILED, FINISH_FAILED, RB_FAILED, RB_COMPLETE, FINISH_COMPLETE))
    setg(E, "told", Or(g.told, st == FINISH_COMPLETE))
    E.events.append(("call", fv, vals))
    meanwhile(E)
    return VOID


def reqs(C, op=None):
    return [x for x in C.events if x[0] == "request" and (op is None or x[1] == op)]


def calls(C):
    return [x for x in C.events if x[0] == "call"]


class Op(Contract):
    havocs = GHOSTS
    resting = True

    def requires(self, C):
        return [rest(C.this)] + self.pre(C)

    def pre(self, C):
        return []

    def modifies(self, C):
        return MUT

    def ghost(self, C):
        # not a fact: remembers the ghost state before the call
        E = C.E
        if getattr(E, "K", None) is not None and E.K.fn == self.fn and not getattr(E, "started", False):
            return []
        self.g0 = G(dict(E.vars))
        return []

    def before(self, C):
        E = C.E
        return E.g_entry if E.K.fn == self.fn else self.g0

    def ensures(self, C):
        out = list(rel(C.old, C.this, self.before(C), now(C.E))) + [rest(C.this)]
        return out + (self.post(C) if C.E.K.fn == self.fn and hasattr(C, "events") else [])

    def post(self, C):
        return []

    def loopcands(self, Lc):
        E = Lc.E
        return list(inv(Lc.this, E)) + rel(Lc.at_entry, Lc.this, G(Lc.entry_vars), now(E)) + list(self.loops(Lc))

    def loops(self, Lc):
        return []


def one_request(C, op, first=True):
    """the call makes exactly this request itself (and only reports besides)"""
    r = reqs(C)
    return (op + " is requested once", z3.BoolVal(len(r) == 1 and r[0][1] == op))


def nothing(C):
    return z3.BoolVal(not C.events)


def st0(C):
    return C.old.m_state.z


class Ctor(Op):
    fn, short = Q + "::impl", "agent::impl"

    def requires(self, C):
        g = now(C.E)
        return [("nothing happened yet", And(Not(g.com), Not(g.told)))]

    def ensures(self, C):
        s = C.this
        return [("a new agent", And(s.m_state.z == INIT, Not(s.m_ticket_number.has()), Not(s.m_wounded.z), Not(s.m_restarted.z), card(s.m_requested_locks.t[0]) == 0))]


class Exec(Op):
    fn, short = Q + "::exec", "agent::exec"

    def pre(self, C):
        return [("no answer to a commit is on its way", Imp(C.this.m_state.z == COMMIT_SENT, Not(now(C.E).com)))]

    def post(self, C):
        s = st0(C)
        return [("it starts", C.ret.z), ("nothing is done at the end", Imp(s == FINISH_COMPLETE, nothing(C)))]


class HandleBegin(Op):
    fn, short = Q + "::handle_begin", "agent::handle_begin"

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != BEGIN_SENT, And(nothing(C), same(C.old, C.this))))]


class DoStart(Op):
    fn, short = Q + "::do_start", "agent::do_start"

    def pre(self, C):
        return [("there is a ticket", C.this.m_ticket_number.has()), ("begun, or rolled back", one_of(C.this.m_state.z, BEGIN_SENT, RB_COMPLETE)), ("an attempt starts unwounded", Not(C.this.m_wounded.z)), ("not committed", Not(now(C.E).com))]


class HandleLock(Op):
    fn, short = Q + "::handle_try_lock_response", "agent::handle_try_lock_response"

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != STARTED, And(nothing(C), same(C.old, C.this))))]


class TryLock(Op):
    fn, short = Q + "::do_try_lock_request", "agent::do_try_lock_request"

    def pre(self, C):
        return [("there is a ticket", C.this.m_ticket_number.has()), ("a lock of a kind", one_of(C.arg(1).z, READ, WRITE))]

    def post(self, C):
        o, lt = C.old, C.arg(1).z
        ro = And(o.m_is_readonly_run.z, lt == WRITE)
        return [("refused outside of a run and for write locks of read-only runs", Imp(Or(st0(C) != STARTED, ro), And(Not(C.ret.z), z3.BoolVal(not reqs(C)), same(C.old, C.this)))),
                ("a wounded ticket requests no more locks", Imp(And(st0(C) == STARTED, Not(ro), o.m_wounded.z), And(C.ret.z, z3.BoolVal(not reqs(C)))))]


class HandleFunction(Op):
    fn, short = Q + "::handle_function", "agent::handle_function"
    opts = {"inline": (Q + "::do_try_lock_request", Q + "::handle_try_lock_response")}

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != FGET_SENT, And(nothing(C), same(C.old, C.this))))]

    def loops(self, Lc):
        E = Lc.E
        n, sz = E.vars["g:recount"].z, card(E.vars["g:relocks"].t[0])
        yield "answers come after requests, until the function runs", Or(And(Lc.this.m_state.z == STARTED, 0 <= n, n <= Lc.pos), Lc.pos == sz)
        yield rest(Lc.this)
        yield "the locks to retake are those remembered", same(E.vars["g:relocks"], E.pre_vars["this"].m_requested_locks)


class DoRunner(Op):
    fn, short = Q + "::do_runner", "agent::do_runner"

    def pre(self, C):
        out = [("the function was retrieved", C.this.m_state.z == STARTED)]
        if C.E.K.fn.endswith("::handle_function"):
            rl0 = C.E.pre_vars["this"].m_requested_locks
            out.append(("every lock held before the restart was retaken", Or(card(rl0.t[0]) == 0, C.E.vars["g:recount"].z == card(rl0.t[0]))))
        return out

    def post(self, C):
        r = reqs(C)
        return [("a runner is made and run", z3.BoolVal([x[1] for x in r] == ["factory", "run"]))]


class DoCommit(Op):
    fn, short = Q + "::do_commit", "agent::do_commit"

    def pre(self, C):
        return [("not committed", Not(now(C.E).com)), ("the function ran", And(one_of(C.this.m_state.z, STARTED, COMMIT_FAILED, COMMIT_SENT), the_run(now(C.E), res(C.this))))]

    def post(self, C):
        return [one_request(C, "commit")]


class HandleRun(Op):
    fn, short = Q + "::handle_run", "agent::handle_run"

    def pre(self, C):
        r, g = C.arg(0), now(C.E)
        return [("the runner's answer", Imp(And(C.this.m_state.z == STARTED, r.idx == 0), And(g.ran.has(), same(g.ran.val, r.alt(0)))))]

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != STARTED, And(nothing(C), same(C.old, C.this))))]


class HandleCommit(Op):
    fn, short = Q + "::handle_commit", "agent::handle_commit"

    def pre(self, C):
        r, g = C.arg(0), now(C.E)
        return [("the broker's answer", Imp(C.this.m_state.z == COMMIT_SENT, g.com == Not(r.has())))]

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != COMMIT_SENT, And(nothing(C), same(C.old, C.this))))]


def kind_of_failure(C, st):
    """what the answer being handled says about the failure reported"""
    E, K = C.E, C.E.K
    own = lambda n: K.fn == Q + "::" + n
    if own("handle_commit"):
        r = E.pre_args[0]
        v = r.val
        return [("a commit is retried unless its outcome is in doubt or a shard refused it", st == If(Or(And(v.idx == 0, v.alt(0).z == HAZARD), And(v.idx == 1, v.alt(1).m_error_code.z != SHARD_WOUNDED), v.idx == 2), COMMIT_ERROR, COMMIT_FAILED))]
    if own("handle_run"):
        r = E.pre_args[0]
        return [("a function is run again only if it was wounded", st == If(r.alt(1).z == WOUNDED_RUN, FN_FAILED, FN_EXC))]
    if own("handle_function"):
        r = E.pre_args[0]
        return [("retrieving the function is retried unless a shard refused", st == If(And(r.idx == 2, r.alt(2).m_error_code.z != SHARD_WOUNDED), FGET_ERROR, FGET_FAILED))]
    if own("handle_rollback"):
        return [("a permanent failure is not retried", Imp(st == RB_COMPLETE, Not(E.pre_vars["this"].m_permanent_error.z)))]
    return []


class DoResult(Op):
    fn, short = Q + "::do_result", "agent::do_result"

    def requires(self, C):
        return self.pre(C)

    def pre(self, C):
        s, g = C.this, now(C.E)
        st, r = s.m_state.z, res(s)
        return [("there is a result", r.has()),
                ("no request is waited for", one_of(st, BEGIN_FAILED, FGET_FAILED, FN_FAILED, COMMIT_FAILED, FINISH_FAILED, RB_FAILED, FGET_ERROR, COMMIT_ERROR, FN_EXC, FINISH_COMPLETE, RB_COMPLETE)),
                ("short of the end the result is an error", Imp(st != FINISH_COMPLETE, is_error(r))),
                ("not committed", Imp(Not(one_of(st, FINISH_FAILED, FINISH_COMPLETE)), Not(g.com))),
                ("a permanent error is one", Imp(one_of(st, FGET_ERROR, COMMIT_ERROR, FN_EXC, FINISH_FAILED, BEGIN_FAILED, RB_FAILED), final_error(r))),
                ("a retry once rolled back", Imp(st == RB_COMPLETE, r.val.alt(1).z == R_RETRY)),
                ("told once", Not(g.told))] + kind_of_failure(C, st)

    def post(self, C):
        s = st0(C)
        back = one_of(s, FGET_FAILED, FN_FAILED, COMMIT_FAILED, FGET_ERROR, COMMIT_ERROR, FN_EXC)
        c = calls(C)
        return [("failures before the commit are rolled back first, nothing is reported", Imp(back, z3.BoolVal(not c))),
                ("otherwise the result is reported", Imp(Not(back), z3.BoolVal(len(c) == 1) if len(c) != 1 else same(c[0][2][0], C.old.m_result.val)))]


class DoFinish(Op):
    fn, short = Q + "::do_finish", "agent::do_finish"

    def pre(self, C):
        s, g = C.this, now(C.E)
        st = s.m_state.z
        own = [("only a permanent failure is finished", C.E.pre_vars["this"].m_permanent_error.z)] if C.E.K.fn.endswith("::handle_rollback") else []
        return own + [("committed, or rolled back for good", Or(And(one_of(st, COMMIT_SENT), g.com, the_run(g, res(s))), And(st == RB_COMPLETE, g.rolled, Not(g.com), final_error(res(s))), one_of(st, FINISH_SENT, FINISH_FAILED)))]

    def post(self, C):
        return [one_request(C, "finish")]


class HandleFinish(Op):
    fn, short = Q + "::handle_finish", "agent::handle_finish"

    def pre(self, C):
        r, g = C.arg(0), now(C.E)
        return [("the broker's answer", Imp(And(C.this.m_state.z == FINISH_SENT, Not(r.has())), g.fin))]

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != FINISH_SENT, And(nothing(C), same(C.old, C.this))))]


class DoRollback(Op):
    fn, short = Q + "::do_rollback", "agent::do_rollback"

    def requires(self, C):
        return self.pre(C)

    def pre(self, C):
        s, g = C.this, now(C.E)
        st = s.m_state.z
        return [("something to roll back", one_of(st, COMMIT_FAILED, RB_SENT, FN_EXC, FN_FAILED, COMMIT_ERROR, FGET_FAILED, FGET_ERROR, FGET_SENT, STARTED, RB_FAILED)), ("not committed", Not(g.com)),
                ("a permanent failure has its error", Imp(C.arg(0).z, final_error(res(s)))),
                ("permanent failures stay permanent, others are retried", C.arg(0).z == Or(one_of(st, FGET_ERROR, COMMIT_ERROR, FN_EXC), And(one_of(st, RB_SENT, RB_FAILED), s.m_permanent_error.z)))]

    def post(self, C):
        return [one_request(C, "rollback")]


class HandleRollback(Op):
    fn, short = Q + "::handle_rollback", "agent::handle_rollback"

    def pre(self, C):
        r, g = C.arg(0), now(C.E)
        return [("the broker's answer", Imp(And(C.this.m_state.z == RB_SENT, Not(r.has())), g.rolled))]

    def post(self, C):
        return [("an answer not waited for is ignored", Imp(st0(C) != RB_SENT, And(nothing(C), same(C.old, C.this))))]


class GetTicket(Op):
    fn, short = Q + "::get_ticket_number", "agent::get_ticket_number"

    def post(self, C):
        return [("the ticket's number", same(C.ret, C.old.m_ticket_number)), ("nothing changes", same(C.old, C.this))]


class GetState(Op):
    fn, short = Q + "::get_state", "agent::get_state"

    def post(self, C):
        return [("the state", C.ret.z == C.old.m_state.z), ("nothing changes", same(C.old, C.this))]


# pointers to the locks to retake and to the count of those retaken
LOCKS = "P_held_locks"
COUNT = "P__u64_"


def made(root):
    """the one object of its kind the function makes"""
    def h(E, T, args, e, f):
        if "g:%s:made" % root in E.vars:
            raise Unsupported("a second object behind " + T.sortname)
        E.vars["g:%s:made" % root] = Val(TBool(), [z3.BoolVal(True)])
        E.set_root("g:" + root, default(E.vars["g:" + root].T))
        p = E.fresh_val(T, "new")
        E.assume(p.t[0] != E.nullconst(T))
        return p
    return h


class AgentUnit(Unit):
    name = "agent"
    sources = ["src/parsec/agent/impl.cpp", "src/parsec/agent/interface.cpp"]
    overrides = {"cbdc::buffer": TOpaque("Buf")}
    ptr_alias = {"<map<": "held_locks"}
    contracts = [Ctor(), Exec(), HandleBegin(), DoStart(), HandleLock(), TryLock(), HandleFunction(), DoRunner(), DoCommit(), HandleRun(), HandleCommit(), DoResult(), DoFinish(), HandleFinish(), DoRollback(), HandleRollback(), GetTicket(), GetState()]
    invariants = {Q: inv}
    externs = {"on_call": on_call, "heap": {LOCKS: lambda E, p: Loc("g:relocks"), COUNT: lambda E, p: Loc("g:recount")}, "make": {LOCKS: made("relocks"), COUNT: made("recount")},
               "method": dict([(("P_interface", o), request(o)) for o in RET] + [(("P_interface", "run"), run)])}

    def on_ghosts(self, E, C):
        up = E.types.parse("cbdc::parsec::broker::state_update_type", ())
        E.vars["g:ran"] = E.fresh_val(TOpt(up), "ran")
        for n in GHOSTS[1:]:
            E.vars["g:" + n] = E.fresh_val(TBool(), n)
        E.vars["g:relocks"] = E.fresh_val(E.types.parse("cbdc::parsec::broker::held_locks_set_type", ()), "relocks")
        E.vars["g:recount"] = E.fresh_val(TInt(64, False), "recount")
        E.g_entry = G(dict(E.vars))
        E.runner_cb = None


unit = AgentUnit()
