"""parsec broker: src/parsec/broker/impl.cpp

Ticket states live behind shared pointers: the ghost root g:heap maps each pointer to the state it designates.  Evidence ghosts, indexed by
state object (one per attempt of a ticket) and shard, record the positive answers the shards gave; g:ask records that some shard was asked to
commit.  A request to a shard is answered later (nothing happens while it is made) or at once: then the callback handed over is run on an
arbitrary answer, which also decides that it routes the answer to the right ticket and shard."""
from units.common import *

Q = "cbdc::parsec::broker::impl"
Buf = usort("Buf")
BEGUN, PREPARED, COMMITTED, ABORTED = 0, 1, 2, 3
(S_BEGUN, S_PREPARING, S_PREPARED, S_WOUNDED, S_COMMITTING, S_COMMITTED, S_ROLLING, S_ROLLED, S_FINISHING, S_FINISHED) = range(10)
(E_ASSIGN, E_UNKNOWN, E_PREPARED, E_SHARD, E_TM, E_COMMITTED, E_NOTPREP, E_BEGUN, E_ABORTED, E_DIR, E_STATE, E_WAIT, E_COMMIT, E_ROLL, E_PREP, E_FIN, E_GET, E_HAZARD) = range(18)
LOCKING, LOCKED = 0, 1
U64 = TInt(64, False)
Ps = usort("P_state")
GHOSTS = ("heap", "prep", "com", "roll", "fin", "ask")


class TArr(TOpaque):
    def __init__(self, name, *idx):
        s = B
        for i in reversed(idx):
            s = z3.ArraySort(i, s)
        self.sort, self.sortname, self.name = s, "arr_" + name, "arr_" + name

    def leaves(self):
        return [self.sort]


EV = TArr("evidence", Ps, I)
ASK = TArr("asked", Ps)


def state_type(E):
    return E.types.parse(Q + "::state", Q)


def heap_type(E):
    return TMap(TOpaque("P_state"), state_type(E))


def gv(E, n):
    return E.vars["g:" + n]


def sel2(a, p, s):
    return z3.Select(z3.Select(a, p), s)


class G:
    """ghost state at one moment"""
    def __init__(self, d):
        self.h = d["g:heap"]
        self.prep, self.com, self.roll, self.fin, self.ask = (d["g:" + n].t[0] for n in ("prep", "com", "roll", "fin", "ask"))

    def live(self, p):
        return self.h.has(p)

    def st(self, p):
        return self.h.at(p).m_state.z

    def sh(self, p):
        return self.h.at(p).m_shard_states

    def has(self, p, s):
        return self.sh(p).has(s)

    def ss(self, p, s):
        return self.sh(p).at(s).m_state.z

    def keys(self, p, s):
        return self.sh(p).at(s).m_key_states


def now(E):
    return G(E.vars)


def tick(this, t):
    """pointer of ticket t"""
    return this.m_tickets.at(t).t[0]


def one_of(x, *vs):
    return Or(*[x == v for v in vs])


def idx_of(E, p):
    return E.uf("shard_index", [p], I)


def inv(s, E):
    g = now(E)
    T, n = s.m_tickets, s.m_shards.len
    null = E.nullconst(TOpaque("P_state"))
    hold = lambda p, s_: And(g.live(p), g.has(p, s_))
    return [
        ("every ticket has a state of its own", And(Not(g.live(null)), Forall([I], lambda t: Imp(T.has(t), g.live(tick(s, t)))),
                                                    Forall([I, I], lambda t, u: Imp(And(T.has(t), T.has(u), tick(s, t) == tick(s, u)), t == u)))),
        ("shards are distinct objects", Forall([I], lambda i: Imp(frange(i, n), idx_of(E, s.m_shards.at(i).t[0]) == i))),
        ("states are the named ones", Forall([Ps], lambda p: Imp(g.live(p), And(0 <= g.st(p), g.st(p) <= 3)))),
        ("shards of a ticket exist", Forall([Ps, I], lambda p, s_: Imp(hold(p, s_), And(frange(s_, n), 0 <= g.ss(p, s_), g.ss(p, s_) <= 9)))),
        ("a shard counts as prepared once it answered so", Forall([Ps, I], lambda p, s_: Imp(And(hold(p, s_), Or(g.ss(p, s_) == S_PREPARED, g.st(p) == PREPARED)), sel2(g.prep, p, s_)))),
        ("a shard counts as committed once it answered so", Forall([Ps, I], lambda p, s_: Imp(And(hold(p, s_), Or(one_of(g.ss(p, s_), S_COMMITTED, S_FINISHING, S_FINISHED), g.st(p) == COMMITTED)), sel2(g.com, p, s_)))),
        ("a shard counts as rolled back once it answered so", Forall([Ps, I], lambda p, s_: Imp(And(hold(p, s_), Or(g.ss(p, s_) == S_ROLLED, g.st(p) == ABORTED)), sel2(g.roll, p, s_)))),
        ("a shard counts as finished once it answered so", Forall([Ps, I], lambda p, s_: Imp(And(hold(p, s_), g.ss(p, s_) == S_FINISHED), sel2(g.fin, p, s_)))),
        ("a locked key has its value", Forall([Ps, I, Buf], lambda p, s_, k: Imp(And(hold(p, s_), g.keys(p, s_).has(k), g.keys(p, s_).at(k).m_key_state.z == LOCKED), g.keys(p, s_).at(k).m_value.has()))),
        ("a ticket counts as rolled back once all of its shards do", Forall([Ps, I], lambda p, s_: Imp(And(hold(p, s_), g.st(p) == ABORTED), g.ss(p, s_) == S_ROLLED))),
        ("no shard was asked to commit a ticket that is begun or rolled back", Forall([Ps], lambda p: Imp(Or(Not(g.live(p)), one_of(g.st(p), BEGUN, ABORTED)), Not(z3.Select(g.ask, p))))),
    ]


def lattice(a, b):
    return Or(a == b, a == BEGUN, And(a == PREPARED, b == COMMITTED))


def finished(g, p):
    return And(g.st(p) == COMMITTED, Forall([I], lambda s: Imp(g.has(p, s), g.ss(p, s) == S_FINISHED)))


def rel(E, s0, s1, g0, g1, p=None):
    """what may happen between two moments; with p: and no shard joins or leaves the attempt p"""
    T0, T1 = s0.m_tickets, s1.m_tickets
    out = [
        ("states only advance", Forall([Ps], lambda q: Imp(g0.live(q), And(g1.live(q), lattice(g0.st(q), g1.st(q)))))),
        ("a ticket keeps its state until it is decided", Forall([I], lambda t: Imp(T0.has(t), Or(And(T1.has(t), tick(s1, t) == tick(s0, t)), g1.st(tick(s0, t)) == ABORTED, finished(g1, tick(s0, t)))))),
        ("the shards of an attempt stay the same once it is prepared or rolled back", Forall([Ps], lambda q: Imp(And(g0.live(q), g0.st(q) != BEGUN), g1.sh(q).t[0] == g0.sh(q).t[0]))),
        ("finished stays finished", Forall([Ps, I], lambda q, s: Imp(And(g0.live(q), g0.has(q, s), g0.st(q) == COMMITTED, g0.ss(q, s) == S_FINISHED), And(g1.has(q, s), g1.ss(q, s) == S_FINISHED)))),
        ("answers are not forgotten", Forall([Ps, I], lambda q, s: And(*[Imp(sel2(a, q, s), sel2(b, q, s)) for a, b in ((g0.prep, g1.prep), (g0.com, g1.com), (g0.roll, g1.roll), (g0.fin, g1.fin))]))),
        ("asked stays asked", Forall([Ps], lambda q: Imp(z3.Select(g0.ask, q), z3.Select(g1.ask, q)))),
    ]
    if p is not None:
        out.append(("the shards of this attempt stay the same", Imp(g0.live(p), g1.sh(p).t[0] == g0.sh(p).t[0])))
    return out


def others(E, s0, s1, g0, g1, t, p):
    """with well-behaved callbacks, an operation on one ticket leaves the others alone"""
    T0, T1 = s0.m_tickets, s1.m_tickets
    kn = T0.has(t)
    return ("other tickets are left alone", Imp(E.vars["g:quiet"].t[0], And(
        Forall([Ps], lambda q: Imp(And(g0.live(q), Not(And(kn, q == p))), same(g1.h.at(q), g0.h.at(q)))),
        Forall([I], lambda u: Imp(u != t, And(T1.has(u) == T0.has(u), Imp(T0.has(u), tick(s1, u) == tick(s0, u))))))))


def fns(E):
    return [a for a in E.pre_args if isinstance(a, Val) and isinstance(a.T, TOpaque) and a.T.sortname == "Fn"]


def is_none(r):
    if isinstance(r, NullOpt):
        return z3.BoolVal(True)
    return Not(r.has()) if isinstance(r, Val) and isinstance(r.T, TOpt) else z3.BoolVal(False)


def is_err(r, code):
    """the answer is the broker's error code"""
    if isinstance(r, NullOpt):
        return z3.BoolVal(False)
    c = z3.BoolVal(True)
    if isinstance(r.T, TOpt):
        c, r = r.has(), r.val
    if isinstance(r.T, TVar):
        k = [i for i, t in enumerate(r.T.ts) if isinstance(t, TEnum) and t.name.endswith("broker::interface::error_code")]
        if not k:
            return z3.BoolVal(False)
        return And(c, r.idx == k[0], r.alt(k[0]).z == code)
    return And(c, r.z == code)


class Op(Contract):
    """any function of the broker: ticket number argument tk"""
    tk = 0
    strong = True
    nocommit = False
    havocs = GHOSTS
    may = ()

    def modifies(self, C):
        return ["m_tickets"] + list(self.may)

    def ghost(self, C):
        # not a fact: remembers the ghost state before the call
        E = C.E
        if getattr(E, "K", None) is not None and E.K.fn == self.fn and not getattr(E, "started", False):
            return []
        self.g0 = G(dict(E.vars))
        return []

    def before(self, C):
        E = C.E
        return E.g_entry if E.K.fn == self.fn else self.g0

    def p(self, C):
        """the attempt the call is about"""
        return tick(C.old, C.arg(self.tk).z) if self.tk is not None else None

    def known(self, C):
        return C.old.m_tickets.has(C.arg(self.tk).z)

    def rely(self, C):
        g0 = self.before(C)
        out = rel(C.E, C.old, C.this, g0, now(C.E))
        if self.strong and self.tk is not None:
            p, kn = self.p(C), self.known(C)
            out.append(("the shards of this attempt stay the same", Imp(kn, now(C.E).sh(p).t[0] == g0.sh(p).t[0])))
            out.append(others(C.E, C.old, C.this, g0, now(C.E), C.arg(self.tk).z, p))
            if self.nocommit:
                out.append(("this attempt is not committed", Imp(And(kn, g0.st(p) == BEGUN), one_of(now(C.E).st(p), BEGUN, ABORTED))))
        return out

    def ensures(self, C):
        return self.rely(C) + (self.post(C) if C.E.K.fn == self.fn and hasattr(C, "events") else [])

    def post(self, C):
        return []

    def loopcands(self, Lc):
        E = Lc.E
        g0, g1 = G(Lc.entry_vars), now(E)
        out = list(inv(Lc.this, E)) + rel(E, Lc.at_entry, Lc.this, g0, g1)
        if self.tk is not None:
            t = E.pre_args[self.tk].z
            p = tick(Lc.at_entry, t)
            out.append(("the shards of this attempt stay the same", g1.sh(p).t[0] == g0.sh(p).t[0]))
            out.append(others(E, Lc.at_entry, Lc.this, g0, g1, t, p))
        return out + list(self.loops(Lc))

    def loops(self, Lc):
        return []


def calls(C):
    return [x for x in C.events if x[0] == "call"]


def refused(C, cond, code):
    """under cond the caller is told exactly code"""
    ev = calls(C)
    f = fns(C.E)[0]
    if len(ev) != 1:
        return Imp(cond, z3.BoolVal(False))
    return Imp(cond, And(ev[0][1].t[0] == f.t[0], is_err(ev[0][2][0], code)))


def refusals(C, K, table):
    g0, p, kn = K.before(C), K.p(C), K.known(C)
    out = [("an unknown ticket is refused", refused(C, Not(kn), E_UNKNOWN))]
    nm = {BEGUN: "begun", PREPARED: "prepared", COMMITTED: "committed", ABORTED: "aborted"}
    for st, code in table.items():
        out.append(("a ticket that is %s is refused" % nm[st], refused(C, And(kn, g0.st(p) == st), code)))
    return out


# ---- requests to the shards -----------------------------------------------------------
def plain(E, a, f):
    v = E.ev(a, f) if not isinstance(a, Val) else a
    if isinstance(v, Ref):
        v = E.read(v.loc)
    if isinstance(v, Loc):
        v = E.read(v)
    return v


def evidence(E, n, p, s, ok):
    a = gv(E, n)
    E.set_root("g:" + n, Val(a.T, [z3.Store(a.t[0], p, z3.Store(z3.Select(a.t[0], p), s, Or(ok, sel2(a.t[0], p, s))))]))


RL = "cbdc::parsec::runtime_locking_shard::interface::"


def request(op):
    def h(E, sp, args, e, f):
        vs = [plain(E, a, f) for a in args]
        this, g = E.vars["this"], now(E)
        s = idx_of(E, sp.t[0])
        t = vs[0].z
        lam = vs[-1]
        p = tick(this, t)
        E.oblige("a shard is asked about a known ticket", "post", this.m_tickets.has(t), e)
        K = E.K
        if K.tk is not None:
            E.oblige("a shard is asked about the ticket in question", "post", t == E.pre_args[K.tk].z, e)
        member = And(E.valid_shard(sp), g.has(p, s)) if hasattr(E, "valid_shard") else g.has(p, s)
        if op != "try_lock":
            E.oblige("%s is sent only to the ticket's shards" % op, "post", member, e)
        if op == "prepare":
            E.oblige("prepare is sent only while the ticket is begun", "post", g.st(p) == BEGUN, e)
            E.oblige("a prepare carries the broker's id", "post", vs[1].z == this.m_broker_id.z, e)
            up = E.K.updates(E)
            E.oblige("a shard is sent exactly the updates of the keys the ticket used on it", "post", Forall([Buf], lambda k: And(
                vs[2].has(k) == And(up.has(k), g.keys(p, s).has(k)), Imp(vs[2].has(k), vs[2].at(k).z == up.at(k).z))), e)
        if op == "commit":
            E.oblige("commit is sent only once the ticket is prepared", "post", g.st(p) == PREPARED, e)
            E.oblige("commit is sent only once every shard of the ticket prepared it", "post", Forall([I], lambda x: Imp(g.has(p, x), sel2(g.prep, p, x))), e)
            a = gv(E, "ask")
            E.set_root("g:ask", Val(a.T, [z3.Store(a.t[0], p, z3.BoolVal(True))]))
        if op == "rollback":
            E.oblige("rollback is sent only if no shard was asked to commit", "post", And(g.st(p) == BEGUN, Not(z3.Select(g.ask, p))), e)
        if op == "finish":
            E.oblige("finish is sent only once every shard of the ticket committed it", "post", And(g.st(p) == COMMITTED, Forall([I], lambda x: Imp(g.has(p, x), sel2(g.com, p, x)))), e)
        if op == "try_lock":
            K = E.K
            E.oblige("locks are requested only while the ticket is begun", "post", g.st(p) == BEGUN, e)
            E.oblige("the lock requested is the caller's", "post", And(vs[1].z == this.m_broker_id.z, vs[2].z == E.pre_args[1].z, vs[3].z == E.pre_args[2].z), e)
            E.oblige("a lock is requested from the shard responsible for the key", "post", s == E.pre_args[4].val.z, e)
            E.oblige("the first lock of a ticket on a shard is announced", "post", vs[4].z == Forall([Buf], lambda k: Imp(g.keys(p, s).has(k), And(k == vs[2].z, Not(And(E.g_entry.has(p, s), E.g_entry.keys(p, s).has(k)))))), e)
        started = E.fresh(B, "started")
        if not E.choose(started):
            return Val(TBool(), [z3.BoolVal(False)])
        atonce = E.fresh(B, "answered_at_once")
        if E.choose(atonce):
            r = E.fresh_val(E.types.parse(RL + op + "_return_type", ()), "answer")
            n = {"prepare": "prep", "commit": "com", "rollback": "roll", "finish": "fin"}.get(op)
            if n:
                evidence(E, n, p, s, Not(r.has()))
            E.call_value(lam, [r], e, f)
        return Val(TBool(), [z3.BoolVal(True)])
    return h


def key_location(E, sp, args, e, f):
    vs = [plain(E, a, f) for a in args]
    E.oblige("the directory is asked for the caller's key", "post", vs[0].z == E.pre_args[1].z, e)
    if not E.choose(E.fresh(B, "started")):
        return Val(TBool(), [z3.BoolVal(False)])
    if E.choose(E.fresh(B, "answered_at_once")):
        r = E.fresh_val(U64, "location")
        E.assume(frange(r.z, E.vars["this"].m_shards.len))
        E.call_value(vs[1], [r], e, f)
    return Val(TBool(), [z3.BoolVal(True)])


def get_ticket(E, sp, args, e, f):
    if not E.choose(E.fresh(B, "started")):
        return Val(TBool(), [z3.BoolVal(False)])
    if E.choose(E.fresh(B, "answered_at_once")):
        r = E.fresh_val(E.types.parse("cbdc::parsec::ticket_machine::interface::get_ticket_number_return_type", ()), "number")
        E.call_value(plain(E, args[0], f), [r], e, f)
    return Val(TBool(), [z3.BoolVal(True)])


# ---- the caller's callback ------------------------------------------------------------
def on_call(E, fv, vals, e, f):
    K = E.K
    this, g = E.vars["this"], now(E)
    E.oblige("the caller's own callback is invoked", "post", fv.t[0] == fns(E)[0].t[0], e)
    r = vals[0]
    if getattr(K, "reports", None):
        p = tick(E.pre_vars["this"], E.pre_args[K.tk].z)
        kn = E.pre_vars["this"].m_tickets.has(E.pre_args[K.tk].z)
        E.oblige(K.reports[0], "post", Imp(is_none(r), And(kn, K.reports[1](E, g, p))), e)
    if K.fn.endswith("::handle_lock"):
        a = E.pre_args[4]
        E.oblige("a value is handed over only from the shard's answer", "post", Imp(r.idx == 0, And(a.idx == 0, r.alt(0).z == a.alt(0).z)) if isinstance(r.T, TVar) else z3.BoolVal(True), e)
    if K.fn.endswith("::handle_find_key") and isinstance(r, Val) and isinstance(r.T, TVar):
        p, s, k = tick(E.pre_vars["this"], E.pre_args[0].z), E.pre_args[4].val.z, E.pre_args[1].z
        x = E.g_entry.keys(p, s).at(k)
        E.oblige("a value is handed over at once only if the ticket holds a sufficient lock, and it is the one the shard gave", "post", Imp(r.idx == 0, And(
            E.g_entry.has(p, s), E.g_entry.keys(p, s).has(k), x.m_key_state.z == LOCKED, x.m_locktype.z >= E.pre_args[2].z, r.alt(0).z == x.m_value.val.z)), e)
    E.events.append(("call", fv, vals))
    # the callback may use the broker again
    old, og = this, g
    for n in GHOSTS:
        E.set_root("g:" + n, E.fresh_val(gv(E, n).T, "g_" + n))
    E.set_root("this", set_field(this, "m_tickets", E.fresh_val(this.T.ft("m_tickets"), "m_tickets")))
    new = E.vars["this"]
    for _, fm in list(inv(new, E)) + rel(E, old, new, og, now(E)):
        E.assume(fm)
    if K.strong and K.tk is not None:
        t = E.pre_args[K.tk].z
        p = tick(E.pre_vars["this"], t)
        E.assume(Imp(E.pre_vars["this"].m_tickets.has(t), now(E).sh(p).t[0] == og.sh(p).t[0]))
        E.assume(others(E, old, new, og, now(E), t, p)[1])
        if K.nocommit:
            E.assume(Imp(And(E.pre_vars["this"].m_tickets.has(t), og.st(p) == BEGUN), one_of(now(E).st(p), BEGUN, ABORTED)))
    return VOID


def all_shards(g, p, fn):
    return Forall([I], lambda s: Imp(g.has(p, s), fn(s)))


COMMITTED_OK = ("a commit is reported only after every shard of the ticket committed it",
                lambda E, g, p: And(g.st(p) == COMMITTED, all_shards(g, p, lambda s: sel2(g.com, p, s))))
ROLLED_OK = ("a rollback is reported only after every shard of the ticket rolled it back",
             lambda E, g, p: And(g.st(p) == ABORTED, all_shards(g, p, lambda s: sel2(g.roll, p, s))))


class Commit(Op):
    fn, short = Q + "::commit", "broker::commit"
    reports = COMMITTED_OK

    def requires(self, C):
        return recovery_rule(self, C)

    def post(self, C):
        g0, p, kn = self.before(C), self.p(C), self.known(C)
        waiting = And(kn, one_of(g0.st(p), BEGUN, PREPARED), Exists([I, Buf], lambda s, k: And(g0.has(p, s), g0.keys(p, s).has(k), g0.keys(p, s).at(k).m_key_state.z == LOCKING)))
        return refusals(C, self, {COMMITTED: E_COMMITTED, ABORTED: E_ABORTED}) + [("a ticket waiting for locks is refused", refused(C, waiting, E_WAIT))]

    def loops(self, Lc):
        E, g = Lc.E, now(Lc.E)
        t = E.pre_args[0].z
        p = tick(Lc.old, t)
        yield "nothing asked yet", unchanged(E, Lc)
        for nm, v, v0 in Lc.locals(TMap):
            if isinstance(v.T.v, TBool):
                yield "keys noted are the ticket's: " + nm, Forall([Buf], lambda k: Imp(v.has(k), Exists([I], lambda s: And(g.has(p, s), g.keys(p, s).has(k)))))
                if Lc.enum is not None and not isinstance(Lc.enum.cval.T.v, TRec):
                    yield "updates seen are noted", Forall([Buf], lambda k: Imp(Lc.visited(k), v.has(k)))
        if Lc.enum is None:
            return
        ks = Lc.enum.cval.T.k
        if isinstance(ks, TInt):
            yield "shards seen wait for no lock", Forall([I, Buf], lambda s, k: Imp(And(Lc.visited(s), g.keys(p, s).has(k)), g.keys(p, s).at(k).m_key_state.z != LOCKING))
        elif isinstance(Lc.enum.cval.T.v, TRec):
            ms = Lc.enum.cval
            yield "keys seen are not waited for", Forall([Buf], lambda k: Imp(Lc.visited(k), ms.at(k).m_key_state.z != LOCKING))


class Prep(Op):
    def requires(self, C):
        g = now(C.E)
        t = C.arg(1).z
        return [("the ticket's own state", And(C.this.m_tickets.has(t), tick(C.this, t) == C.arg(2).t[0]))]


class DoPrepare(Prep):
    fn, short, tk = Q + "::do_prepare", "broker::do_prepare", 1

    def updates(self, E):
        return E.pre_args[3]

    def requires(self, C):
        g, p = now(C.E), C.arg(2).t[0]
        return Prep.requires(self, C) + [("the ticket is begun", g.st(p) == BEGUN),
                                         ("the ticket used every key it updates", Forall([Buf], lambda k: Imp(C.arg(3).has(k), Exists([I], lambda s: And(g.has(p, s), g.keys(p, s).has(k))))))]

    def post(self, C):
        return [("an error is an unreachable shard", Imp(C.ret.has(), C.ret.val.z == E_SHARD)), ("nothing reported", z3.BoolVal(not calls(C)))]

    def loops(self, Lc):
        E, g = Lc.E, now(Lc.E)
        if Lc.enum is None:
            return
        p = E.pre_args[2].t[0]
        if isinstance(Lc.enum.cval.T.k, TOpaque):
            up = E.pre_args[3]
            s = outer_key(E)
            if s is not None:
                for nm, v, v0 in Lc.locals(TMap):
                    yield "updates so far: " + nm, Forall([Buf], lambda k: And(v.has(k) == And(Lc.visited(k), g.keys(p, s).has(k)), Imp(v.has(k), v.at(k).z == up.at(k).z)))
                yield "nothing asked meanwhile", unchanged(E, Lc)
                return
        yield "the ticket's own state until decided", Or(And(Lc.this.m_tickets.has(E.pre_args[1].z), tick(Lc.this, E.pre_args[1].z) == p), one_of(g.st(p), COMMITTED, ABORTED))


def outer_key(E):
    """the element the enclosing loop over a map is at"""
    for rec, roots, entry in E.loopstack:
        if rec.enum is not None and rec.enum.ord is not None and rec.posroot in E.vars:
            return z3.Select(rec.enum.ord, E.vars[rec.posroot].t[0])
    return None


def unchanged(E, Lc):
    return And(*[a == b for n in GHOSTS for a, b in zip(gv(E, n).t, Lc.entry_vars["g:" + n].t)])


class DoCommit(Prep):
    fn, short, tk = Q + "::do_commit", "broker::do_commit", 1

    def requires(self, C):
        return Prep.requires(self, C) + [("the ticket is prepared", now(C.E).st(C.arg(2).t[0]) == PREPARED)]

    def post(self, C):
        return [("an error is an unreachable shard", Imp(C.ret.has(), C.ret.val.z == E_SHARD)), ("nothing reported", z3.BoolVal(not calls(C)))]

    def loops(self, Lc):
        E, g = Lc.E, now(Lc.E)
        p = E.pre_args[2].t[0]
        yield "the ticket's own state until decided", Or(And(Lc.this.m_tickets.has(E.pre_args[1].z), tick(Lc.this, E.pre_args[1].z) == p), one_of(g.st(p), COMMITTED, ABORTED))
        yield "prepared or committed", one_of(g.st(p), PREPARED, COMMITTED)


class Handler(Op):
    """an answer of a shard of the ticket's current attempt; a positive one is evidence"""
    tk = 1
    ev = None

    def requires(self, C):
        t, s, r = C.arg(1).z, C.arg(2).z, C.arg(3)
        p = tick(C.this, t)
        g = now(C.E)
        kn = C.this.m_tickets.has(t)
        return [("the answer is from a shard of the current attempt", Imp(kn, g.has(p, s))),
                ("a positive answer is the shard's own", Imp(And(kn, is_none(r)), sel2(getattr(g, self.ev), p, s)))]

    def loops(self, Lc):
        E = Lc.E
        g = now(E)
        p = tick(Lc.old, E.pre_args[1].z)
        if Lc.enum is not None and isinstance(Lc.enum.cval.T.k, TInt):
            want = {"prep": S_PREPARED, "com": S_COMMITTED, "roll": S_ROLLED, "fin": S_FINISHED}[self.ev]
            yield "shards seen answered positively", Forall([I], lambda s: Imp(Lc.visited(s), g.ss(p, s) == want))
        for n in GHOSTS:
            yield "nothing asked yet: " + n, And(*[a == b for a, b in zip(gv(E, n).t, Lc.entry_vars["g:" + n].t)])


class HandlePrepare(Handler):
    fn, short, ev = Q + "::handle_prepare", "broker::handle_prepare", "prep"
    reports = COMMITTED_OK

    def post(self, C):
        return refusals(C, self, {PREPARED: E_PREPARED, COMMITTED: E_COMMITTED, ABORTED: E_ABORTED})


class HandleCommit(Handler):
    fn, short, ev = Q + "::handle_commit", "broker::handle_commit", "com"
    reports = COMMITTED_OK

    def post(self, C):
        return refusals(C, self, {BEGUN: E_NOTPREP, COMMITTED: E_COMMITTED, ABORTED: E_ABORTED})


class HandleRollback(Handler):
    fn, short, ev = Q + "::handle_rollback", "broker::handle_rollback", "roll"
    reports = ROLLED_OK
    nocommit = True

    def post(self, C):
        return refusals(C, self, {PREPARED: E_PREPARED, COMMITTED: E_COMMITTED, ABORTED: E_ABORTED})


class HandleFinish(Handler):
    fn, short, ev = Q + "::handle_finish", "broker::handle_finish", "fin"
    reports = ("a finish is reported only after every shard of the committed ticket finished it",
               lambda E, g, p: And(g.st(p) == COMMITTED, all_shards(g, p, lambda s: sel2(g.fin, p, s)), Not(E.vars["this"].m_tickets.has(E.pre_args[1].z))))

    def post(self, C):
        return refusals(C, self, {BEGUN: E_BEGUN, PREPARED: E_PREPARED, ABORTED: E_ABORTED})


class Rollback(Op):
    fn, short = Q + "::rollback", "broker::rollback"
    reports = ROLLED_OK
    nocommit = True

    def requires(self, C):
        return recovery_rule(self, C)

    def post(self, C):
        return refusals(C, self, {PREPARED: E_PREPARED, COMMITTED: E_COMMITTED, ABORTED: E_ABORTED})

    def loops(self, Lc):
        E, g = Lc.E, now(Lc.E)
        t = E.pre_args[0].z
        p = tick(Lc.old, t)
        yield "the ticket's own state until decided", Or(And(Lc.this.m_tickets.has(t), tick(Lc.this, t) == p, g.st(p) == BEGUN), g.st(p) == ABORTED)


class Finish(Op):
    fn, short = Q + "::finish", "broker::finish"
    reports = ("a finish is reported at once only for a ticket that was rolled back, which is then forgotten",
               lambda E, g, p: And(E.g_entry.st(p) == ABORTED, Not(E.vars["this"].m_tickets.has(E.pre_args[0].z))))

    def requires(self, C):
        return recovery_rule(self, C)

    def post(self, C):
        return refusals(C, self, {BEGUN: E_BEGUN, PREPARED: E_PREPARED})

    def loops(self, Lc):
        E, g = Lc.E, now(Lc.E)
        t = E.pre_args[0].z
        p = tick(Lc.old, t)
        yield "the ticket's own state until finished", And(g.st(p) == COMMITTED, Or(And(Lc.this.m_tickets.has(t), tick(Lc.this, t) == p), finished(g, p)))


class TryLock(Op):
    fn, short, strong = Q + "::try_lock", "broker::try_lock", False

    def post(self, C):
        return refusals(C, self, {PREPARED: E_PREPARED, COMMITTED: E_COMMITTED})


class FindKey(Op):
    fn, short, strong = Q + "::handle_find_key", "broker::handle_find_key", False

    def requires(self, C):
        r = C.arg(4)
        return [("the directory names a shard", Imp(r.has(), frange(r.val.z, C.this.m_shards.len)))]

    def post(self, C):
        return refusals(C, self, {PREPARED: E_PREPARED, COMMITTED: E_COMMITTED, ABORTED: E_ABORTED})


class HandleLock(Op):
    fn, short, strong = Q + "::handle_lock", "broker::handle_lock", False

    def post(self, C):
        g0, p, kn, a = self.before(C), self.p(C), self.known(C), C.arg(4)
        s, k = C.arg(2).z, C.arg(1).z
        ev, f = calls(C), fns(C.E)[0]
        waited = And(kn, g0.keys(p, s).has(k), g0.keys(p, s).at(k).m_key_state.z == LOCKING)
        r = ev[0][2][0] if len(ev) == 1 else None
        if not isinstance(r, Val) or not isinstance(r.T, TVar):
            return [("a lock request is answered once", z3.BoolVal(False))]
        return [("a lock request is answered once", ev[0][1].t[0] == f.t[0]), ("the value of a lock waited for is passed on", Imp(And(a.idx == 0, waited), And(r.idx == 0, r.alt(0).z == a.alt(0).z))),
                ("a shard's error is passed on", Imp(a.idx == 1, And(r.idx == 2, same(r.alt(2), a.alt(1)))))]

    def requires(self, C):
        return [("the answer is from a shard of the current attempt", Imp(C.this.m_tickets.has(C.arg(0).z), now(C.E).has(tick(C.this, C.arg(0).z), C.arg(2).z)))]


class Begin(Op):
    fn, short, strong, tk = Q + "::begin", "broker::begin", False, None
    may = ("m_highest_ticket",)


class HandleNumber(Op):
    fn, short, strong, tk = Q + "::handle_ticket_number", "broker::handle_ticket_number", False, None
    may = ("m_highest_ticket",)


# ---- recovery ---------------------------------------------------------------------------
def some_committed(E, p):
    """prophecy: some shard reported the attempt's ticket as committed"""
    return E.uf("some_committed", [p], B)


def reported(E, g, p):
    """the attempt as handle_get_tickets builds it from the answers of the shards"""
    C, P = S_COMMITTED, S_PREPARED
    return And(g.st(p) == BEGUN,
               Forall([I], lambda s: Imp(g.has(p, s), And(
                   Imp(g.ss(p, s) == C, And(some_committed(E, p), sel2(g.com, p, s), sel2(g.prep, p, s))), Imp(g.ss(p, s) == P, sel2(g.prep, p, s)),
                   Imp(some_committed(E, p), one_of(g.ss(p, s), C, P))))))


class DoRecovery(Op):
    fn, short, strong, tk = Q + "::do_recovery", "broker::do_recovery", False, None
    held = ("m_mut",)    # called with the (recursive) mutex locked

    def requires(self, C):
        g = now(C.E)
        return [("callbacks given to recovery use the broker only for their ticket", C.E.vars["g:quiet"].t[0]),
                ("tickets are as the shards reported", Forall([I], lambda t: Imp(C.this.m_tickets.has(t), reported(C.E, g, tick(C.this, t)))))]

    def loops(self, Lc):
        E, g, g0 = Lc.E, now(Lc.E), G(Lc.entry_vars)
        if Lc.enum is None:
            return
        c = Lc.enum.cval
        if isinstance(c.T.v, TOpaque):
            T = E.pre_vars["this"].m_tickets
            yield "tickets not decided yet are as reported", Forall([I], lambda t: Imp(And(T.has(t), Not(Lc.visited(t))), And(
                Lc.this.m_tickets.has(t), tick(Lc.this, t) == T.at(t).t[0], g.live(T.at(t).t[0]), reported(E, g, T.at(t).t[0]))))
        else:
            yield "nothing asked meanwhile", unchanged(E, Lc)
            for nm, v, v0 in Lc.modified_locals(TInt):
                yield "at most the shards seen: " + nm, v.z <= Lc.pos
                yield "counts all: " + nm, Imp(v.z == Lc.pos, Forall([I], lambda s: Imp(Lc.visited(s), c.at(s).m_state.z == S_COMMITTED)))
                yield "counts none: " + nm, Imp(v.z == 0, Forall([I], lambda s: Imp(Lc.visited(s), c.at(s).m_state.z != S_COMMITTED)))
                p = outer_val(E)
                if p is not None:
                    yield "counts some: " + nm, Imp(v.z > 0, some_committed(E, p))


def outer_val(E):
    for rec, roots, entry in E.loopstack:
        if rec.enum is not None and rec.enum.ord is not None and rec.posroot in E.vars:
            return rec.enum.cval.at(z3.Select(rec.enum.ord, E.vars[rec.posroot].t[0])).t[0]
    return None


class RecCommit(Op):
    fn, short, strong, tk = Q + "::handle_recovery_commit", "broker::handle_recovery_commit", False, 1

    def post(self, C):
        ev = calls(C)
        return [("a failed step is reported", Imp(C.arg(2).has(), z3.BoolVal(len(ev) == 1) if not ev else And(len(ev) == 1, is_err(ev[0][2][0], self.code))))]
    code = E_COMMIT


class RecRollback(RecCommit):
    fn, short = Q + "::handle_recovery_rollback", "broker::handle_recovery_rollback"
    code = E_ROLL


class RecFinish(Op):
    fn, short, strong, tk = Q + "::handle_recovery_finish", "broker::handle_recovery_finish", False, None

    def post(self, C):
        ev = calls(C)
        empty = Forall([I], lambda t: Not(C.old.m_tickets.has(t)))
        if not ev:
            return [("recovery is reported once no ticket is left", And(Not(C.arg(1).has()), Not(empty)))]
        r = ev[0][2][0]
        return [("recovery is reported once no ticket is left", And(len(ev) == 1, Or(And(C.arg(1).has(), is_err(r, E_FIN)), And(Not(C.arg(1).has()), is_none(r), empty))))]


RECOVERY = {"rollback": ("recovery rolls back only tickets no shard committed", lambda g, p: And(g.st(p) == BEGUN, Forall([I], lambda s: Imp(g.has(p, s), g.ss(p, s) != S_COMMITTED)))),
            "commit": ("recovery commits only tickets some shard committed", None),
            "finish": ("recovery finishes only tickets every shard committed", lambda g, p: And(g.st(p) == COMMITTED, Forall([I], lambda s: Imp(g.has(p, s), g.ss(p, s) == S_COMMITTED))))}


def recovery_rule(K, C):
    E = C.E
    if not E.K.fn.endswith("::do_recovery"):
        return []
    g, t = now(E), C.arg(0).z
    p = tick(C.this, t)
    op = K.fn.split("::")[-1]
    nm, fn = RECOVERY[op]
    return [(nm, And(C.this.m_tickets.has(t), fn(g, p) if fn else And(g.st(p) == PREPARED, some_committed(E, p))))]


def heap_state(E, p):
    return Loc("g:heap") + ("m", p.t[0])


def make_state(E, T, args, e, f):
    v = E.coerce(E.ev(args[0], f), state_type(E)) if args else default(state_type(E))
    p = E.fresh_val(T, "new")
    h = gv(E, "heap")
    E.assume(And(Not(h.has(p.t[0])), p.t[0] != E.nullconst(T)))
    E.set_root("g:heap", map_put(h, p.t[0], v))
    return p


class BrokerUnit(Unit):
    name = "broker"
    sources = ["src/parsec/broker/impl.cpp"]
    overrides = {"cbdc::buffer": TOpaque("Buf")}
    contracts = [Commit(), DoPrepare(), DoCommit(), HandlePrepare(), HandleCommit(), HandleRollback(), HandleFinish(), Rollback(), Finish(),
                 TryLock(), FindKey(), HandleLock(), Begin(), HandleNumber(),
                 DoRecovery(), RecCommit(), RecRollback(), RecFinish()]
    invariants = {Q: inv}
    opts = {"guards": {"m_tickets": "m_mut"}}
    externs = {"on_call": on_call, "heap": {"P_state": heap_state}, "make": {"P_state": make_state},
               "method": dict([(("P_interface", o), request(o)) for o in ("prepare", "commit", "rollback", "finish", "try_lock")] +
                              [(("P_interface", "key_location"), key_location), (("P_interface", "get_ticket_number"), get_ticket)])}

    def on_ghosts(self, E, C):
        E.vars["g:heap"] = E.fresh_val(heap_type(E), "heap")
        for n in ("prep", "com", "roll", "fin"):
            E.vars["g:" + n] = E.fresh_val(EV, n)
        E.vars["g:ask"] = E.fresh_val(ASK, "ask")
        E.vars["g:quiet"] = E.fresh_val(TBool(), "quiet")
        E.g_entry = G(dict(E.vars))


unit = BrokerUnit()
