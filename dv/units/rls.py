"""parsec runtime locking shard: src/parsec/runtime_locking_shard/impl.cpp

Ghost labelling: every lock request is identified by its callback; own_t/own_k give the ticket and key it was made for.
`called[f]` counts how often callback f has been invoked, `ans*` record what it was given last."""
from units.common import *

Q = "cbdc::parsec::runtime_locking_shard::impl"
Buf = usort("Buf")
READ, WRITE = 0, 1
BEGUN, WOUNDED, PREPARED, COMMITTED = 0, 1, 2, 3
(E_PREP, E_WOUND, E_HELD, E_QUEUED, E_UNKNOWN, E_NOTHELD, E_READLOCK, E_NOTPREP, E_COMM, E_NOTCOMM, E_INT) = range(11)


def fsort():
    return usort("Fn")


class TGhost(TOpaque):
    """number of invocations of every callback"""
    def __init__(self):
        self.sort = z3.ArraySort(fsort(), I)
        self.sortname = self.name = "ghost"

    def leaves(self):
        return [self.sort]


# ---- views ------------------------------------------------------------------
class V:
    """mathematical view of a shard: S = m_state, T = m_tickets"""
    def __init__(self, S, T, E):
        self.S, self.T, self.E = S, T, E

    def sh(self, k):
        return self.S.has(k)

    def val(self, k):
        return self.S.at(k).m_value.z

    def lk(self, k):
        return self.S.at(k).m_lock

    def W(self, k):
        return And(self.sh(k), self.lk(k).m_writer.has())

    def w(self, k):
        return self.lk(k).m_writer.val.z

    def R(self, k, t):
        return And(self.sh(k), self.lk(k).m_readers.has(t))

    def Q(self, k, t):
        return And(self.sh(k), self.lk(k).m_queue.has(t))

    def qt(self, k, t):
        return self.lk(k).m_queue.at(t).m_type.z

    def qc(self, k, t):
        return self.lk(k).m_queue.at(t).m_callback.t[0]

    def th(self, t):
        return self.T.has(t)

    def tk(self, t):
        return self.T.at(t)

    def held(self, t, k):
        return And(self.th(t), self.tk(t).m_locks_held.has(k))

    def ht(self, t, k):
        return self.tk(t).m_locks_held.at(k).z

    def queued(self, t, k):
        return And(self.th(t), self.tk(t).m_queued_locks.has(k))

    def st(self, t):
        return self.tk(t).m_state.z

    # entry of callback f
    def Qin(self, f):
        t, k = own_t(self.E, f), own_k(self.E, f)
        return And(self.Q(k, t), self.qc(k, t) == f)


def own_t(E, f):
    return E.uf("own_t", [f], I)


def own_k(E, f):
    return E.uf("own_k", [f], Buf)


def view(s, E):
    return V(s.m_state, s.m_tickets, E)


def conflict(v, k, q, h):
    """a waiting q is blocked by holder h"""
    return And(h != q, Or(And(v.W(k), v.w(k) == h), And(v.qt(k, q) == WRITE, v.R(k, h))))


def grantable(v, k, q):
    return If(v.qt(k, q) == READ, Not(v.W(k)),
              And(Not(v.W(k)), Forall([I], lambda r: Imp(v.R(k, r), r == q))))


def j_excl(v):
    return [
        ("read locks are registered with the key", Forall([I, Buf], lambda t, k: Imp(And(v.held(t, k), v.ht(t, k) == READ), v.R(k, t)))),
        ("write locks are registered with the key", Forall([I, Buf], lambda t, k: Imp(And(v.held(t, k), v.ht(t, k) != READ), And(v.W(k), v.w(k) == t)))),
        ("readers hold read locks", Forall([Buf, I], lambda k, t: Imp(v.R(k, t), And(v.held(t, k), v.ht(t, k) == READ)))),
        ("the writer holds the write lock", Forall([Buf], lambda k: Imp(v.W(k), And(v.held(v.w(k), k), v.ht(v.w(k), k) == WRITE)))),
        ("a writer excludes readers", Forall([Buf, I], lambda k, t: Not(And(v.W(k), v.R(k, t))))),
    ]


def j_queue(v):
    return [
        ("waiting requests are queued at the key", Forall([I, Buf], lambda t, k: Imp(v.queued(t, k), v.Q(k, t)))),
        ("queued requests belong to a ticket", Forall([Buf, I], lambda k, t: Imp(v.Q(k, t), v.queued(t, k)))),
        ("request labels", Forall([Buf, I], lambda k, t: Imp(v.Q(k, t), And(own_t(v.E, v.qc(k, t)) == t, own_k(v.E, v.qc(k, t)) == k)))),
        ("only upgrades wait while holding", Forall([I, Buf], lambda t, k: Imp(And(v.queued(t, k), v.held(t, k)), And(v.ht(t, k) == READ, v.qt(k, t) == WRITE)))),
    ]


def j_states(v):
    return [
        ("ticket states and lock types are the named ones", Forall([I], lambda t: Imp(v.th(t), And(0 <= v.st(t), v.st(t) <= 3)))),
        ("lock types are the named ones", Forall([I, Buf], lambda t, k: Imp(v.held(t, k), And(0 <= v.ht(t, k), v.ht(t, k) <= 1)))),
        ("wounded and committed tickets hold nothing", Forall([I, Buf], lambda t, k: Imp(And(v.th(t), Or(v.st(t) == WOUNDED, v.st(t) == COMMITTED)),
                                                                                       And(Not(v.held(t, k)), Not(v.queued(t, k)))))),
        ("prepared tickets wait for nothing", Forall([I, Buf], lambda t, k: Imp(And(v.th(t), v.st(t) == PREPARED), Not(v.queued(t, k))))),
    ]


def j_update(v):
    return [
        ("prepared tickets hold write locks on what they update", Forall([I, Buf], lambda t, k: Imp(
            And(v.th(t), v.st(t) == PREPARED, v.tk(t).m_state_update.has(k)), And(v.held(t, k), v.ht(t, k) == WRITE)))),
    ]


def j_wait(v, exc=None):
    """waiting only behind older or prepared tickets"""
    return [("waiting only behind an older or prepared ticket", Forall([Buf, I, I], lambda k, q, h: Imp(
        And(v.Q(k, q), conflict(v, k, q, h), *([Not(exc(k, q, h))] if exc else [])), Or(h < q, v.st(h) == PREPARED))))]


def progress(v, k):
    return Forall([I], lambda q: Imp(And(v.Q(k, q), Forall([I], lambda r: Imp(v.Q(k, r), q <= r))), Not(grantable(v, k, q))))


def j_prog(v, exc=None):
    """a request waits only while it cannot be granted"""
    return [("the oldest waiting request cannot be granted yet", Forall([Buf, I], lambda k, q: Imp(
        And(v.Q(k, q), Forall([I], lambda r: Imp(v.Q(k, r), q <= r)), *([Not(exc(k))] if exc else [])), Not(grantable(v, k, q)))))]


def core(v):
    return j_excl(v) + j_queue(v) + j_states(v)


def invariant(s, E):
    v = view(s, E)
    return core(v) + j_update(v) + j_wait(v) + j_prog(v)


# ---- callback lists -----------------------------------------------------------
def fcb(L, i):
    return L.at(i).m_callback.t[0]


def at(E, f):
    return own_t(E, f), own_k(E, f)


def is_wounded(r):
    return And(r.idx == 1, r.alt(1).m_error_code.z == E_WOUND)


def list_facts(E, v0, v, L, lo=0, wounded_only=False):
    """L[lo..) delivers exactly the requests that left the queues between v0 and v"""
    g = lambda i: And(lo <= i, i < L.len)
    F = lambda i: fcb(L, i)
    T, K = (lambda i: own_t(E, F(i))), (lambda i: own_k(E, F(i)))
    out = [
        ("delivered callbacks were waiting", Forall([I], lambda i: Imp(g(i), And(v0.Q(K(i), T(i)), v0.qc(K(i), T(i)) == F(i), L.at(i).m_ticket_number.z == T(i))))),
        ("delivered callbacks wait no longer", Forall([I], lambda i: Imp(g(i), Not(v.Q(K(i), T(i)))))),
        ("no callback is delivered twice", Forall([I, I], lambda i, j: Imp(And(lo <= i, i < j, j < L.len), F(i) != F(j)))),
        ("every request that stops waiting is delivered", Forall([Buf, I], lambda k, t: Imp(And(v0.Q(k, t), Not(v.Q(k, t))), delivered(L, v0.qc(k, t), lo)))),
    ]
    ans = (lambda i: And(is_wounded(L.at(i).m_returning), v.st(T(i)) == WOUNDED)) if wounded_only else (lambda i: answer_ok(E, v, L.at(i).m_returning, F(i)))
    out.append(("answers are the value of the granted key, or wounded", Forall([I], lambda i: Imp(g(i), ans(i)))))
    return out


def delivered(L, f, lo=0):
    i = z3.Const("i_l", I)
    return z3.Exists([i], And(lo <= i, i < L.len, fcb(L, i) == f))


def answer_ok(E, v, r, f):
    t, k = at(E, f)
    return Or(And(r.idx == 0, v.held(t, k), r.alt(0).z == v.val(k)),
              And(is_wounded(r), Or(Not(v.th(t)), v.st(t) == WOUNDED)))


def queue_shrinks(v0, v):
    return ("no request starts waiting or changes", Forall([Buf, I], lambda k, t: Imp(v.Q(k, t), And(v0.Q(k, t), v.qt(k, t) == v0.qt(k, t), v.qc(k, t) == v0.qc(k, t)))))


EMPTY = None


def valof(v, k):
    return If(v.sh(k), v.val(k), default(TOpaque("Buf")).t[0])


def values_same(v0, v):
    return [("stored values unchanged", Forall([Buf], lambda k: valof(v, k) == valof(v0, k))),
            ("no key disappears", Forall([Buf], lambda k: Imp(v0.sh(k), v.sh(k))))]


def tk_static(v0, v, but_state=False):
    """everything but the locks of every ticket is unchanged"""
    f = lambda t: And(*( [] if but_state else [v.st(t) == v0.st(t)]),
                      v.tk(t).m_broker_id.z == v0.tk(t).m_broker_id.z,
                      same(v.tk(t).m_state_update, v0.tk(t).m_state_update),
                      *([] if but_state else [same(v.tk(t).m_wounded_details, v0.tk(t).m_wounded_details)]))
    return [("the set of tickets is unchanged", Forall([I], lambda t: v.th(t) == v0.th(t))),
            ("ticket data unchanged", Forall([I], lambda t: Imp(v0.th(t), f(t))))]


def locks_from(v0, v):
    return [("held locks were held or waited for", Forall([I, Buf], lambda t, k: Imp(v.held(t, k), Or(v0.held(t, k), v0.queued(t, k))))),
            ("held locks are kept", Forall([I, Buf], lambda t, k: Imp(v0.held(t, k), And(v.held(t, k), v.ht(t, k) >= v0.ht(t, k))))),
            ("waited-for locks were waited for", Forall([I, Buf], lambda t, k: Imp(v.queued(t, k), v0.queued(t, k)))),
            granted_type(v0, v)]


def granted_type(v0, v):
    return ("locks are granted with the requested type", Forall([I, Buf], lambda t, k: Imp(And(v0.queued(t, k), Not(v.queued(t, k)), v.held(t, k)), v.ht(t, k) == v0.qt(k, t))))


def key_same(v0, v, k):
    return And(v.sh(k) == v0.sh(k), Imp(v0.sh(k), same(v.S.at(k), v0.S.at(k))))


class Base(Contract):
    held = ("m_mut",)
    inv = False

    def modifies(self, C):
        return ["m_state", "m_tickets"]


class ReleaseLocks(Base):
    fn = Q + "::release_locks"
    short = "impl::release_locks"

    def modifies(self, C):
        return ["m_state"]

    def modifies_args(self, C):
        return [1]

    def requires(self, C):
        E = C.E
        v, t, tk = view(C.this, E), C.arg(0).z, C.arg(1)
        return [
            ("it is the ticket with that number", And(v.th(t), same(tk, v.tk(t)))),
            ("its queued requests exist", Forall([Buf], lambda k: Imp(tk.m_queued_locks.has(k), And(v.Q(k, t), own_t(E, v.qc(k, t)) == t, own_k(E, v.qc(k, t)) == k)))),
            ("its locks exist", Forall([Buf], lambda k: Imp(tk.m_locks_held.has(k), v.sh(k)))),
        ]

    def ensures(self, C):
        E = C.E
        v0, v, t = view(C.old, E), view(C.this, E), C.arg(0).z
        a, b = C.arg(1), C.post_arg(1)
        L, ks = C.ret.first, C.ret.second
        qd = lambda k: a.m_queued_locks.has(k)
        hd = lambda k, ty: And(a.m_locks_held.has(k), a.m_locks_held.at(k).z == ty)
        F = lambda i: fcb(L, i)
        return [
            ("keys unchanged", Forall([Buf], lambda k: v.sh(k) == v0.sh(k))),
            ("values unchanged", Forall([Buf], lambda k: Imp(v.sh(k), v.val(k) == v0.val(k)))),
            ("only this ticket's requests are unqueued", Forall([Buf, I], lambda k, q: v.Q(k, q) == And(v0.Q(k, q), Not(And(q == t, qd(k)))))),
            ("remaining requests unchanged", Forall([Buf, I], lambda k, q: Imp(v.Q(k, q), And(v.qt(k, q) == v0.qt(k, q), v.qc(k, q) == v0.qc(k, q))))),
            ("only this ticket's read locks are released", Forall([Buf, I], lambda k, r: v.R(k, r) == And(v0.R(k, r), Not(And(r == t, hd(k, READ)))))),
            ("only this ticket's write locks are released", Forall([Buf], lambda k: And(v.W(k) == And(v0.W(k), Not(hd(k, WRITE))), Imp(v.W(k), v.w(k) == v0.w(k))))),
            ("the ticket holds and waits for nothing", Forall([Buf], lambda k: And(Not(b.m_locks_held.has(k)), Not(b.m_queued_locks.has(k))))),
            ("the ticket is otherwise unchanged", And(b.m_state.z == a.m_state.z, b.m_broker_id.z == a.m_broker_id.z, same(b.m_state_update, a.m_state_update), same(b.m_wounded_details, a.m_wounded_details))),
            ("reports the affected keys", Forall([Buf], lambda k: ks.has(k) == Or(qd(k), a.m_locks_held.has(k)))),
            ("delivers its requests", Forall([I], lambda i: Imp(frange(i, L.len), And(
                qd(own_k(E, F(i))), own_t(E, F(i)) == t, v0.qc(own_k(E, F(i)), t) == F(i), L.at(i).m_ticket_number.z == t, is_wounded(L.at(i).m_returning),
                same(L.at(i).m_returning.alt(1).m_wounded_details, a.m_wounded_details))))),
            ("delivers each once", Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < L.len), F(i) != F(j)))),
            ("delivers all", Forall([Buf], lambda k: Imp(qd(k), delivered(L, v0.qc(k, t))))),
            ("delivers nothing when nothing waits", Imp(Forall([Buf], lambda k: Not(qd(k))), L.len == 0)),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        v0, v, t = view(Lc.old, E), view(Lc.this, E), Lc.arg(0).z
        a, b = Lc.arg(1), Lc.cur_arg(1)
        if Lc.enum is None or Lc.pos is None:
            return
        vis = Lc.visited
        ord_, p = Lc.enum.ord, Lc.pos
        qd = lambda k: a.m_queued_locks.has(k)
        hd = lambda k, ty: And(a.m_locks_held.has(k), a.m_locks_held.at(k).z == ty)
        yield "keys", Forall([Buf], lambda k: v.sh(k) == v0.sh(k))
        yield "values", Forall([Buf], lambda k: Imp(v.sh(k), v.val(k) == v0.val(k)))
        yield "queue visited", Forall([Buf, I], lambda k, q: v.Q(k, q) == And(v0.Q(k, q), Not(And(q == t, qd(k), vis(k)))))
        yield "queue all", Forall([Buf, I], lambda k, q: v.Q(k, q) == And(v0.Q(k, q), Not(And(q == t, qd(k)))))
        yield "queue same", Forall([Buf, I], lambda k, q: Imp(v.Q(k, q), And(v.qt(k, q) == v0.qt(k, q), v.qc(k, q) == v0.qc(k, q))))
        yield "readers visited", Forall([Buf, I], lambda k, r: v.R(k, r) == And(v0.R(k, r), Not(And(r == t, hd(k, READ), vis(k)))))
        yield "writer visited", Forall([Buf], lambda k: And(v.W(k) == And(v0.W(k), Not(And(hd(k, WRITE), vis(k)))), Imp(v.W(k), v.w(k) == v0.w(k))))
        yield "readers same", Forall([Buf, I], lambda k, r: v.R(k, r) == v0.R(k, r))
        yield "writer same", Forall([Buf], lambda k: And(v.W(k) == v0.W(k), Imp(v.W(k), v.w(k) == v0.w(k))))
        for nm, s, s0 in Lc.modified_locals(TSet):
            yield "affected keys(%s)" % nm, Forall([Buf], lambda k: s.has(k) == Or(qd(k), And(a.m_locks_held.has(k), vis(k))))
        for nm, L, L0 in Lc.modified_locals(TVec):
            F = lambda i: fcb(L, i)
            yield "one per key(%s)" % nm, L.len == p
            yield "list order(%s)" % nm, Forall([I], lambda i: Imp(And(0 <= i, i < p), F(i) == v0.qc(ord_[i], t)))
            yield "list(%s)" % nm, Forall([I], lambda i: Imp(And(0 <= i, i < L.len), And(
                own_k(E, F(i)) == ord_[i], qd(own_k(E, F(i))), own_t(E, F(i)) == t, v0.qc(own_k(E, F(i)), t) == F(i), L.at(i).m_ticket_number.z == t, is_wounded(L.at(i).m_returning),
                same(L.at(i).m_returning.alt(1).m_wounded_details, a.m_wounded_details))))


class AcquireLock(Base):
    fn = Q + "::acquire_lock"
    short = "impl::acquire_lock"

    def requires(self, C):
        v = view(C.this, C.E)
        return core(v) + j_wait(v)

    def modifies_args(self, C):
        return [1]

    def ensures(self, C):
        E = C.E
        v0, v, key = view(C.old, E), view(C.this, E), C.arg(0).z
        L0, L = C.arg(1), C.post_arg(1)
        n = L0.len
        G = L.len == n + 1
        f = fcb(L, n)
        q = own_t(E, f)
        r = L.at(n).m_returning
        return core(v) + j_wait(v) + [
            ("at most one request is granted", And(Or(L.len == n, G), Forall([I], lambda i: Imp(frange(i, n), same(L.at(i), L0.at(i)))))),
            ("the key exists, no other is added", Forall([Buf], lambda k: v.sh(k) == Or(v0.sh(k), k == key))),
            ("other keys unchanged", Forall([Buf], lambda k: Imp(And(v0.sh(k), k != key), same(v.S.at(k), v0.S.at(k))))),
            ("value unchanged", valof(v, key) == valof(v0, key)),
            ("continues only after a grant", Imp(C.ret.z, G)),
            ("stops only when the next request cannot be granted", Imp(Not(C.ret.z), progress(v, key))),
            ("the oldest request is granted", Imp(G, And(v0.Q(key, q), own_k(E, f) == key, v0.qc(key, q) == f, Forall([I], lambda x: Imp(v0.Q(key, x), q <= x)),
                                                       L.at(n).m_ticket_number.z == q))),
            ("the answer is the value", Imp(G, And(r.idx == 0, r.alt(0).z == v.val(key)))),
            ("granted request leaves the queue, others stay", Forall([I], lambda x: And(v.Q(key, x) == And(v0.Q(key, x), Not(And(G, x == q))),
                                                                                      Imp(v.Q(key, x), And(v.qt(key, x) == v0.qt(key, x), v.qc(key, x) == v0.qc(key, x)))))),
        ] + tk_static(v0, v) + [
            ("only the granted ticket's locks change", Forall([I, Buf], lambda t, k: Imp(v0.th(t), And(
                v.held(t, k) == Or(v0.held(t, k), And(G, t == q, k == key)),
                v.queued(t, k) == And(v0.queued(t, k), Not(And(G, t == q, k == key))),
                Imp(And(v0.held(t, k), Not(And(G, t == q, k == key))), v.ht(t, k) == v0.ht(t, k)))))),
            ("granted with the requested type", Imp(G, v.ht(q, key) == v0.qt(key, q))),
        ]


class AcquireLocks(Base):
    fn = Q + "::acquire_locks"
    short = "impl::acquire_locks"

    def requires(self, C):
        v = view(C.this, C.E)
        return core(v) + j_wait(v)

    def clauses(self, E, v0, v, keys, L):
        return core(v) + j_wait(v) + [
            queue_shrinks(v0, v),
            ("keys added only among the given", Forall([Buf], lambda k: Imp(v.sh(k), Or(v0.sh(k), keys.has(k))))),
            ("other keys unchanged", Forall([Buf], lambda k: Imp(And(v0.sh(k), Not(keys.has(k))), same(v.S.at(k), v0.S.at(k))))),
        ] + values_same(v0, v) + tk_static(v0, v) + locks_from(v0, v) + list_facts(E, v0, v, L) + [
            ("only grants", Forall([I], lambda i: Imp(frange(i, L.len), And(L.at(i).m_returning.idx == 0))))]

    def ensures(self, C):
        E = C.E
        v0, v, keys = view(C.old, E), view(C.this, E), C.arg(0)
        return self.clauses(E, v0, v, keys, C.ret) + [
            ("every waiting request at these keys that can be granted is", Forall([Buf], lambda k: Imp(keys.has(k), progress(v, k))))]

    def loopcands(self, Lc):
        E = Lc.E
        v0, v, keys = view(Lc.old, E), view(Lc.this, E), Lc.arg(0)
        for nm, L, L0 in Lc.locals(TVec):
            if L.T.t.name.endswith("pending_callback_element_type"):
                for n, c in self.clauses(E, v0, v, keys, L):
                    yield n + "(%s)" % nm, c
        if Lc.enum is not None and Lc.pos is not None:
            yield "visited keys progress", Forall([Buf], lambda k: Imp(Lc.visited(k), progress(v, k)))
        else:
            for en, p in outer_enums(Lc):
                yield "earlier keys progress", Forall([Buf], lambda k: Imp(And(en.cval.has(k), en.idx[k] < p), progress(v, k)))


def outer_enums(Lc):
    for rec, roots, entry in Lc.E.loopstack:
        if rec is not Lc.rec and getattr(rec, "enum", None) is not None and rec.enum.idx is not None and rec.posroot is not None:
            yield rec.enum, Lc.E.vars[rec.posroot].t[0]


class GetWaitingOn(Contract):
    fn = Q + "::get_waiting_on"
    short = "impl::get_waiting_on"
    inv = False

    def ensures(self, C):
        t, ty, lk, r = C.arg(0).z, C.arg(1).z, C.arg(2), C.ret
        blk = lambda h: Or(And(ty == WRITE, lk.m_readers.has(h)), And(lk.m_writer.has(), lk.m_writer.val.z == h))
        i_ = z3.Const("i_g", I)
        return [("only younger holders", Forall([I], lambda i: Imp(frange(i, r.len), And(r.at(i).z > t, blk(r.at(i).z))))),
                ("all younger holders", Forall([I], lambda h: Imp(And(h > t, blk(h)), z3.Exists([i_], And(frange(i_, r.len), r.at(i_).z == h)))))]


class WoundTickets(Base):
    fn = Q + "::wound_tickets"
    short = "impl::wound_tickets"

    def requires(self, C):
        E = C.E
        v, key, bl, t = view(C.this, E), C.arg(0).z, C.arg(1), C.arg(2).z
        inb = lambda h: in_vec(bl, h)
        return core(v) + j_wait(v, lambda k, q, h: And(k == key, q == t, inb(h))) + j_prog(v, lambda k: k == key) + [
            ("wounds only younger live tickets", Forall([I], lambda i: Imp(frange(i, bl.len), And(bl.at(i).z > t, v.th(bl.at(i).z), Or(v.st(bl.at(i).z) == BEGUN, v.st(bl.at(i).z) == PREPARED))))),
            ("requesting ticket exists", v.th(t)),
        ]

    def clauses(self, E, v0, v, bl, t, L):
        return [queue_shrinks(v0, v)] + values_same(v0, v) + tk_static(v0, v, True) + [
            ("only younger tickets that had not prepared are wounded", Forall([I], lambda x: Imp(And(v0.th(x), v.st(x) != v0.st(x)), And(
                v0.st(x) == BEGUN, v.st(x) == WOUNDED, x > t, in_vec(bl, x))))),
            ("tickets not wounded keep their details", Forall([I], lambda x: Imp(And(v0.th(x), v.st(x) == v0.st(x)), same(v.tk(x).m_wounded_details, v0.tk(x).m_wounded_details)))),
            ("held locks were held or waited for", Forall([I, Buf], lambda x, k: Imp(v.held(x, k), Or(v0.held(x, k), v0.queued(x, k))))),
            ("locks are lost only by wounding", Forall([I, Buf], lambda x, k: Imp(v0.held(x, k), Or(v.st(x) == WOUNDED, And(v.held(x, k), v.ht(x, k) >= v0.ht(x, k)))))),
            ("waited-for locks were waited for", Forall([I, Buf], lambda x, k: Imp(v.queued(x, k), v0.queued(x, k)))),
            granted_type(v0, v),
        ] + list_facts(E, v0, v, L)

    def ensures(self, C):
        E = C.E
        v0, v = view(C.old, E), view(C.this, E)
        return core(v) + j_wait(v) + j_prog(v) + self.clauses(E, v0, v, C.arg(1), C.arg(2).z, C.ret)

    def loopcands(self, Lc):
        E = Lc.E
        v0, v = view(Lc.old, E), view(Lc.this, E)
        key, bl, t = Lc.arg(0).z, Lc.arg(1), Lc.arg(2).z
        p = Lc.pos
        if p is None:
            return
        later = lambda h: in_vec(bl, h, p)
        yield from core(v)
        yield from j_wait(v, lambda k, q, h: And(k == key, q == t, later(h)))
        yield "wait*", j_wait(v, lambda k, q, h: And(k == key, q == t, in_vec(bl, h)))[0][1]
        yield "states of blocking tickets", Forall([I], lambda i: Imp(frange(i, bl.len), And(v.th(bl.at(i).z), Or(v.st(bl.at(i).z) == BEGUN, v.st(bl.at(i).z) == PREPARED, v.st(bl.at(i).z) == WOUNDED))))
        yield "handled", Forall([I], lambda i: Imp(And(0 <= i, i < p, i < bl.len), v.st(bl.at(i).z) != BEGUN))
        for nm, L, L0 in Lc.locals(TVec):
            if L.T.t.name.endswith("pending_callback_element_type"):
                for n, c in self.clauses(E, v0, v, bl, t, L):
                    yield n + "(%s)" % nm, c
                yield "all wounded(%s)" % nm, Forall([I], lambda i: Imp(frange(i, L.len), And(is_wounded(L.at(i).m_returning), v.th(own_t(E, fcb(L, i))), v.st(own_t(E, fcb(L, i))) == WOUNDED)))
        for nm, s, s0 in Lc.modified_locals(TSet):
            yield "progress elsewhere(%s)" % nm, j_prog(v, lambda k: Or(k == key, s.has(k)))[0][1]


def in_vec(b, h, lo=0):
    i = z3.Const("i_b", I)
    return z3.Exists([i], And(lo <= i, i < b.len, b.at(i).z == h))


# ---- public operations -----------------------------------------------------------
def called(C):
    return C.E.vars["g:called"].t[0], z3.Const("called0", z3.ArraySort(fsort(), I))


def one_result(C, f, cond):
    """the result callback is invoked exactly once with an answer satisfying cond(value)"""
    ev = [x for x in C.events if x[0] == "call"]
    if len(ev) != 1:
        return z3.BoolVal(False)
    r = ev[0][2][0]
    if isinstance(r, Lam):
        return z3.BoolVal(False)
    return And(ev[0][1].t[0] == f, cond(r))


def others_called(C, v0, v, skip=None):
    c, c0 = called(C)
    return Forall([fsort()], lambda f: Imp(f != skip if skip is not None else z3.BoolVal(True),
                                           c[f] == c0[f] + If(And(v0.Qin(f), Not(v.Qin(f))), z3.IntVal(1), z3.IntVal(0))))


def other_tickets(v0, v, t):
    return ("other tickets keep their state, their data and the locks they hold", Forall([I], lambda x: Imp(And(x != t, v0.th(x)), And(
        v.th(x), v.st(x) == v0.st(x), v.tk(x).m_broker_id.z == v0.tk(x).m_broker_id.z, same(v.tk(x).m_state_update, v0.tk(x).m_state_update)))))


def err(r, code):
    """optional<shard_error> r is the given error"""
    if isinstance(r, NullOpt):
        return z3.BoolVal(False)
    return And(r.has(), r.val.m_error_code.z == code)


def none(r):
    return z3.BoolVal(True) if isinstance(r, NullOpt) else Not(r.has())


class Public(Contract):
    def modifies(self, C):
        return ["m_state", "m_tickets"]

    def loopcands(self, Lc):
        """loops that deliver callbacks"""
        E = Lc.E
        if Lc.pos is None or "g:called" not in E.vars:
            return
        c, c0 = E.vars["g:called"].t[0], z3.Const("called0", z3.ArraySort(fsort(), I))
        for nm, L, L0 in Lc.locals(TVec):
            if not L.T.t.name.endswith("pending_callback_element_type"):
                continue
            p = Lc.pos
            i_ = z3.Const("i_c", I)
            yield "suffix(%s)" % nm, Forall([I], lambda i: Imp(And(p <= i, i < L.len), same(L.at(i), L0.at(i))))
            yield "delivered once(%s)" % nm, Forall([I], lambda i: Imp(And(0 <= i, i < p), c[fcb(L0, i)] == c0[fcb(L0, i)] + 1))
            yield "only delivered(%s)" % nm, Forall([fsort()], lambda f: Imp(c[f] != c0[f], z3.Exists([i_], And(0 <= i_, i_ < p, fcb(L0, i_) == f))))


class TryLock(Public):
    fn = Q + "::try_lock"
    short = "impl::try_lock"

    def requires(self, C):
        E = C.E
        v, t, k, f = view(C.this, E), C.arg(0).z, C.arg(2).z, C.arg(5).t[0]
        return [("each request has its own callback", And(own_t(E, f) == t, own_k(E, f) == k, Forall([Buf, I], lambda kk, x: Imp(v.Q(kk, x), v.qc(kk, x) != f)))),
                ("lock types are read and write", Or(C.arg(3).z == READ, C.arg(3).z == WRITE))]

    def ensures(self, C):
        E = C.E
        v0, v = view(C.old, E), view(C.this, E)
        t, k, ty, first, f = C.arg(0).z, C.arg(2).z, C.arg(3).z, C.arg(4).z, C.arg(5).t[0]
        c, c0 = called(C)
        ev = [x for x in C.events if x[0] == "call"]
        st0 = v0.st(t)
        bad = Or(And(Not(v0.th(t)), Not(first)), And(v0.th(t), Or(st0 != BEGUN, v0.queued(t, k), And(v0.held(t, k), v0.ht(t, k) >= ty))))
        code = If(Not(v0.th(t)), E_UNKNOWN, If(st0 == PREPARED, E_PREP, If(st0 == COMMITTED, E_COMM, If(st0 == WOUNDED, E_WOUND,
               If(And(v0.held(t, k), v0.ht(t, k) >= ty), E_HELD, E_QUEUED)))))
        if ev:
            r = ev[0][2][0]
            e_ = r.alt(1) if isinstance(r.T, TVar) else r
            erridx = r.idx == 1 if isinstance(r.T, TVar) else z3.BoolVal(True)
            out = [("an error is reported once, with its reason, and changes nothing", And(
                len(ev) == 1, bad, ev[0][1].t[0] == f, erridx, e_.m_error_code.z == code,
                same(C.this.m_state, C.old.m_state), same(C.this.m_tickets, C.old.m_tickets), c == c0))]
            return [("returns true", C.ret.z)] + out
        return [("returns true", C.ret.z),
                ("a bad request is refused", Not(bad)),
                ("the requester gets the lock, waits, or is told it was wounded", And(
                    c[f] == c0[f] + If(v.Qin(f), z3.IntVal(0), z3.IntVal(1)),
                    Or(And(v.Q(k, t), v.qc(k, t) == f, v.qt(k, t) == ty, v.queued(t, k)), And(v.held(t, k), v.ht(t, k) == ty)))),
                ("every other request that stops waiting is answered once", others_called(C, v0, v, f)),
                ("requester's broker recorded", And(v.th(t), v.st(t) == BEGUN, v.tk(t).m_broker_id.z == C.arg(1).z)),
                ("no other request starts waiting", Forall([Buf, I], lambda kk, x: Imp(And(v.Q(kk, x), Not(And(kk == k, x == t))), v0.Q(kk, x)))),
                ("only younger tickets that had not prepared are wounded", Forall([I], lambda x: Imp(And(v0.th(x), v.st(x) != v0.st(x)), And(v0.st(x) == BEGUN, v.st(x) == WOUNDED, x > t)))),
                ("no other ticket appears or disappears", Forall([I], lambda x: v.th(x) == Or(v0.th(x), x == t))),
                ("locks are lost only by wounding", Forall([I, Buf], lambda x, kk: Imp(v0.held(x, kk), Or(v.st(x) == WOUNDED, v.held(x, kk))))),
                ("pending updates unchanged", Forall([I], lambda x: Imp(v0.th(x), same(v.tk(x).m_state_update, v0.tk(x).m_state_update)))),
                ] + values_same(v0, v)[:1]


class Prepare(Public):
    fn = Q + "::prepare"
    short = "impl::prepare"

    def modifies(self, C):
        return ["m_tickets"]

    def ensures(self, C):
        E = C.E
        v0, v, t, up, f = view(C.old, E), view(C.this, E), C.arg(0).z, C.arg(2), C.arg(3).t[0]
        st0 = v0.st(t)
        waits = z3.Exists([z3.Const("k_q", Buf)], v0.queued(t, z3.Const("k_q", Buf)))
        owns = Forall([Buf], lambda k: Imp(up.has(k), And(v0.held(t, k), v0.ht(t, k) == WRITE)))
        ok = And(v0.th(t), st0 == BEGUN, Not(waits), owns)
        k_ = z3.Const("k_e", Buf)
        return [
            ("returns true", C.ret.z),
            ("the answer says whether the ticket was prepared and why not", one_result(C, f, lambda r: And(
                none(r) == ok,
                Imp(Not(v0.th(t)), err(r, E_UNKNOWN)), Imp(And(v0.th(t), st0 == PREPARED), err(r, E_PREP)), Imp(And(v0.th(t), st0 == COMMITTED), err(r, E_COMM)),
                Imp(And(v0.th(t), st0 == WOUNDED), err(r, E_WOUND)), Imp(And(v0.th(t), st0 == BEGUN, waits), err(r, E_QUEUED)),
                Imp(And(v0.th(t), st0 == BEGUN, Not(waits), Not(owns)), Or(
                    And(err(r, E_NOTHELD), z3.Exists([k_], And(up.has(k_), Not(v0.held(t, k_))))),
                    And(err(r, E_READLOCK), z3.Exists([k_], And(up.has(k_), v0.held(t, k_), v0.ht(t, k_) == READ)))))))),
            ("prepared with exactly this update", Imp(ok, And(v.th(t), v.st(t) == PREPARED, veq(v.tk(t).m_state_update, up),
                                                              same(v.tk(t).m_locks_held, v0.tk(t).m_locks_held), v.tk(t).m_broker_id.z == v0.tk(t).m_broker_id.z))),
            ("a refused prepare changes nothing", Imp(Not(ok), same(C.this.m_tickets, C.old.m_tickets))),
            ("other tickets untouched", Forall([I], lambda x: Imp(x != t, And(v.th(x) == v0.th(x), Imp(v0.th(x), same(v.tk(x), v0.tk(x))))))),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        v0, t, up = view(Lc.old, E), Lc.arg(0).z, Lc.arg(2)
        if Lc.enum is not None and Lc.pos is not None and Lc.enum.idx is not None:
            yield "checked keys are write locked", Forall([Buf], lambda k: Imp(Lc.visited(k), And(v0.held(t, k), v0.ht(t, k) == WRITE)))


class Commit(Public):
    fn = Q + "::commit"
    short = "impl::commit"

    def ensures(self, C):
        E = C.E
        v0, v, t, f = view(C.old, E), view(C.this, E), C.arg(0).z, C.arg(1).t[0]
        ok = And(v0.th(t), v0.st(t) == PREPARED)
        up = v0.tk(t).m_state_update
        return [
            ("returns true", C.ret.z),
            ("only prepared tickets commit", one_result(C, f, lambda r: And(none(r) == ok, Imp(Not(v0.th(t)), err(r, E_UNKNOWN)), Imp(And(v0.th(t), Not(ok)), err(r, E_NOTPREP))))),
            ("a refused commit changes nothing", Imp(Not(ok), And(same(C.this.m_tickets, C.old.m_tickets), same(C.this.m_state, C.old.m_state)))),
            ("exactly the prepared update is applied", Imp(ok, Forall([Buf], lambda k: valof(v, k) == If(up.has(k), up.at(k).z, valof(v0, k))))),
            ("the ticket is committed and holds nothing", Imp(ok, And(v.th(t), v.st(t) == COMMITTED, v.tk(t).m_broker_id.z == v0.tk(t).m_broker_id.z, Forall([Buf], lambda k: And(Not(v.held(t, k)), Not(v.queued(t, k))))))),
            other_tickets(v0, v, t),
            ("no ticket appears", Forall([I], lambda x: v.th(x) == v0.th(x))),
            ("others keep their locks", Forall([I, Buf], lambda x, k: Imp(And(x != t, v0.held(x, k)), v.held(x, k)))),
            ("every request that stops waiting is answered once", others_called(C, v0, v)),
            queue_shrinks(v0, v),
        ]

    def loopcands(self, Lc):
        yield from Public.loopcands(self, Lc)
        E = Lc.E
        v0, v, t = view(Lc.old, E), view(Lc.this, E), Lc.arg(0).z
        up = v0.tk(t).m_state_update
        if Lc.enum is None or Lc.enum.idx is None or Lc.pos is None or Lc.enum.T != up.T:
            return
        vis = Lc.visited
        yield "key set", Forall([Buf], lambda k: v.sh(k) == v0.sh(k))
        yield "locks same", Forall([Buf], lambda k: Imp(v0.sh(k), same(v.lk(k), v0.lk(k))))
        yield "applied so far", Forall([Buf], lambda k: Imp(v0.sh(k), v.val(k) == If(vis(k), up.at(k).z, v0.val(k))))
        yield "rest of the update", Forall([Buf], lambda k: Imp(Not(vis(k)), v.tk(t).m_state_update.at(k).z == up.at(k).z))
        yield "update keys", Forall([Buf], lambda k: v.tk(t).m_state_update.has(k) == up.has(k))
        yield "tickets", Forall([I], lambda x: Imp(And(x != t, v0.th(x)), same(v.tk(x), v0.tk(x))))
        yield "ticket set", Forall([I], lambda x: v.th(x) == v0.th(x))
        a, b = v.tk(t), v0.tk(t)
        yield "ticket", And(same(a.m_locks_held, b.m_locks_held), same(a.m_queued_locks, b.m_queued_locks), a.m_state.z == b.m_state.z, a.m_broker_id.z == b.m_broker_id.z, same(a.m_wounded_details, b.m_wounded_details))


class Rollback(Public):
    fn = Q + "::rollback"
    short = "impl::rollback"

    def ensures(self, C):
        E = C.E
        v0, v, t, f = view(C.old, E), view(C.this, E), C.arg(0).z, C.arg(1).t[0]
        ok = And(v0.th(t), v0.st(t) != COMMITTED)
        return [
            ("returns true", C.ret.z),
            ("uncommitted tickets roll back", one_result(C, f, lambda r: And(none(r) == ok, Imp(Not(v0.th(t)), err(r, E_UNKNOWN)), Imp(And(v0.th(t), Not(ok)), err(r, E_COMM))))),
            ("a refused rollback changes nothing", Imp(Not(ok), And(same(C.this.m_tickets, C.old.m_tickets), same(C.this.m_state, C.old.m_state)))),
            ("the ticket is forgotten", Imp(ok, Not(v.th(t)))),
            other_tickets(v0, v, t),
            ("no ticket appears", Forall([I], lambda x: Imp(x != t, v.th(x) == v0.th(x)))),
            ("others keep their locks", Forall([I, Buf], lambda x, k: Imp(And(x != t, v0.held(x, k)), v.held(x, k)))),
            ("every request that stops waiting is answered once", others_called(C, v0, v)),
            queue_shrinks(v0, v),
        ] + values_same(v0, v)[:1]


class Finish(Public):
    fn = Q + "::finish"
    short = "impl::finish"

    def modifies(self, C):
        return ["m_tickets"]

    def ensures(self, C):
        E = C.E
        v0, v, t, f = view(C.old, E), view(C.this, E), C.arg(0).z, C.arg(1).t[0]
        ok = And(v0.th(t), v0.st(t) == COMMITTED)
        return [
            ("returns true", C.ret.z),
            ("only committed tickets finish", one_result(C, f, lambda r: And(none(r) == ok, Imp(Not(v0.th(t)), err(r, E_UNKNOWN)), Imp(And(v0.th(t), Not(ok)), err(r, E_NOTCOMM))))),
            ("only this ticket is forgotten", Forall([I], lambda x: And(v.th(x) == And(v0.th(x), Not(And(ok, x == t))), Imp(v.th(x), same(v.tk(x), v0.tk(x)))))),
        ]


class GetTickets(Public):
    fn = Q + "::get_tickets"
    short = "impl::get_tickets"

    def modifies(self, C):
        return []

    def ensures(self, C):
        E = C.E
        v, b, f = view(C.old, E), C.arg(0).z, C.arg(1).t[0]
        ev = [x for x in C.events if x[0] == "call"]
        if len(ev) != 1:
            return [("the result callback is called once", z3.BoolVal(False))]
        r = ev[0][2][0]
        if isinstance(r.T, TVar):
            i = [j for j, x in enumerate(r.T.ts) if isinstance(x, TMap)][0]
            m, okk = r.alt(i), r.idx == i
        else:
            m, okk = r, z3.BoolVal(True)
        return [("returns true", C.ret.z),
                ("reports exactly the broker's tickets and their state", And(ev[0][1].t[0] == f, okk, Forall([I], lambda t: And(
                    m.has(t) == And(v.th(t), v.tk(t).m_broker_id.z == b), Imp(m.has(t), m.at(t).z == v.st(t))))))]

    def loopcands(self, Lc):
        v, b = view(Lc.old, Lc.E), Lc.arg(0).z
        if Lc.enum is None or Lc.pos is None or Lc.enum.idx is None:
            return
        for nm, m, m0 in Lc.modified_locals(TMap):
            yield "so far(%s)" % nm, Forall([I], lambda t: And(m.has(t) == And(Lc.visited(t), v.tk(t).m_broker_id.z == b), Imp(m.has(t), m.at(t).z == v.st(t))))


class Recover(Public):
    fn = Q + "::recover"
    short = "impl::recover"

    def requires(self, C):
        tk = C.arg(1)
        return [("prepared tickets update disjoint keys (they held the write locks)", Forall([I, I, Buf], lambda a, b, k: Imp(
            And(tk.has(a), tk.has(b), a != b, tk.at(a).m_state.z == 0, tk.at(b).m_state.z == 0), Not(And(tk.at(a).m_state_update.has(k), tk.at(b).m_state_update.has(k))))))]

    def ensures(self, C):
        E = C.E
        v0, v, S, T = view(C.old, E), view(C.this, E), C.arg(0), C.arg(1)
        fresh = And(Forall([I], lambda t: Not(v0.th(t))), Forall([Buf], lambda k: Not(v0.sh(k))))
        r = C.ret.z
        return [
            ("succeeds exactly on an empty shard", r == fresh),
            ("refused recovery changes nothing", Imp(Not(r), And(same(C.this.m_tickets, C.old.m_tickets), same(C.this.m_state, C.old.m_state)))),
            ("state restored", Imp(r, Forall([Buf], lambda k: valof(v, k) == If(S.has(k), S.at(k).z, default(TOpaque("Buf")).t[0])))),
            ("tickets restored", Imp(r, Forall([I], lambda t: And(v.th(t) == T.has(t), Imp(T.has(t), And(
                v.tk(t).m_broker_id.z == T.at(t).m_broker_id.z, veq(v.tk(t).m_state_update, T.at(t).m_state_update),
                v.st(t) == If(T.at(t).m_state.z == 0, PREPARED, COMMITTED))))))),
            ("prepared tickets hold their write locks again", Imp(r, Forall([I, Buf], lambda t, k: Imp(
                And(T.has(t), T.at(t).m_state.z == 0, T.at(t).m_state_update.has(k)), And(v.held(t, k), v.ht(t, k) == WRITE))))),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        v0, v, S, T = view(Lc.old, E), view(Lc.this, E), Lc.arg(0), Lc.arg(1)
        ed = default(TOpaque("Buf")).t[0]
        if Lc.pos is None or Lc.enum is None or Lc.enum.idx is None:
            return
        vis = Lc.visited
        nolocks = lambda k: And(Not(v.W(k)), Forall([I], lambda t: And(Not(v.R(k, t)), Not(v.Q(k, t)))))
        yield "elements without waiters", Forall([Buf, I], lambda k, t: And(Not(v.R(k, t)), Not(v.Q(k, t))))
        yield "copied", Forall([Buf], lambda k: And(v.sh(k) == vis(k), Imp(v.sh(k), v.val(k) == S.at(k).z))) if Lc.enum.T == S.T else z3.BoolVal(True)
        yield "no writer yet", Forall([Buf], lambda k: Not(v.W(k)))
        yield "no ticket yet", Forall([I], lambda t: Not(v.th(t)))
        yield "values", Forall([Buf], lambda k: valof(v, k) == If(S.has(k), S.at(k).z, ed))
        def tickets(done):
            yield "tickets so far", Forall([I], lambda t: And(v.th(t) == done(t), Imp(v.th(t), And(
                v.tk(t).m_broker_id.z == T.at(t).m_broker_id.z, veq(v.tk(t).m_state_update, T.at(t).m_state_update),
                v.st(t) == If(T.at(t).m_state.z == 0, PREPARED, COMMITTED)))))
            yield "locks so far", Forall([I, Buf], lambda t, k: Imp(v.th(t), And(v.held(t, k) == And(T.at(t).m_state.z == 0, T.at(t).m_state_update.has(k)), Imp(v.held(t, k), v.ht(t, k) == WRITE), Not(v.queued(t, k)))))
        if Lc.enum.T == T.T:
            yield from tickets(vis)
        for en, p in outer_enums(Lc):
            if en.idx.sort().domain() != I or Lc.enum.T.k != TOpaque("Buf"):
                continue
            done = lambda t: And(en.cval.has(t), en.idx[t] < p)
            cur = en.ord[p]
            for n, c in tickets(done):
                yield n + " outer", c
            yield "writers outer", Forall([Buf], lambda k: Imp(v.W(k), Or(And(v.held(v.w(k), k)), And(v.w(k) == cur, vis(k)))))
            yield "writers outer'", Forall([I, Buf], lambda t, k: Imp(v.held(t, k), And(v.W(k), v.w(k) == t)))
            yield "writers cur", Forall([Buf], lambda k: Imp(vis(k), And(v.W(k), v.w(k) == cur)))
            for nm, x, x0 in Lc.modified_locals(TRec):
                if x.T.name.endswith("ticket_state_type"):
                    yield "cur(%s)" % nm, Forall([Buf], lambda k: And(x.m_locks_held.has(k) == vis(k), Imp(x.m_locks_held.has(k), x.m_locks_held.at(k).z == WRITE)))
        yield "writers", Forall([Buf], lambda k: Imp(v.W(k), v.held(v.w(k), k)))
        yield "writers'", Forall([I, Buf], lambda t, k: Imp(v.held(t, k), And(v.W(k), v.w(k) == t)))


def on_call(E, fv, vals, e, f):
    if not vals or not isinstance(vals[0], Val):
        return None
    E.oblige("callbacks run without the shard's mutex", "lock", z3.BoolVal(not E.held), e)
    r = vals[0]
    own = [a.t[0] for a in E.pre_args if isinstance(a.T, TOpaque) and a.T.sortname == "Fn"]
    if any(fv.t[0].eq(x) for x in own):
        return None
    if isinstance(r.T, TVar):
        v = view(E.vars["this"], E)
        E.oblige("a delivered answer is the value of a lock held, or wounded", "post", answer_ok(E, v, r, fv.t[0]), e)
        c = E.vars["g:called"].t[0]
        E.set_root("g:called", Val(TGhost(), [z3.Store(c, fv.t[0], c[fv.t[0]] + 1)]))
        return VOID
    return None


class Rls(Unit):
    name = "rls"
    sources = ["src/parsec/runtime_locking_shard/impl.cpp"]
    overrides = {"cbdc::buffer": TOpaque("Buf")}
    contracts = [ReleaseLocks(), AcquireLock(), AcquireLocks(), GetWaitingOn(), WoundTickets(),
                 TryLock(), Prepare(), Commit(), Rollback(), Finish(), GetTickets(), Recover()]
    invariants = {Q: invariant}
    externs = {"on_call": on_call}
    opts = {"closed_all_enums": True, "guards": {"m_state": "m_mut", "m_tickets": "m_mut"}}

    def on_setup(self, E, C):
        E.vars["g:called"] = Val(TGhost(), [z3.Const("called0", z3.ArraySort(fsort(), I))])


unit = Rls()
