"""blocking_queue.hpp under arbitrary interleaving

Whenever the mutex is acquired (also when a wait returns) the queue, the wake flag and the number of blocked consumers are arbitrary
subject to the shared invariant; whenever it is released the invariant must hold again.  Each operation is specified by what it does
between its last acquisition and release: there it acts atomically.
g:B0, g:W0 state at the last acquisition; g:waiting blocked consumers; g:cleared a clear() not yet followed by reset(); g:note a notification after the change"""
from units.common import *
import os

INST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "inst", "blocking_queue.cpp")
Q1 = "cbdc::blocking_queue_internal<std::shared_ptr<cbdc::buffer>, std::queue<std::shared_ptr<cbdc::buffer>>>"
Q2 = "cbdc::blocking_queue_internal<unsigned long, std::priority_queue<unsigned long, std::vector<unsigned long>, std::greater<void>>>"


def num(x):
    return Val(TInt(64, False), [z3.IntVal(x) if isinstance(x, int) else x])


def flag(x):
    return Val(TBool(), [z3.BoolVal(x) if isinstance(x, bool) else x])


def G(E, n):
    return E.vars["g:" + n].t[0]


def shared_inv(t, waiting, cleared):
    """t: the queue object"""
    out = [("a cleared queue keeps its consumers awake", Imp(cleared, t.m_wake.z)),
           ("consumers are awake while items are there", Imp(And(waiting > 0, t.m_buffer.len > 0), t.m_wake.z)),
           ("awake without items only after clear", Imp(And(t.m_wake.z, t.m_buffer.len == 0), cleared))]
    f = [n for n, _ in t.T.fields]
    if "m_cleared" in f:
        out.append(("clear is remembered until reset", t.m_cleared.z == cleared))
    b = t.m_buffer
    if b.T.kind.startswith("pq"):
        le = (lambda x, y: x >= y) if b.T.kind == "pq<" else (lambda x, y: x <= y)
        out.append(("by priority", Forall([I, I], lambda i, j: Imp(And(0 <= i, i <= j, j < b.len), le(b.at(i).z, b.at(j).z)), lambda i, j: [z3.MultiPattern(b.at(i).z, b.at(j).z)])))
    return out


def havoc(E):
    t0 = E.vars["this"]
    t = E.fresh_val(t0.T, "q")
    E.set_root("this", t)
    w, c = E.fresh(I, "waiting"), E.fresh(B, "cleared")
    E.vars["g:waiting"], E.vars["g:cleared"] = num(w), flag(c)
    return t, w, c


def on_acquire(E, short):
    t, w, c = havoc(E)
    own = G(E, "own")
    E.assume(w >= own)
    for _, fm in shared_inv(t, w, c):
        E.assume(fm)
    for _, fm in E.K.assume_shared(E, t, w, c) if hasattr(E.K, "assume_shared") else ():
        E.assume(fm)
    E.vars["g:B0"], E.vars["g:W0"] = t.m_buffer, t.m_wake
    E.vars["g:note"] = E.vars["g:note_all"] = flag(False)
    E.vars["g:sections"] = num(G(E, "sections") + If(own > 0, z3.IntVal(0), z3.IntVal(1)))


def on_release(E, short):
    t = E.vars["this"]
    c = E.K.cleared_after(E) if hasattr(E.K, "cleared_after") else G(E, "cleared")
    for n, fm in shared_inv(t, G(E, "waiting"), c):
        E.oblige(n, "inv", fm, None)


def wait(E, p, args, e, f):
    if len(args) < 2:
        from engine import Unsupported
        raise Unsupported("wait without a condition at " + e.loc())
    lam = E.ev(args[1], f)
    if E.choose(E.truth(E.call_value(lam, [], e, f))):
        return VOID_
    t = E.vars["this"]
    E.oblige("a consumer blocks only on an empty queue that is not cleared", "post", And(t.m_buffer.len == 0, Not(G(E, "cleared"))), e)
    E.oblige("it blocks holding the lock, leaving the queue as it was", "post", And(same(t.m_buffer, E.vars["g:B0"]), t.m_wake.z == G(E, "W0"), z3.BoolVal(bool(E.held.get("m_mut")))), e)
    E.vars["g:own"] = num(1)
    E.vars["g:waiting"] = num(G(E, "waiting") + 1)
    on_release(E, "m_mut")
    on_acquire(E, "m_mut")
    E.vars["g:own"] = num(0)
    E.vars["g:waiting"] = num(G(E, "waiting") - 1)
    E.assume(E.truth(E.call_value(lam, [], e, f)))
    return VOID_


def notify(every):
    def h(E, p, args, e, f):
        E.vars["g:note"] = flag(True)
        if every:
            E.vars["g:note_all"] = flag(True)
        return VOID_
    return h


VOID_ = Val(TUnit(), [])


def once(C):
    return ("acts in one critical section", G(C.E, "sections") == 1)


class Op(Contract):
    def modifies(self, C):
        return [n for n, _ in C.this.T.fields]


class Push(Op):
    def ensures(self, C):
        E, b0, b1, x = C.E, C.E.vars["g:B0"], C.this.m_buffer, C.arg(0)
        if b0.T.kind.startswith("pq"):
            at = E.vars.get("g:pq_place", num(-1)).z
            eff = ("the item joins the queue, by priority", And(b1.len == b0.len + 1, 0 <= at, at <= b0.len, Forall([I], lambda i: Imp(frange(i, b1.len), b1.at(i).z == If(i < at, b0.at(i).z, If(i == at, x.z, b0.at(i - 1).z))), lambda i: [b1.at(i).z])))
        else:
            eff = ("the item joins the queue at its end", And(b1.len == b0.len + 1, b1.at(b0.len).z == x.z, Forall([I], lambda i: Imp(frange(i, b0.len), b1.at(i).z == b0.at(i).z))))
        return [eff, ("consumers are to wake up", C.this.m_wake.z), ("a waiting consumer is notified after the change", G(E, "note")),
                ("the new size is returned", C.ret.z == b1.len), once(C)]


class Pop(Op):
    def modifies_args(self, C):
        return [0]

    def ensures(self, C):
        E, b0, b1 = C.E, C.E.vars["g:B0"], C.this.m_buffer
        return [("an item is returned exactly when there is one", C.ret.z == (b0.len > 0)),
                ("no item is returned only after a clear", Imp(Not(C.ret.z), G(E, "cleared"))),
                ("the first item is returned", Imp(C.ret.z, C.post_arg(0).z == b0.at(0).z)),
                ("exactly that item leaves the queue", Imp(C.ret.z, And(b1.len == b0.len - 1, Forall([I], lambda i: Imp(frange(i, b1.len), b1.at(i).z == b0.at(i + 1).z))))),
                ("otherwise the queue stays as it is", Imp(Not(C.ret.z), And(b1.len == 0, C.this.m_wake.z))), once(C)]


class Clear(Op):
    def cleared_after(self, E):
        return z3.BoolVal(True)

    def ensures(self, C):
        return [("the queue is emptied", C.this.m_buffer.len == 0), ("every blocked consumer is released", And(C.this.m_wake.z, G(C.E, "note_all"))), once(C)]


class Reset(Op):
    def cleared_after(self, E):
        return z3.BoolVal(False)

    def assume_shared(self, E, t, w, c):
        return [("documented: all consumers have returned from pop", w == 0)]

    def ensures(self, C):
        return [("items are kept", same(C.this.m_buffer, C.E.vars["g:B0"])), ("consumers block again", Not(C.this.m_wake.z)), once(C)]


class Destroy(Clear):
    def __init__(self, **kw):
        Clear.__init__(self, **kw)
        self.opts = {"inline": (self.fn.rsplit("::", 1)[0] + "::clear",)}


class BQ(Unit):
    name = "bq"
    sources = [INST]
    contracts = [k(fn=q + "::" + m, short=s + "::" + m, inv=False) for q, s in ((Q1, "queue"), (Q2, "priority_queue"))
                 for m, k in (("push", Push), ("pop", Pop), ("clear", Clear), ("reset", Reset), ("~blocking_queue_internal", Destroy))]
    opts = {"guards": {"m_buffer": "m_mut", "m_wake": "m_mut", "m_cleared": "m_mut"}}
    externs = {"on_acquire": on_acquire, "on_release": on_release,
               "method": {("X_std__condition_variable", "wait"): wait, ("X_std__condition_variable", "notify_one"): notify(False), ("X_std__condition_variable", "notify_all"): notify(True)}}

    def on_ghosts(self, E, C):
        for n in ("waiting", "own", "sections"):
            E.vars["g:" + n] = num(0)
        for n in ("cleared", "note", "note_all"):
            E.vars["g:" + n] = flag(False)


unit = BQ()
