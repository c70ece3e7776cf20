"""P21: the work queue never loses, duplicates or misroutes a task."""
import itertools
from ve.spec import *

M = "forcepho.dispatcher"
TRUSTED = ["mpi4py: send delivers to dest; irecv(source, tag) completes with that child's result; waitsome/testsome/waitall return "
           "exactly the completed requests with their results in the same order",
           "logging has no effect"]
BOUNDED = ["collect / closeout, concrete queues: up to 4 children (5 in the thorough tier), every split into idle and busy, every set and order of "
           "completed requests (in addition to the unbounded contracts with a loop invariant)"]


def symbolic_queue(v, m, k):
    """m idle and k busy children, n = m + k; the lists are duplicate free, disjoint and range over 1..n"""
    n = m + k
    idle, busy, hand = z3.Function("idle", T.I, T.I), z3.Function("busy", T.I, T.I), z3.Function("handle", T.I, T.I)
    i, j = z3.Ints("qi qj")
    v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(idle(i) >= 1, idle(i) <= n))),
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(busy(i) >= 1, busy(i) <= n))),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), idle(i) != idle(j))),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), busy(i) != busy(j))),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < k), idle(i) != busy(j))))
    return n, idle, busy, hand


def submitting(tag):
    def body(v):
        """the first idle child, and only it, gets the task, with its receive request queued at the same place; it becomes busy"""
        m, k = v.int("m", lo=0), v.int("k", lo=0)
        n, idle, busy, hand = symbolic_queue(v, m, k)
        v.I.module(M).env.d["MPI"] = S.Obj(None, "MPI", ANY_TAG=-1)
        sent, recv = [], []
        task = S.Obj(None, "task")
        h = v.int("newhandle")

        def th():
            sent.clear()
            recv.clear()
            comm = S.Obj(None, "comm", send=lambda obj, dest=None, tag=None: sent.append((obj, dest, tag)),
                         irecv=lambda buf=None, source=None, tag=None: (recv.append((source, tag)), h)[1])
            q = v.obj(M + ":MPIQueue", comm=comm, irecv_handles=S.SList(S.Seq(k, hand)), busy=S.SList(S.Seq(k, busy)),
                      idle=S.SList(S.Seq(m, idle)), n_children=n, parent=0, irecv_bufsize=10)
            r = v.call(v.method(q, "submit"), task, **({} if tag is None else {"tag": tag}))
            return q, r

        def post(r):
            q, child = r
            v.ob("needs-an-idle-child", m > 0)
            v.eq("child-returned", child, idle(0))
            v.eq("sent-once", len(sent), 1)
            v.eq("task-sent", sent[0][0] is task, True)
            v.eq("sent-to-the-child", sent[0][1], idle(0))
            v.eq("one-receive-posted", len(recv), 1)
            v.eq("receive-from-the-child", recv[0][0], idle(0))
            if tag is not None:
                v.eq("tags", [sent[0][2], recv[0][1]], [tag, tag])
            i, j, l = v.idx("i", m - 1), v.idx("j", k), q.a
            ln, at = N.np_len, v.I.getitem
            v.eq("idle-count", ln(l["idle"]), m - 1)
            v.eq("busy-count", ln(l["busy"]), k + 1)
            v.eq("request-count", ln(l["irecv_handles"]), k + 1)
            v.eq("other-idle-kept", at(l["idle"], i), idle(i + 1))
            v.eq("other-busy-kept", at(l["busy"], j), busy(j))
            v.eq("other-requests-kept", at(l["irecv_handles"], j), hand(j))
            v.eq("now-busy", at(l["busy"], k), idle(0))
            v.eq("its-request-at-the-same-place", at(l["irecv_handles"], k), h)

        def raises(e):
            v.eq("error-kind", e.etype, "RuntimeError")
            v.ob("fails-only-without-idle-child", m == 0)
            v.eq("nothing-sent", [len(sent), len(recv)], [0, 0])
        v.run(th, post, raises)
    body.__name__ = "submit" + ("" if tag is None else f"_tag{tag}")
    return body


for _t in (None, 7):
    contract(M + ":MPIQueue.submit")(submitting(_t))


def splits(nmax):
    for n in range(1, nmax + 1):
        for k in range(n + 1):
            for b in itertools.permutations(range(1, n + 1), k):
                yield n, list(b), [c for c in range(1, n + 1) if c not in b]


def queue(v, n, busy, idle, comm=None):
    hs = [S.Obj(None, f"request{c}", child=c) for c in busy]
    q = v.obj(M + ":MPIQueue", comm=comm or S.Obj(None, "comm"), irecv_handles=S.SList(list(hs)), busy=S.SList(list(busy)),
              idle=S.SList(list(idle)), n_children=n, parent=0, irecv_bufsize=10, ntry=1000)
    return q, hs


def collecting(mode):
    def body(v):
        """exactly the completed requests leave the queue; their children become idle; the results are returned"""
        nmax = 5 if v.tier == "thorough" else 4
        for n, busy, idle in splits(nmax):
            k = len(busy)
            sets = [tuple(range(k))] if mode == "all" else \
                [p for r in range(1 if mode else 0, k + 1) for p in itertools.permutations(range(k), r)] or [()]
            for done in sets:
                res = {c: S.Obj(None, f"result{c}") for c in busy}

                def some(I, hs, st=None, done=done):
                    l = list(hs.v)
                    return (S.SList(list(done)), S.SList([res[l[d].a["child"]] for d in done]))

                def every(I, hs, st=None):
                    return S.SList([res[h.a["child"]] for h in hs.v])
                mpi = S.Obj(None, "MPI", Status=lambda: S.Obj(None, "status", source=1), ANY_TAG=-1,
                            Request=S.Obj(None, "Request", waitall=lambda *a: every(v.I, *a), waitsome=lambda *a: some(v.I, *a),
                                          testsome=lambda *a: some(v.I, *a)))
                v.I.module(M).env.d["MPI"] = mpi

                def th(n=n, busy=busy, idle=idle):
                    q, hs = queue(v, n, busy, idle)
                    r = v.call(v.method(q, "collect"), blocking={"no": False, "some": True, "all": "all"}[mode if mode else "no"])
                    return q, hs, r

                def post(t, n=n, busy=busy, idle=idle, done=done, res=res):
                    q, hs, r = t
                    v.ob("outstanding-needed", not (mode == "some" and not busy))
                    gone = [busy[d] for d in done]
                    left = [c for c in busy if c not in gone]
                    B, I_, H = (list(q.a[x].v) for x in ("busy", "idle", "irecv_handles"))
                    v.eq("still-busy", B, left)
                    v.eq("requests-match-busy", [h.a["child"] for h in H], left)
                    v.eq("idle-without-duplicates", len(set(I_)), len(I_))
                    v.eq("idle-is-the-rest", sorted(I_), sorted(idle + gone))
                    v.eq("order-of-waiting-children-kept", I_[:len(idle)], idle)
                    v.eq("results-once-each", [x.name for x in r.v], [f"result{c}" for c in gone])

                def raises(e, busy=busy):
                    v.ob("fails-only-if-nothing-outstanding", e.etype == "RuntimeError" and mode == "some" and not busy)
                v.run(th, post, raises)
    body.__name__ = "collect_" + (mode or "nonblocking")
    return body


def collecting_any(mode, ndone):
    def body(v):
        """any number of children; one or two completions at any positions, reported in any order"""
        m, k = v.int("m", lo=0), v.int("k", lo=ndone)
        n, idle, busy, hand = symbolic_queue(v, m, k)
        RES = z3.Function("result_of_request", T.I, T.I)
        done = [v.idx(f"d{x}", k) for x in range(ndone)]
        if ndone == 2:
            v.assume(done[0] != done[1])

        def some(hs, st=None):
            return (S.SList(list(done)), S.SList([RES(v.I.getitem(hs, d)) for d in done]))
        v.I.module(M).env.d["MPI"] = S.Obj(None, "MPI", Status=lambda: S.Obj(None, "status", source=1), ANY_TAG=-1,
                                           Request=S.Obj(None, "Request", waitsome=some, testsome=some))

        def th():
            q = v.obj(M + ":MPIQueue", comm=S.Obj(None, "comm"), irecv_handles=S.SList(S.Seq(k, hand)), busy=S.SList(S.Seq(k, busy)),
                      idle=S.SList(S.Seq(m, idle)), n_children=n, parent=0, irecv_bufsize=10)
            return q, v.call(v.method(q, "collect"), blocking=mode)

        def post(r):
            q, res = r
            ln, at, a = N.np_len, v.I.getitem, q.a
            v.eq("results-once-each", ln(res), ndone)
            for x, d in enumerate(done):
                v.eq("result-of-the-completed-request", at(res, x), RES(hand(d)))
            v.eq("busy-count", ln(a["busy"]), k - ndone)
            v.eq("request-count", ln(a["irecv_handles"]), k - ndone)
            v.eq("idle-count", ln(a["idle"]), m + ndone)
            i = v.idx("i", m)
            v.eq("waiting-children-kept", at(a["idle"], i), idle(i))
            new = [at(a["idle"], m + x) for x in range(ndone)]
            v.ob("completed-children-idle", z3.And(*[z3.Or(*[c == busy(d) for c in new]) for d in done]))
            j = v.idx("j", k - ndone)
            lo, hi = (done[0], done[0]) if ndone == 1 else (z3.If(done[0] < done[1], done[0], done[1]), z3.If(done[0] < done[1], done[1], done[0]))
            src = z3.If(j < lo, j, j + 1) if ndone == 1 else z3.If(j < lo, j, z3.If(j + 1 < hi, j + 1, j + 2))
            v.eq("other-busy-kept-in-order", at(a["busy"], j), busy(src))
            v.eq("their-requests-at-the-same-places", at(a["irecv_handles"], j), hand(src))
        v.run(th, post)
    body.__name__ = f"collect_any_{'waiting' if mode else 'polling'}_{ndone}"
    return body


def collecting_inductive(mode):
    def body(v):
        """any number of children and of completions, reported in any order.  The loop removing the completed requests carries the
        invariant: after k of them (D(0) > D(1) > ...) the child and request at place x, not yet removed, are at place POS(k, x),
        POS(k, .) keeps their order, and the removed children have been appended to the idle ones."""
        I = v.I
        m, K, nd = v.int("m", lo=0), v.int("k", lo=1), v.int("n_done", lo=1 if mode else 0)
        n, idle, busy, hand = symbolic_queue(v, m, K)
        if mode == "all":
            v.assume(nd == K)
        done, RES = z3.Function("completed", T.I, T.I), z3.Function("result_of_request", T.I, T.I)
        i, j = z3.Ints("ci cj")
        v.assume(nd <= K, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nd), z3.And(done(i) >= 0, done(i) < K)), patterns=[done(i)]),
                 z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nd), done(i) != done(j)), patterns=[z3.MultiPattern(done(i), done(j))]))
        POS, OUT = z3.Function("place_after", T.I, T.I, T.I), z3.Function("remains_after", T.I, T.I, T.B)
        ghost, EI = {}, z3.Int("ei")

        def some(hs, st=None):
            f = hs.v.at
            return (S.SList(S.Seq(nd, lambda x: done(T.to_int(x)), "completed")), S.SList(S.Seq(nd, lambda x: RES(f(done(T.to_int(x)))))))

        def every(hs, st=None):
            l = hs.v
            return S.SList(S.Seq(K, lambda x: RES(l.at(x))))
        I.module(M).env.d["MPI"] = S.Obj(None, "MPI", Status=lambda: S.Obj(None, "status", source=1), ANY_TAG=-1,
                                         Request=S.Obj(None, "Request", waitsome=some, testsome=some, waitall=every))

        def ghost_defs(k, *xs):
            D = ghost["D"]
            for x in xs:
                I.fact(POS(0, x) == x, OUT(0, x), POS(k + 1, x) == z3.If(D(k) < x, POS(k, x) - 1, POS(k, x)),
                       OUT(k + 1, x) == z3.And(OUT(k, x), x != D(k)))

        def inv(k, x, y, e, B, H, IDL):
            """the invariant after k removals at the places x < y and the completion e < k"""
            D = ghost["D"]
            ok = z3.And(0 <= x, x < K)
            return {"not-reached-yet": z3.Implies(z3.And(ok, z3.Or(k == 0, x < D(k - 1))), z3.And(OUT(k, x), POS(k, x) == x)),
                    "order-kept": z3.Implies(z3.And(ok, x < y, y < K, OUT(k, x), OUT(k, y)), POS(k, x) < POS(k, y)),
                    "kept-with-its-request": z3.Implies(z3.And(ok, OUT(k, x)), z3.And(0 <= POS(k, x), POS(k, x) < K - k, B(POS(k, x)) == busy(x), H(POS(k, x)) == hand(x))),
                    "kept-unless-completed": z3.Implies(z3.And(ok, z3.ForAll([EI], z3.Implies(z3.And(0 <= EI, EI < k), D(EI) != x), patterns=[D(EI)])), OUT(k, x)),
                    "removed": z3.Implies(z3.And(0 <= e, e < k, OUT(k, x)), x != D(e)),
                    "idle-grows": z3.Implies(z3.And(0 <= e, e < k), IDL(m + e) == busy(D(e))),
                    "waiting-kept": z3.Implies(z3.And(0 <= e, e < m), IDL(e) == idle(e))}

        def read(q):
            a = q.a
            if not all(isinstance(a[c].v, S.Seq) for c in ("busy", "irecv_handles", "idle")):
                raise Unsupported("list of unexpected form")
            return [lambda t, l=a[c].v: T.to_int(l.at(t)) for c in ("busy", "irecv_handles", "idle")]

        def need(name, g):
            if not I.valid(g):
                raise Unsupported("loop invariant not established: " + name)
            v.ob(name, g)

        def put(q, k, B, H):
            D = ghost["D"]
            q.a["busy"].set(S.Seq(K - k, lambda t: B(T.to_int(t))))
            q.a["irecv_handles"].set(S.Seq(K - k, lambda t: H(T.to_int(t))))
            q.a["idle"].set(S.Seq(m + k, lambda t: z3.If(T.to_int(t) < m, idle(T.to_int(t)), busy(D(T.to_int(t) - m)))))

        def cut(it, run):
            if "D" in ghost or it.name != "sorted":
                return False
            if not I.valid(it.n == nd):
                return False
            q = ghost["q"]
            D = ghost["D"] = lambda t: it.at(t)
            i, j = z3.Ints("di dj")
            # decreasing, because the completed requests are distinct
            a, b = T.fresh("da", T.I), T.fresh("db", T.I)
            with I.assuming(0 <= a, a < b, b < nd):
                need("completions-in-decreasing-order", D(a) > D(b))
            I.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nd), D(i) > D(j)), patterns=[z3.MultiPattern(D(i), D(j))]),
                   z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nd), z3.And(D(i) >= 0, D(i) < K)), patterns=[D(i)]))
            x, y, e = (T.fresh(c, T.I) for c in ("x", "y", "e"))
            # established on entry
            ghost_defs(z3.IntVal(0), x, y)
            for c, l in (("busy", K), ("irecv_handles", K), ("idle", m)):
                need("entry-length-" + c, N.np_len(q.a[c]) == l)
            rd = read(q)
            for nm, g in inv(z3.IntVal(0), x, y, e, *rd).items():
                need("on-entry." + nm, g)
            if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
                # preserved by one iteration, from an arbitrary state satisfying it
                k = T.fresh("kiter", T.I)
                I.assume(0 <= k, k < nd)
                B0, H0 = T.fresh_fun("B", T.I, T.I), T.fresh_fun("H", T.I, T.I)
                put(q, k, B0, H0)
                d = D(k)
                I.assume(z3.Implies(k > 0, D(k - 1) > d))
                ghost_defs(k, x, y, d)
                rd = read(q)
                for t, u in ((x, y), (d, y), (x, d), (d, x), (y, d)):
                    for g in inv(k, t, u, e, *rd).values():
                        I.assume(g)
                run(k)
                for c, l in (("busy", K - k - 1), ("irecv_handles", K - k - 1), ("idle", m + k + 1)):
                    need("length-" + c, N.np_len(q.a[c]) == l)
                rd = read(q)
                for nm, g in inv(k + 1, x, y, e, *rd).items():
                    need("preserved." + nm, g)
                raise Infeasible()
            B1, H1 = T.fresh_fun("B", T.I, T.I), T.fresh_fun("H", T.I, T.I)
            put(q, nd, B1, H1)
            ghost["inv"] = lambda x, y, e: inv(nd, x, y, e, *read(q)).values()
            return True

        def th():
            ghost.clear()
            q = ghost["q"] = v.obj(M + ":MPIQueue", comm=S.Obj(None, "comm"), irecv_handles=S.SList(S.Seq(K, hand)), busy=S.SList(S.Seq(K, busy)),
                                   idle=S.SList(S.Seq(m, idle)), n_children=n, parent=0, irecv_bufsize=10)
            I.cuts = (cut,)
            try:
                return q, v.call(v.method(q, "collect"), blocking=mode)
            finally:
                I.cuts = ()

        def post(r):
            q, res = r
            if "inv" not in ghost:
                raise Unsupported("the loop over the completions was not met")
            ln, at, a, D = N.np_len, (lambda l, t: l.v.at(t)), q.a, ghost["D"]
            x, y, e = v.idx("x", K), v.idx("y", K), v.idx("e", nd)
            for g in ghost["inv"](x, y, e):
                v.assume(g)
            v.eq("results-once-each", ln(res), nd)
            v.eq("result-of-the-completed-request", at(res, e), RES(hand(e if mode == "all" else done(e))))
            v.eq("busy-count", ln(a["busy"]), K - nd)
            v.eq("request-count", ln(a["irecv_handles"]), K - nd)
            v.eq("idle-count", ln(a["idle"]), m + nd)
            w = v.idx("w", m)
            v.eq("waiting-children-kept", at(a["idle"], w), idle(w))
            v.eq("completed-children-idle", at(a["idle"], m + e), busy(D(e)))
            with I.assuming(OUT(nd, x)):
                v.eq("others-stay-busy", at(a["busy"], POS(nd, x)), busy(x))
                v.eq("with-their-requests", at(a["irecv_handles"], POS(nd, x)), hand(x))
                v.ob("not-removed", x != D(e))
                with I.assuming(OUT(nd, y), x < y):
                    v.ob("in-order", POS(nd, x) < POS(nd, y))
            with I.assuming(z3.ForAll([EI], z3.Implies(z3.And(0 <= EI, EI < nd), D(EI) != x), patterns=[D(EI)])):
                v.ob("all-others-stay", OUT(nd, x))
        v.run(th, post)
    body.__name__ = f"collect_invariant_{'all' if mode == 'all' else 'waiting' if mode else 'polling'}"
    return body


for _b in (False, True, "all"):
    contract(M + ":MPIQueue.collect")(collecting_inductive(_b))


for _b in (False, True):
    for _n in (1, 2):
        contract(M + ":MPIQueue.collect")(collecting_any(_b, _n))


for _m in ("", "some", "all"):
    contract(M + ":MPIQueue.collect", bounded=True)(collecting(_m))


@contract(M + ":MPIQueue.closeout")
def closing_any(v):
    """any number of children: refused while a child is busy or a request outstanding; else every child gets one stop message"""
    I = v.I
    m, k = v.int("m", lo=0), v.int("k", lo=0)
    n, idle, busy, hand = symbolic_queue(v, m, k)
    v.assume(n >= 1)
    sent, box = [], {}

    def cut(it, run):
        if "met" in box or not I.valid(T.to_int(it.n) == n):
            return False
        box["met"] = True
        if sent:
            raise Unsupported("messages before the loop")
        if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
            c = T.fresh("c", T.I)
            I.assume(0 <= c, c < n)
            run(c)
            if len(sent) != 1 or not I.valid(T.to_int(sent[0][1]) == c + 1):
                raise Unsupported("not one message to the child of this iteration")
            v.ob("one-stop-message-to-each-child", T.to_int(sent[0][1]) == c + 1)
            v.ob("it-is-the-stop-message", sent[0][0] is None)
            raise Infeasible()
        return True

    def th():
        sent.clear()
        box.clear()
        q = v.obj(M + ":MPIQueue", comm=S.Obj(None, "comm", send=lambda obj, dest=None, tag=None: sent.append((obj, dest))),
                  irecv_handles=S.SList(S.Seq(k, hand)), busy=S.SList(S.Seq(k, busy)), idle=S.SList(S.Seq(m, idle)), n_children=n, parent=0, irecv_bufsize=10)
        I.cuts = (cut,)
        try:
            v.call(v.method(q, "closeout"))
        finally:
            I.cuts = ()

    def post(r):
        v.ob("all-idle", k == 0)
        if "met" not in box:
            raise Unsupported("the loop over the children was not met")
        v.eq("nothing-else-sent", len(sent), 0)

    def raises(e):
        v.ob("refused-only-if-busy", k > 0)
        v.ob("error-kind", e.etype == "RuntimeError")
        v.ob("nothing-sent", not sent and "met" not in box)
    v.run(th, post, raises)


@contract(M + ":MPIQueue.closeout", bounded=True)
def closing(v):
    """refused while a child is busy; else one stop message to every child"""
    for n, busy, idle in splits(4):
        sent = []

        def th(n=n, busy=busy, idle=idle, sent=sent):
            sent.clear()
            q, hs = queue(v, n, busy, idle, S.Obj(None, "comm", send=lambda obj, dest=None, tag=None: sent.append((obj, dest))))
            v.call(v.method(q, "closeout"))
            return q

        def post(q, n=n, busy=busy, sent=sent):
            v.ob("all-idle", not busy)
            v.eq("one-stop-each", sorted(d for _, d in sent), list(range(1, n + 1)))
            v.ob("stop-messages", all(o is None for o, _ in sent))

        def raises(e, busy=busy, sent=sent):
            v.ob("refused-only-if-busy", e.etype == "RuntimeError" and bool(busy))
            v.eq("nothing-sent", len(sent), 0)
        v.run(th, post, raises)


@contract(M + ":MPIQueue.__init__")
def fresh(v):
    """initially all children 1..n are idle and nothing is outstanding"""
    n = v.int("n", lo=1)

    def th():
        return v.call(M + ":MPIQueue", S.Obj(None, "comm"), n)

    def post(q):
        i = v.idx("i", n)
        v.eq("all-idle", N.np_len(q.a["idle"]), n)
        v.eq("children", v.I.getitem(q.a["idle"], i), i + 1)
        v.eq("none-busy", [N.np_len(q.a["busy"]), N.np_len(q.a["irecv_handles"])], [0, 0])
        v.eq("count", q.a["n_children"], n)
    v.run(th, post)
