"""P21 runtime contracts: the parent's work queue, over random completion schedules."""
import sys
import types
import logging
import numpy as np
from oracles.common import *
setup(kernel=False)


class Req:
    def __init__(self, comm, source, tag):
        self.comm, self.source, self.tag, self.consumed = comm, source, tag, False


class Status:
    def __init__(self):
        self.source, self.tag = 0, 0

    def Get_source(self):
        return self.source


def make_mpi(rng, real_statuses=True):
    M = types.SimpleNamespace(ANY_TAG=-1, ANY_SOURCE=-2, Status=Status)

    def take(h, st):
        expect(not h.consumed, "a finished receive was waited for again")
        h.consumed = True
        if st is not None:
            st.source, st.tag = (h.source if rng.random() > .1 else -1), h.tag
        return h.comm.deliver(h)

    class Request:
        @staticmethod
        def waitall(handles, statuses=None):
            return [take(h, statuses[i] if statuses else None) for i, h in enumerate(list(handles))]

        @staticmethod
        def _some(handles, statuses, least):
            n = len(handles)
            if n == 0:
                return None, None
            k = int(rng.integers(least, n + 1))
            idx = [int(i) for i in rng.permutation(n)[:k]]
            return idx, [take(handles[i], statuses[j] if statuses else None) for j, i in enumerate(idx)]

        @staticmethod
        def waitsome(handles, statuses=None):
            return Request._some(handles, statuses, 1)

        @staticmethod
        def testsome(handles, statuses=None):
            if not handles:
                return [], []
            return Request._some(handles, statuses, 0)
    M.Request = Request
    return M


class Comm:
    def __init__(self, n):
        self.n, self.work, self.dead, self.log = n, {c: [] for c in range(1, n + 1)}, [], []

    def send(self, obj, dest, tag=0):
        expect(1 <= dest <= self.n, f"message to rank {dest}")
        expect(dest not in self.dead, f"message to child {dest} after its shutdown")
        if obj is None:
            expect(not self.work[dest], f"child {dest} shut down while busy")
            self.dead.append(dest)
        else:
            expect(not self.work[dest], f"task sent to busy child {dest}")
            self.work[dest].append((obj, tag))
            self.log.append((dest, obj))

    def irecv(self, buf=None, source=None, tag=None):
        return Req(self, source, tag)

    def deliver(self, h):
        expect(bool(self.work.get(h.source)), f"result awaited from idle child {h.source}")
        obj, tag = self.work[h.source].pop()
        return ("done", h.source, obj)


R = Run()


@R.prop(n=200, tmax=15)
def histories(rng):
    mpi = make_mpi(rng)
    sys.modules["mpi4py"] = types.SimpleNamespace(MPI=mpi)
    from forcepho import dispatcher as D
    D.MPI = mpi
    D.logger = logging.getLogger("verif")
    D.logger.disabled = True
    n = int(rng.integers(1, 6))
    comm = Comm(n)
    q = D.MPIQueue(comm, n)
    sent, got, tid = [], [], 0
    expect(sorted(q.idle) == list(range(1, n + 1)), "all children start idle")

    def state():
        busy_true = sorted(c for c in comm.work if comm.work[c])
        expect(sorted(q.busy) == busy_true, f"busy {q.busy} but working are {busy_true}")
        expect(sorted(list(q.idle) + list(q.busy)) == list(range(1, n + 1)), f"idle {q.idle} busy {q.busy}")
        expect(sorted(map(str, sent)) == sorted(map(str, [g[2] for g in got] + [w[0][0] for w in comm.work.values() if w])),
               "a task was lost or answered twice")
    for step in range(int(rng.integers(5, 40))):
        op = rng.random()
        if op < .5:
            tid += 1
            try:
                c = q.submit({"task": tid}, tag=tid)
            except RuntimeError:
                expect(len([1 for w in comm.work.values() if w]) == n, "submit refused with idle children")
                state()
                continue
            expect(comm.log[-1] == (c, {"task": tid}), "submit reports the child that got the task")
            expect(len(sent) - len(got) < n, "a task accepted without an idle child")
            sent.append({"task": tid})
        elif op < .75:
            b = len(comm_busy(comm))
            r = q.collect()
            got += list(r or [])
        elif op < .9:
            b = len(comm_busy(comm))
            try:
                r = q.collect(blocking=True)
            except RuntimeError:
                expect(b == 0, "blocking collect refused although tasks are outstanding")
                continue
            expect(b > 0, "blocking collect without tasks returned")
            expect(len(r) >= 1, "blocking collect returned nothing")
            got += list(r)
        elif op < .95:
            r = q.collect(blocking="all")
            got += list(r)
            expect(not comm_busy(comm), "collect('all') left a task")
        else:
            if comm_busy(comm):
                try:
                    q.closeout()
                except RuntimeError:
                    expect(not comm.dead, "children were shut down while others are busy")
                else:
                    raise_fail("closeout with busy children")
        state()
    got += list(q.collect(blocking="all"))
    state()
    expect(len(got) == len(sent), "every task is answered once")
    q.closeout()
    expect(sorted(comm.dead) == list(range(1, n + 1)), f"shut down {comm.dead}")


def comm_busy(comm):
    return [c for c in comm.work if comm.work[c]]


R.main()
