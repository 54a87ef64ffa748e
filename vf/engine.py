"""Worklist exploration of the abstract states of one entry function."""
import collections, time
from .num import Num, Infeasible
from .shape import State, Frame, Split, Stop, new_shape
from .interp import Compiler, step_cont
from .natives import Natives
from .layout import Layout
from .loops import widen

class Budget(Exception): pass

class Engine:
    def __init__(self, prog, lay=None):
        self.prog = prog
        self.lay = lay or Layout(prog)
        self.nat = Natives(prog, self.lay)
        self.comp = Compiler(prog, self.lay, self.nat)
        self.prog.consts = getattr(prog, "consts", [])

    def fresh_state(self, events):
        st = State.__new__(State)
        st.mem, st.num, st.D = {}, Num(), new_shape()
        st.frames, st.nextbase, st.nextoid = [], 100, 1
        st.ghost, st.log, st.writers, st.strong, st.freed = (), (), {}, {}, frozenset()
        st.panicking, st.cfg, st.lay, st.nsplit, st.marks = None, (), self.lay, 0, {}
        st.objty, st.events, st.prog, st.outcome, st.keep, st.picks = {}, events, self.prog, None, (), ()
        st.arrived, st.joined, st.checking = True, False, False
        return st

    def enter(self, st, f, vals):
        self.comp.fn_code(f)
        fr = Frame(f, st.nextbase, None, None, "c", ())
        st.nextbase += len(f.locals) + 1
        for i, v in enumerate(vals): st.mem[fr.base + 1 + i] = v
        st.frames.append(fr)

    def unfold(self, init, deadline, max_states):
        """The first steps of every path, without joining anything: nothing is lost, but loops are followed
        only as far as the number of states allows. Used where joining was too imprecise to tell."""
        try:
            self.run(init, deadline, max_states, True)
        except Budget:
            pass

    def run(self, init, deadline=None, max_states=200000, exact=False):
        """Explore from the given states; events.on_exit / on_stop get the outcomes."""
        work = collections.deque(init)
        self.queue = work if exact else None
        self.heads = {}
        if not exact:
            self.nstates = self.nsteps = 0
            self.visited = set()
        self.callees = set()
        self.pending = {}
        while work or self.pending:
            if work: st = work.popleft() if exact else work.pop()
            else:
                k = min(self.pending, key=lambda k: self.pending[k][0])
                st = self.pending.pop(k)[1]
            self.nstates += 1
            if self.nstates > max_states: raise Budget("states")
            if deadline and time.time() > deadline: raise Budget("time")
            try:
                self.go(st)
            except Split as s:
                for label, f in s.alts if exact else reversed(s.alts):
                    n = st.copy()
                    n.nsplit += 1
                    try:
                        f(n)
                    except Infeasible:
                        continue
                    n.log = n.log + (("case", label),)
                    work.append(n)
            except Infeasible:
                pass
            except Stop as e:
                st.events.on_stop(st, e)

    def join(self, st):
        if self.queue is not None:
            self.queue.append(st)
            return
        key = widen(self.heads, st)
        if key is not None: self.pending[key] = (tuple([x for f in st.frames if f.fn is not None for x in f.fn.rank[f.bi]]), st)

    def go(self, st):
        comp = self.comp
        frames = st.frames
        while True:
            if st.outcome is not None:
                st.events.on_exit(st)
                return
            fr = frames[-1]
            if fr.fn is None:
                if step_cont(st, comp):
                    # Nothing depends on what the function just called returned: states that differ in nothing else are one.
                    self.join(st)
                    return
                st.arrived = True
                continue
            if st.arrived:
                head = fr.bi in fr.fn.heads and fr.si == 0
                if head:
                    st.events.on_head(st)
                    fr.looped = True
                st.arrived = False
                if head:
                    self.join(st)
                    return
            code = fr.fn.code[fr.bi]
            if code is None: code = comp.block(fr.fn, fr.bi)
            stm, term = code
            n = len(stm)
            i = fr.si
            base = fr.base
            while i < n:
                s = stm[i]
                if s is not None:
                    fr.si = i
                    s(st, base)
                i += 1
            fr.si = n
            self.nsteps += n + 1
            self.visited.add((fr.fn.id, fr.bi))
            term(st, fr)
            st.arrived = True
            if st.picks: st.picks = ()
