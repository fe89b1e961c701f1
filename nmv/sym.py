"""Symbolic executor / verification-condition generator over LLVM IR.

Deductive, path by path: every call is either checked against a contract (a Python function giving the
precondition obligations and all outcomes the contract allows) or, for uncontracted static helpers, executed in
line; every loop is either finite by concrete control (executed to the end) or cut at its header with an
inductive invariant that is proved on entry and on every back edge.  Nothing is bounded unless the engine is put
in `bounded` mode, which is used only to look for counterexamples or as a labelled stand-in.
"""
import time
import z3
from ir import PTR

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class CutNeeded(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'NULL' if self.o == 0 else '&%s+%s' % (self.o, self.off)


NULL = Ptr(0, 0)


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn:' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class PInt:
    """ptrtoint of a pointer."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FP:
    """Opaque floating point value."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Obj:
    __slots__ = ('kind', 'size', 'data', 'live', 'ro', 'name', 'lazy', 'meta')

    def __init__(self, kind, size, data, name='', ro=False, lazy=None, meta=None):
        self.kind = kind
        self.size = size
        self.data = data
        self.live = True
        self.ro = ro
        self.name = name
        self.lazy = lazy
        self.meta = meta

    def copy(self, **kw):
        n = Obj(self.kind, self.size, self.data, self.name, self.ro, self.lazy, self.meta)
        n.live = self.live
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class State:
    __slots__ = ('mem', 'pc', 'pcset', 'ghost', 'log', 'rax', 'model', 'nsym')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.ghost = {}
        self.log = []
        self.rax = {}
        self.model = None
        self.nsym = 0

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.ghost = dict(self.ghost)
        s.log = list(self.log)
        s.rax = dict(self.rax)
        s.model = self.model
        s.nsym = self.nsym
        return s

    def event(self, *e):
        self.log.append(e)


def bv(v, w=64):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def is_conc(v):
    return isinstance(v, int)


def conc(v):
    """Reduce a z3 bit-vector/bool to a python int when it is a literal."""
    if isinstance(v, z3.BitVecRef):
        if z3.is_bv_value(v):
            return v.as_long()
        s = z3.simplify(v)
        if z3.is_bv_value(s):
            return s.as_long()
        return s
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        s = z3.simplify(v)
        if z3.is_true(s):
            return 1
        if z3.is_false(s):
            return 0
        return s
    return v


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BitVecRef):
        return v != 0
    return v


def tobv1(v, w):
    if isinstance(v, int):
        return v
    return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


class Failure:
    def __init__(self, ob, kind, where, model, st, definite=True, note=''):
        self.ob = ob
        self.kind = kind
        self.where = where
        self.model = model
        self.st = st
        self.definite = definite
        self.note = note
        self.trace = [repr(e) for e in st.log[-60:]] if st is not None else []


class Obl:
    __slots__ = ('name', 'kind', 'where', 'ok', 'secs', 'backend')

    def __init__(self, name, kind, where, ok, secs, backend):
        self.name = name
        self.kind = kind
        self.where = where
        self.ok = ok
        self.secs = secs
        self.backend = backend


class Engine:
    def __init__(self, prog, timeout=20000, seed=1):
        self.prog = prog
        self.contracts = {}
        self.obls = []
        self.failures = []
        self.weak = []
        self.scale = 1
        self.dry = 0
        self.proved_elsewhere = ()
        self.volatile_load = None
        self.merge_returns = False
        self.join_loops = False   # join paths that meet at a loop head (join.py)
        self.join_drop = ()
        self.ghost_normalize = None
        self.max_rounds = 600
        self.auto_inv = True
        self.max_items = 96
        self.const_cache = {}
        self.nid = 100
        self.counter = 0
        self.timeout = timeout
        self.solver_time = 0.0
        self.nqueries = 0
        self.under_contract = set()
        self.inlined = set()
        self.used_contracts = {}
        self.assumptions = []
        self.loop_templates = []     # functions (view) -> list of (name, fn(view)->z3 Bool)
        self.qtemplates = []         # functions (view) -> list of QInv
        self.header_axioms = []      # functions (eng, st, view) -> None (assume spec-function unfoldings)
        self.ghost_havoc = {}
        self.bounded = 0
        self.bounded_hit = False
        self.base_axioms = []
        self.maxdepth = 60
        self.loopinfo = []
        self.step_budget = 3000000
        self.paths_budget = 60000
        self.steps = 0
        self.globals_override = {}
        self.dyncache = {}
        self.deadline = None
        self.where = ''
        self.abstract_loops = False
        self.on_load_lazy = None
        self.max_sym_iters = 1
        self.trace_loops = False
        self.invlog = []
        self.callstack = []
        self.mode_stack = []
        self.ptr_sensitive = {}
        self.check_leaks = False
        self.lazy_cache = {}

    # fresh names -------------------------------------------------------
    def fresh(self, name, w=64):
        self.counter += 1
        n = '%s!%d' % (name, self.counter)
        if w == 1:
            return z3.Bool(n)
        return z3.BitVec(n, w)

    def fresh_int(self, name):
        self.counter += 1
        return z3.Int('%s!%d' % (name, self.counter))

    def fresh_bool(self, name):
        self.counter += 1
        return z3.Bool('%s!%d' % (name, self.counter))

    def fresh_arr(self, name):
        self.counter += 1
        return z3.Array('%s!%d' % (name, self.counter), z3.BitVecSort(64), z3.BitVecSort(8))

    def newid(self):
        self.nid += 1
        return self.nid

    # solver ------------------------------------------------------------
    RL_PER_MS = 9000

    def limit(self, s, ms):
        """Resource limit in solver steps, so that the verdict does not depend on the load of the machine; the
        wall-clock limit is only a backstop."""
        s.set('rlimit', int(ms * self.RL_PER_MS * self.scale))
        left = 1e9 if self.deadline is None else max(1.0, self.deadline - time.time() + 20)
        s.set('timeout', int(min(ms * 6 * self.scale + 2000, left * 1000)))
        return s

    def _check(self, cs, timeout=None):
        t = time.time()
        s = self.limit(z3.Solver(), timeout or self.timeout)
        for a in self.base_axioms:
            s.add(a)
        ref, sol = s.ctx.ref(), s.solver
        for c in cs:
            z3.Z3_solver_assert(ref, sol, c.as_ast())
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, m

    def consts(self, c):
        """The uninterpreted constants of a term (cached)."""
        k = c.get_id()
        r = self.const_cache.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        todo = [c]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            q = self.const_cache.get(i)
            if q is not None:
                out |= q[1]
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(i)
                else:
                    todo.extend(x.children())
            elif z3.is_quantifier(x):
                todo.append(x.body())
        r = frozenset(out)
        self.const_cache[k] = (c, r)
        return r

    def relevant(self, pc, c):
        """The part of pc connected to c by shared constants.  Dropping the rest only weakens what is known, so an
        unsatisfiable answer stands; it is used to prune paths, never to discharge an obligation."""
        if len(pc) < 40:
            return pc
        want = set(self.consts(c))
        rest = [(x, self.consts(x)) for x in pc]
        take = set()
        while True:
            n = len(take)
            for i, (x, v) in enumerate(rest):
                if i not in take and not want.isdisjoint(v):
                    take.add(i)
                    want |= v
            if len(take) == n:
                break
        return [x for i, (x, v) in enumerate(rest) if i in take or not v]

    def assume(self, st, c):
        c = conc(c)
        if isinstance(c, int):
            if not c:
                st.pc.append(z3.BoolVal(False))
            return
        k = c.get_id()
        if k in st.pcset:
            return
        st.pcset.add(k)
        st.pc.append(c)
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)):
                    st.model = None
            except z3.Z3Exception:
                st.model = None

    def feasible(self, st, c=None):
        """Is pc & c satisfiable (unknown counts as feasible)?"""
        if c is not None:
            c = conc(c)
            if isinstance(c, int):
                return bool(c) and True
            if c.get_id() in st.pcset:
                return True
            if st.model is not None:
                try:
                    if z3.is_true(st.model.eval(c, model_completion=True)):
                        return True
                except z3.Z3Exception:
                    pass
        elif st.model is not None:
            return True
        r, m = self._check(st.pc + ([c] if c is not None else []), timeout=5000)
        if r == z3.sat and c is None:
            st.model = m
        return r != z3.unsat

    def branch(self, st, c):
        """Split st on c: returns (state or None for true, state or None for false)."""
        c = conc(c)
        if isinstance(c, int):
            return (st, None) if c else (None, st)
        if c.get_id() in st.pcset:
            return st, None
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in st.pcset:
            return None, st
        if st.model is None and len(st.pc) < 40:
            r, m = self._check(st.pc, timeout=5000)
            if r == z3.unsat:
                return None, None
            st.model = m
        ft = ff = None
        mt = mf = None
        if st.model is not None:
            try:
                v = st.model.eval(c, model_completion=True)
                if z3.is_true(v):
                    ft, mt = True, st.model
                elif z3.is_false(v):
                    ff, mf = True, st.model
            except z3.Z3Exception:
                pass
        if ft is None:
            r, m = self._check(self.relevant(st.pc, c) + [c], timeout=5000)
            ft = r != z3.unsat
            mt = m
        if ff is None:
            r, m = self._check(self.relevant(st.pc, nc) + [nc], timeout=5000)
            ff = r != z3.unsat
            mf = m
        a = b = None
        if ft and ff:
            a = st
            b = st.fork()
        elif ft:
            a = st
        elif ff:
            b = st
        if a is not None:
            a.model = mt
            if c.get_id() not in a.pcset:
                a.pcset.add(c.get_id())
                a.pc.append(c)
        if b is not None:
            b.model = mf
            if nc.get_id() not in b.pcset:
                b.pcset.add(nc.get_id())
                b.pc.append(nc)
        return a, b

    def prove(self, st, c, name, kind='post', definite=True, note=''):
        """Obligation: pc |= c."""
        c = conc(c)
        if kind in self.proved_elsewhere and not isinstance(c, int):
            # another unit proves these obligations for a superset of the inputs of this one
            self.assume(st, c)
            return True
        if isinstance(c, int) and c:
            if not self.dry:
                self.obls.append(Obl(name, kind, self.where, True, 0.0, 'simplifier'))
            return True
        if self.dry:
            if not isinstance(c, int):
                self.assume(st, c)
                return True
            return False
        t = time.time()
        nc = z3.BoolVal(True) if isinstance(c, int) else z3.Not(c)
        r, m = self._check(st.pc + [nc])
        dt = time.time() - t
        ok = r == z3.unsat
        backend = 'z3'
        if r == z3.unknown:
            ok2 = self.second_opinion(st.pc + [nc])
            if ok2:
                ok = True
                backend = 'cvc5'
        self.obls.append(Obl(name, kind, self.where, ok, dt, backend))
        if not ok:
            d = definite and r == z3.sat and not st.ghost.get('__cut')
            self.failures.append(Failure(name, kind, self.where, m, st.fork(), d,
                                         note + ('' if r == z3.sat else ' solver: unknown')))
        if not isinstance(c, int):
            self.assume(st, c)
        return ok

    def second_opinion(self, cs):
        try:
            import cvc5
        except ImportError:
            return False
        try:
            s = z3.Solver()
            for a in self.base_axioms:
                s.add(a)
            for c in cs:
                s.add(c)
            txt = s.to_smt2()
            import subprocess
            r = subprocess.run(['cvc5', '--tlimit=30000', '--lang=smt2', '-'], input='(set-logic ALL)\n' + txt,
                               capture_output=True, text=True, timeout=40)
            return r.stdout.strip().startswith('unsat')
        except Exception:
            return False

    def fail(self, st, name, kind, note='', definite=True):
        """A path that must not exist: report unless infeasible."""
        return self.prove(st, z3.BoolVal(False), name, kind, definite, note)

    # memory ------------------------------------------------------------
    def alloc(self, st, kind, size, data=None, name='', **kw):
        i = self.newid()
        if data is None:
            data = {} if kind == 'cells' else self.fresh_arr(name or 'mem') if kind == 'bytes' else None
        st.mem[i] = Obj(kind, size, data, name, **kw)
        return Ptr(i, 0)

    def obj(self, st, o):
        ob = st.mem.get(o)
        if ob is None and isinstance(o, str):
            ob = self.global_obj(st, o)
            st.mem[o] = ob
        if ob is None:
            raise Unsupported('dangling object %r' % (o,))
        return ob

    def global_obj(self, st, name):
        mod, gname = self.prog.global_of(name)
        if name in self.globals_override:
            return self.globals_override[name](self, st)
        if gname in self.globals_override:
            return self.globals_override[gname](self, st)
        if gname in ('stdin', 'stdout', 'stderr'):
            st.mem.setdefault('FILE:' + gname, Obj('opaque', None, None, gname))
            return Obj('cells', 8, {0: (8, Ptr('FILE:' + gname, 0))}, gname)
        if mod is None:
            return Obj('opaque', None, None, gname)
        g = mod.glob(gname)
        if g is None or g.init is None:
            return Obj('opaque', None, None, gname)
        size = mod.sizeof(g.ty)
        if g.init[0] == 'cstr':
            return Obj('const' if g.const else 'bytes', size, g.init[1] if g.const else self.arr_of_bytes(g.init[1]), gname, ro=g.const)
        if not g.const and self.prog.is_mutated(mod, gname):
            def lazy(eng, st, off, ty, gname=gname):
                if ty[0] == 'i':
                    return eng.fresh('g_' + gname, ty[1])
                raise Unsupported('mutable global pointer %s' % gname)
            return Obj('cells', size, {}, gname, lazy=lazy)
        data = {}
        self.init_cells(mod, g.ty, g.init, 0, data, st)
        if not g.const:
            fs = self.prog.dyninit(mod, gname)
            if fs:
                key = self.prog.globkey(mod, gname)
                if key not in self.dyncache:
                    s = State()
                    s.mem[key] = Obj('cells', size, data, gname)
                    for f in fs:
                        r = self.exec_fn(self.prog.function(self.prog.fnkey(mod, f)), s, [])
                        if len(r) != 1 or r[0][1] != 'ret':
                            raise Unsupported('dynamic initialisation of %s' % gname)
                        s = r[0][0]
                    self.dyncache[key] = s.mem[key].data
                data = self.dyncache[key]
        return Obj('cells', size, data, gname, ro=g.const)

    def arr_of_bytes(self, b):
        a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        for i, c in enumerate(b):
            if c:
                a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(c, 8))
        return a

    def init_cells(self, mod, t, v, off, data, st):
        t = mod.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef':
            if t[0] == 'i':
                data[off] = (mod.sizeof(t), 0)
            elif t[0] == 'ptr':
                data[off] = (8, NULL)
            elif t[0] == 'fp':
                data[off] = (8, FP('0'))
            elif t[0] == 'arr':
                s = mod.sizeof(t[2])
                for i in range(min(t[1], 4096)):
                    self.init_cells(mod, t[2], v, off + i * s, data, st)
            elif t[0] == 'st':
                for i in range(len(t[1])):
                    fo, ft = mod.field_off(t, i)
                    self.init_cells(mod, ft, v, off + fo, data, st)
            return
        if v[0] == 'cstr':
            for i, c in enumerate(v[1]):
                data[off + i] = (1, c)
            return
        if v[0] == 'agg':
            if t[0] == 'arr':
                s = mod.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(mod, et, ev, off + i * s, data, st)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    fo, ft = mod.field_off(t, i)
                    self.init_cells(mod, et, ev, off + fo, data, st)
            return
        val = self.constval(mod, t, v)
        data[off] = (mod.sizeof(t), val)

    def constval(self, mod, t, v):
        k = v[0]
        if k == 'int':
            w = t[1]
            return v[1] & ((1 << w) - 1)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            rt = mod.resolve(t)
            if rt[0] == 'i':
                return 0
            if rt[0] == 'ptr':
                return NULL
            if rt[0] == 'st':
                return tuple(self.constval(mod, x, v) for x in rt[1])
            return FP('0')
        if k == 'glob':
            return self.globptr(mod, v[1])
        if k == 'cgep':
            base = self.constval(mod, PTR, v[2])
            return self.gep(mod, v[1], base, [(it, self.constval(mod, it, iv)) for it, iv in v[3]])
        if k == 'ccast':
            x = self.constval(mod, v[2], v[3])
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] in ('bitcast', 'addrspacecast'):
                return x
            if v[1] == 'inttoptr':
                if isinstance(x, PInt):
                    return x.p
                return Ptr(0, x)
            raise Unsupported('const cast ' + v[1])
        if k == 'fpc':
            return FP(v[1])
        if k == 'agg':
            return tuple(self.constval(mod, et, ev) for et, ev in v[1])
        if k == 'cbin':
            a = self.constval(mod, v[2], v[3])
            b = self.constval(mod, v[2], v[4])
            return self.binop(None, v[1], v[2][1], a, b)
        if k == 'meta':
            return None
        raise Unsupported('const %r' % (v,))

    def globptr(self, mod, name):
        if self.prog.is_function(mod, name):
            return FPtr(self.prog.fnkey(mod, name))
        return Ptr(self.prog.globkey(mod, name), 0)

    def gep(self, mod, ty, base, idx):
        if isinstance(base, Undef):
            raise Unsupported('gep of undef')
        if isinstance(base, FPtr):
            return base
        off = base.off
        first = True
        t = ty
        for it, iv in idx:
            if first:
                s = mod.sizeof(t)
                off = self.addoff(off, iv, s, it)
                first = False
                continue
            rt = mod.resolve(t)
            if rt[0] == 'st':
                fo, t = mod.field_off(rt, iv)
                off = self.addoff(off, fo, 1, ('i', 64))
            else:
                t = rt[2]
                off = self.addoff(off, iv, mod.sizeof(t), it)
        return Ptr(base.o, off)

    def addoff(self, off, iv, scale, it):
        if isinstance(iv, Undef):
            raise Unsupported('gep index undef')
        w = it[1]
        if isinstance(iv, int):
            if iv >= 1 << (w - 1):
                iv -= 1 << w
            if iv == 0:
                return off
            d = iv * scale
            if isinstance(off, int):
                return (off + d) & M64
            return conc(off + z3.BitVecVal(d & M64, 64))
        if w < 64:
            iv = z3.SignExt(64 - w, iv)
        if scale != 1:
            iv = iv * z3.BitVecVal(scale, 64)
        return conc(bv(off) + iv)

    def check_access(self, st, p, n, what):
        """Bounds/null obligation; returns (obj or None)."""
        if isinstance(p, Undef):
            self.fail(st, 'use of undefined pointer', 'memory')
            return None
        if isinstance(p, FPtr):
            raise Unsupported('data access through function pointer')
        if p.o == 0:
            self.fail(st, 'null pointer %s' % what, 'memory')
            return None
        ob = self.obj(st, p.o)
        if not ob.live:
            self.fail(st, '%s of freed object %s' % (what, ob.name), 'memory')
            return None
        size = ob.size
        if size is None:
            return ob
        off = p.off
        if isinstance(off, int) and isinstance(size, int):
            if off + n > size or off > M64 - n:
                self.fail(st, 'out of bounds %s of %s' % (what, ob.name), 'memory')
                return None
            return ob
        o = bv(off)
        s = bv(size)
        c = z3.And(z3.ULE(o, s), z3.ULE(z3.BitVecVal(n, 64), s - o))
        self.prove(st, c, '%s of %s in bounds' % (what, ob.name), 'memory')
        if not self.feasible(st):
            return None
        return ob

    def read_arr(self, st, arr, o):
        """arr[o] with instantiation of the read axioms of every array version below."""
        o = bv(o)
        work = [(arr, o)]
        done = set()
        while work:
            a, i = work.pop()
            k = (a.get_id(), i.get_id())
            if k in done:
                continue
            done.add(k)
            rk = ('reads', a.get_id())
            rd = st.rax.get(rk)
            if rd is None:
                st.rax[rk] = (a, (i,))
            elif len(rd[1]) < 48 and not any(x.eq(i) for x in rd[1]):
                st.rax[rk] = (a, rd[1] + (i,))
            ax = st.rax.get(a.get_id())
            if ax:
                for f in ax[1]:
                    self.assume(st, f(st, i))
            ch = st.rax.get(('chain', a.get_id()))
            if ch:
                for src, mp in ch[1]:
                    work.append((src, z3.simplify(mp(i))))
            if z3.is_app_of(a, z3.Z3_OP_STORE):
                work.append((a.arg(0), i))
        return conc(z3.Select(arr, o))

    def add_rax(self, st, arr, f):
        k = arr.get_id()
        old = st.rax.get(k)
        st.rax[k] = (arr, (old[1] if old else ()) + (f,))
        rd = st.rax.get(('reads', k))
        if rd:
            for i in rd[1]:
                self.assume(st, f(st, i))

    def to_bytes(self, st, o):
        ob = self.obj(st, o)
        if ob.kind == 'bytes':
            return ob
        if ob.kind == 'const':
            arr = self.arr_of_bytes(ob.data)
            n = ob.copy(kind='bytes', data=arr)
            st.mem[o] = n
            return n
        if ob.kind == 'cells':
            arr = self.fresh_arr(ob.name or 'cells')
            for off, (sz, v) in sorted(ob.data.items()):
                if isinstance(v, (Ptr, FPtr, PInt, FP, tuple)):
                    raise Unsupported('byte view of pointer cell in %s' % ob.name)
                if isinstance(v, Undef):
                    continue
                if isinstance(v, z3.BoolRef):
                    v = tobv1(v, 8)
                for i in range(sz):
                    b = (v >> (8 * i)) & 0xff if isinstance(v, int) else z3.Extract(8 * i + 7, 8 * i, v)
                    arr = z3.Store(arr, z3.BitVecVal(off + i, 64), bv(b, 8))
            n = ob.copy(kind='bytes', data=arr)
            st.mem[o] = n
            return n
        if ob.kind == 'str':
            from strs import str_to_array
            arr, ln = str_to_array(self, st, ob.data)
            n = ob.copy(kind='bytes', data=arr, size=conc(ln + 1) if not isinstance(ln, int) else ln + 1)
            st.mem[o] = n
            return n
        raise Unsupported('byte view of %s object %s' % (ob.kind, ob.name))

    def load(self, st, p, ty, mod):
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        n = mod.sizeof(rt)
        if rt[0] in ('st', 'arr'):
            out = []
            if rt[0] == 'st':
                for i in range(len(rt[1])):
                    fo, ft = mod.field_off(rt, i)
                    out.append(self.load(st, Ptr(p.o, self.addoff(p.off, fo, 1, ('i', 64))), ft, mod))
            else:
                s = mod.sizeof(rt[2])
                for i in range(rt[1]):
                    out.append(self.load(st, Ptr(p.o, self.addoff(p.off, i * s, 1, ('i', 64))), rt[2], mod))
            return tuple(out)
        ob = self.check_access(st, p, n, 'read')
        if ob is None:
            return None
        k = ob.kind
        if k == 'const':
            if isinstance(p.off, int):
                return int.from_bytes(ob.data[p.off:p.off + n], 'little')
            if n == 1 and len(ob.data) <= 512:
                r = z3.BitVecVal(0, 8)
                for i in range(len(ob.data) - 1, -1, -1):
                    r = z3.If(p.off == i, z3.BitVecVal(ob.data[i], 8), r)
                return r
            ob = self.to_bytes(st, p.o)
            k = 'bytes'
        if k == 'cells':
            if not isinstance(p.off, int):
                if ob.meta and 'symload' in ob.meta:
                    return ob.meta['symload'](self, st, p, rt)
                c = self.concretize(st, p.off)
                if c is not None:
                    p = Ptr(p.o, c)
                elif rt[0] == 'ptr' or any(isinstance(v[1], (Ptr, FPtr)) for v in ob.data.values()):
                    return self.load_symcells(st, ob, p, rt, n)
            if isinstance(p.off, int):
                return self.load_cell(st, p.o, ob, p.off, n, rt)
            ob = self.to_bytes(st, p.o)
            k = 'bytes'
        if k == 'str':
            if n == 1:
                from strs import str_char, str_len
                ln = str_len(self, st, ob.data)
                if isinstance(ln, int) and isinstance(p.off, int):
                    if p.off > ln:
                        self.fail(st, 'read past the end of string %s' % ob.name, 'memory')
                        return None
                elif not (isinstance(p.off, int) and p.off == 0):
                    self.prove(st, z3.ULE(bv(p.off), bv(ln)), 'read within string %s' % ob.name, 'memory')
                    if not self.feasible(st):
                        return None
                return str_char(self, st, ob.data, p.off)
            raise Unsupported('wide read of abstract string')
        if k == 'bytes':
            if rt[0] == 'ptr':
                raise Unsupported('pointer load from byte object %s' % ob.name)
            bs = [self.read_arr(st, ob.data, bv(p.off) + i if i else p.off) for i in range(n)]
            if n == 1:
                r = bs[0]
            else:
                r = conc(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
            if rt[0] == 'i' and rt[1] == 1:
                return conc(bv(r, 8) != 0)
            return r
        if k == 'fam' or k == 'lazy':
            return ob.lazy(self, st, p, rt)
        if k == 'opaque':
            if ob.lazy:
                return ob.lazy(self, st, p, rt)
            raise Unsupported('read of opaque object %s' % ob.name)
        raise Unsupported('read of kind ' + k)

    def concretize(self, st, off):
        off = conc(off)
        if isinstance(off, int):
            return off
        if st.model is None:
            if not self.feasible(st):
                return None
        if st.model is None:
            return None
        v = st.model.eval(off, model_completion=True)
        r, m = self._check(st.pc + [off != v], timeout=3000)
        if r == z3.unsat:
            return v.as_long()
        return None

    def load_symcells(self, st, ob, p, rt, n):
        """Table look-up at a symbolic offset: one path per distinct entry."""
        from loops import same
        groups = []
        for off, (sz, v) in sorted(ob.data.items()):
            if sz != n:
                raise Unsupported('symbolic offset into %s' % ob.name)
            for g in groups:
                if same(g[0], v):
                    g[1].append(off)
                    break
            else:
                groups.append((v, [off]))
        if len(groups) > 40:
            raise Unsupported('symbolic offset into %s' % ob.name)
        groups.sort(key=lambda g: len(g[1]))
        items = []
        rest = st
        o = bv(p.off)
        for v, offs in groups:
            if rest is None:
                break
            a, rest = self.branch(rest, z3.Or([o == k for k in offs]))
            if a is not None:
                items.append((a, self.retype(a, v, rt)))
        if rest is not None:
            self.fail(rest, 'read of %s at an aligned entry' % ob.name, 'memory')
        return Split(items)

    def load_cell(self, st, o, ob, off, n, rt):
        c = ob.data.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return self.retype(st, v, rt)
        if c is None:
            # overlap?
            ov = [(a, s, v) for a, (s, v) in ob.data.items() if a < off + n and off < a + s]
            if not ov:
                v = self.lazy_value(st, o, ob, off, n, rt)
                d = dict(ob.data)
                d[off] = (n, v)
                nob = st.mem[o].copy(data=d) if o in st.mem else ob.copy(data=d)
                st.mem[o] = nob
                return v
        # byte-wise
        bs = []
        for i in range(n):
            bs.append(self.cell_byte(st, ob, off + i))
        if all(isinstance(b, int) for b in bs):
            r = int.from_bytes(bytes(bs), 'little')
        else:
            if any(isinstance(b, Undef) for b in bs):
                return self.fresh('undef', n * 8)
            r = conc(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
        if rt[0] == 'ptr':
            if r == 0:
                return NULL
            raise Unsupported('pointer from bytes')
        return self.retype(st, r, rt)

    def lazy_value(self, st, o, ob, off, n, rt):
        """First read of a cell: the same value in every state that reaches it (memoised)."""
        key = (o, off, n, id(ob.lazy) if ob.lazy is not None else None)
        c = self.lazy_cache.get(key)
        if c is not None:
            v, objs, pcs, rax, keep = c
            for k, x in objs.items():
                st.mem.setdefault(k, x)
            for k, x in rax.items():
                st.rax.setdefault(k, x)
            for x in pcs:
                self.assume(st, x)
            return v
        m0 = set(st.mem)
        r0 = set(st.rax)
        n0 = len(st.pc)
        if ob.lazy is not None:
            v = ob.lazy(self, st, off, rt)
        else:
            v = self.undef_val(ob, off, rt)
        if isinstance(v, Split):
            raise Unsupported('split lazy value')
        self.lazy_cache[key] = (v, {k: st.mem[k] for k in st.mem if k not in m0}, list(st.pc[n0:]),
                                {k: st.rax[k] for k in st.rax if k not in r0}, ob.lazy)
        return v

    def lazy_lookup(self, o, off, n, ob):
        c = self.lazy_cache.get((o, off, n, id(ob.lazy) if ob.lazy is not None else None))
        return c[0] if c else None

    def undef_val(self, ob, off, rt):
        if rt[0] == 'i':
            return self.fresh('uninit_%s' % ob.name, rt[1])
        if rt[0] == 'fp':
            return FP('undef')
        return UNDEF

    def cell_byte(self, st, ob, a):
        for b, (s, v) in ob.data.items():
            if b <= a < b + s:
                if isinstance(v, Undef):
                    return UNDEF
                if isinstance(v, z3.BoolRef):
                    v = tobv1(v, 8)
                if isinstance(v, int):
                    return (v >> (8 * (a - b))) & 0xff
                if isinstance(v, z3.BitVecRef):
                    return conc(z3.Extract(8 * (a - b) + 7, 8 * (a - b), v))
                if isinstance(v, Ptr) and v.o == 0 and v.off == 0:
                    return 0
                raise Unsupported('byte of pointer')
        if ob.lazy is not None:
            raise Unsupported('partial lazy cell')
        return UNDEF

    def retype(self, st, v, rt):
        if rt[0] == 'i':
            if rt[1] == 1 and isinstance(v, z3.BitVecRef):
                return conc(v != 0)
            if isinstance(v, z3.BoolRef) and rt[1] != 1:
                return tobv1(v, rt[1])
            if isinstance(v, Ptr):
                if v.o == 0 and v.off == 0:
                    return 0
                return PInt(v)
        if rt[0] == 'ptr':
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, PInt):
                return v.p
        return v

    def store(self, st, p, v, ty, mod):
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        n = mod.sizeof(rt)
        if isinstance(v, tuple):
            if rt[0] == 'st':
                for i in range(len(rt[1])):
                    fo, ft = mod.field_off(rt, i)
                    if not self.store(st, Ptr(p.o, self.addoff(p.off, fo, 1, ('i', 64))), v[i], ft, mod):
                        return False
                return True
            raise Unsupported('aggregate store')
        ob = self.check_access(st, p, n, 'write')
        if ob is None:
            return False
        if ob.ro:
            self.fail(st, 'write to constant %s' % ob.name, 'memory')
            return False
        k = ob.kind
        off = p.off
        if k == 'cells':
            if not isinstance(off, int):
                if ob.meta and 'symstore' in ob.meta:
                    return ob.meta['symstore'](self, st, p, rt, v)
                c = self.concretize(st, off)
                if c is not None:
                    off = c
            if isinstance(off, int):
                d = dict(ob.data)
                c = d.get(off)
                if c is None or c[0] != n:
                    ov = [(a, s) for a, (s, _) in d.items() if a < off + n and off < a + s]
                    for a, s in ov:
                        if a >= off and a + s <= off + n:
                            del d[a]
                        else:
                            bsv = [(a + i, self.cell_byte(st, ob, a + i)) for i in range(s)]
                            del d[a]
                            for x, b in bsv:
                                if not (off <= x < off + n):
                                    d[x] = (1, b)
                d[off] = (n, v)
                st.mem[p.o] = ob.copy(data=d)
                return True
            if isinstance(v, (Ptr, FPtr)):
                raise Unsupported('pointer store at symbolic offset of %s' % ob.name)
            ob = self.to_bytes(st, p.o)
            k = 'bytes'
        if k in ('str', 'const'):
            ob = self.to_bytes(st, p.o)
            k = 'bytes'
        if k == 'bytes':
            if isinstance(v, (Ptr, FPtr)):
                raise Unsupported('pointer store in bytes')
            if isinstance(v, Undef):
                v = self.fresh('undef', n * 8)
            if isinstance(v, z3.BoolRef):
                v = tobv1(v, 8)
            arr = ob.data
            for i in range(n):
                b = (v >> (8 * i)) & 0xff if isinstance(v, int) else (v if n == 1 else z3.Extract(8 * i + 7, 8 * i, v))
                arr = z3.Store(arr, bv(self.addoff(off, i, 1, ('i', 64))), bv(b, 8))
            st.mem[p.o] = ob.copy(data=arr)
            return True
        if k in ('opaque', 'fam', 'lazy'):
            if ob.meta and 'store' in ob.meta:
                return ob.meta['store'](self, st, p, rt, v)
            raise Unsupported('write to %s object %s' % (k, ob.name))
        raise Unsupported('write kind ' + k)

    # arithmetic --------------------------------------------------------
    def binop(self, st, op, w, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh('undef', w)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.ptr_arith(st, op, a, b)
        if isinstance(a, FP) or isinstance(b, FP):
            return FP('op')
        if w == 1:
            if op in ('and', 'or', 'xor'):
                A, B = tobool(a), tobool(b)
                return conc({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](A, B))
            raise Unsupported('i1 ' + op)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sa >> min(b, w - 1)) & m
            if b == 0 and op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.fail(st, 'division by zero', 'memory')
                return 0
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & m
            if op == 'srem':
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & m
        A, B = bv(a, w), bv(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem') and st is not None:
            self.prove(st, B != 0, 'division by zero', 'memory')
        f = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B,
             'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B),
             'ashr': lambda: A >> B, 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
             'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]
        return conc(f())

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.o == b.p.o:
                return conc(bv(a.p.off) - bv(b.p.off))
            if a.p.o == 0 or b.p.o == 0:
                return self.fresh('ptrdiff', 64)   # computed but not meaningful: any value
            raise Unsupported('difference of unrelated pointers')
        if op == 'sub' and isinstance(b, PInt) and conc(a) == 0:
            return self.fresh('ptrdiff', 64)
        if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
            return PInt(Ptr(a.p.o, self.addoff(a.p.off, b if op == 'add' else self.binop(st, 'sub', 64, 0, b), 1, ('i', 64))))
        if op == 'add' and isinstance(b, PInt):
            return self.ptr_arith(st, op, b, a)
        raise Unsupported('pointer arithmetic ' + op)

    def icmp(self, st, pred, ty, a, b, mod):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh('undefcmp', 1)
        if isinstance(a, PInt) and isinstance(b, int) and b == 0:
            a, b = a.p, NULL
        if isinstance(a, PInt) and isinstance(b, PInt):
            a, b = a.p, b.p
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, FPtr) or isinstance(b, FPtr):
                eq = isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name
                if pred == 'eq':
                    return int(eq)
                if pred == 'ne':
                    return int(not eq)
                raise Unsupported('function pointer order')
            if a.o == b.o:
                if a.o == 0 and not (isinstance(a.off, int) and isinstance(b.off, int)):
                    pass
                w = 64
                a, b = a.off, b.off
                if pred in ('slt', 'sle', 'sgt', 'sge'):
                    pred = 'u' + pred[1:]
                return self.icmp_int(pred, w, a, b)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            # order of unrelated pointers: NULL is lowest
            if a.o == 0:
                return {'ult': 1, 'ule': 1, 'ugt': 0, 'uge': 0}[pred]
            if b.o == 0:
                return {'ult': 0, 'ule': 0, 'ugt': 1, 'uge': 1}[pred]
            return self.fresh('ptrorder', 1)
        if isinstance(a, FP) or isinstance(b, FP):
            return self.fresh('fpcmp', 1)
        w = ty[1] if ty[0] == 'i' else 64
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.fresh('ptrcmp', 1)
        return self.icmp_int(pred, w, a, b)

    def icmp_int(self, pred, w, a, b):
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                return conc(A == B)
            if pred == 'ne':
                return conc(A != B)
            a = conc(tobv1(conc(A), 8))
            b = conc(tobv1(conc(B), 8))
            w = 8
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])
        A, B = bv(a, w), bv(b, w)
        c = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return conc(c)

    def cast(self, st, op, ft, v, tt, mod):
        if isinstance(v, Undef):
            if tt[0] == 'i':
                return self.fresh('undef', tt[1])
            return UNDEF
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0:
                return v.off
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            return Ptr(0, v)
        if op in ('bitcast', 'addrspacecast'):
            if tt[0] == 'ptr':
                return v
            if isinstance(v, FP) or tt[0] == 'fp':
                return FP('cast') if tt[0] == 'fp' else self.fresh('fpbits', tt[1])
            return v
        if op in ('fptoui', 'fptosi'):
            return self.fresh('fptoi', tt[1])
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return FP((op, v))
        if isinstance(v, PInt):
            if op == 'trunc':
                return self.fresh('ptrbits', tt[1])
            return v
        fw, tw = ft[1], tt[1]
        if op == 'zext':
            if isinstance(v, int):
                return v
            if fw == 1:
                return conc(tobv1(v, tw))
            return conc(z3.ZeroExt(tw - fw, v))
        if op == 'sext':
            if isinstance(v, int):
                if v >> (fw - 1):
                    return (v - (1 << fw)) & ((1 << tw) - 1)
                return v
            if fw == 1:
                return conc(z3.If(v, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw)))
            return conc(z3.SignExt(tw - fw, v))
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << tw) - 1)
            if tw == 1:
                return conc(z3.Extract(0, 0, v) == 1)
            return conc(z3.Extract(tw - 1, 0, v))
        raise Unsupported('cast ' + op)

    # values ------------------------------------------------------------
    def val(self, mod, regs, ty, v):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            w = ty[1]
            return v[1] & ((1 << w) - 1)
        if k == 'null':
            return NULL
        return self.constval(mod, ty, v)

    # functions ---------------------------------------------------------
    def call(self, st, key, args, ins=None):
        """Call by resolved function key; returns [(state, kind, value)]."""
        c = self.find_contract(key)
        if c is not None:
            self.used_contracts[key] = self.used_contracts.get(key, 0) + 1
            r = c(self, st, args, ins)
            return norm_outcomes(st, r)
        f = self.prog.function(key)
        if f is None:
            raise Unsupported('no contract for external %s' % self.prog.pretty(key))
        self.inlined.add(key)
        return self.exec_fn(f, st, args)

    def find_contract(self, key):
        c = self.contracts.get(key)
        if c is not None:
            return c
        for k in self.prog.aliases(key):
            c = self.contracts.get(k)
            if c is not None:
                return c
        return None

    def exec_fn(self, fn, st, args):
        fn.parse()
        if len(self.callstack) > self.maxdepth:
            raise Unsupported('recursion depth in %s' % fn.name)
        regs = {}
        for (t, nm, at), a in zip(fn.params, args):
            regs[nm] = a
        if fn.variadic:
            regs['__varargs'] = list(args[len(fn.params):])
        save = self.where
        self.callstack.append(fn.name)
        self.where = '/'.join(self.callstack[-3:])
        try:
            out = self.run_region(fn, [(st, regs, fn.entry, None, 0)], None, None)
        finally:
            self.callstack.pop()
            self.where = save
        res = []
        for o in out:
            if o[0] == 'ret':
                res.append((o[1], 'ret', o[2]))
            elif o[0] == 'throw':
                res.append((o[1], 'throw', o[2]))
            elif o[0] == 'halt':
                res.append((o[1], 'halt', o[2]))
            else:
                raise Unsupported('region outcome ' + o[0])
        if self.ghost_normalize is not None:
            for o in res:
                self.ghost_normalize(self, o[0])
        if self.merge_returns and len(res) > 1:
            res = self.merge(st, res)
        return res

    def merge(self, st0, res):
        """Join outcomes that differ only in what they know: same ghost state, same caller-visible memory, same shape of
        result.  The joined state keeps the facts common to all (a weaker state, so this is sound)."""
        from loops import same
        vis = set(st0.mem)

        def shape(v):
            if isinstance(v, Ptr):
                if v.o == 0 or v.o in vis:
                    return ('p', v.o, v.off if isinstance(v.off, int) else v.off.get_id())
                return None
            if isinstance(v, z3.ExprRef):
                return ('e', v.get_id())
            if isinstance(v, Undef):
                return ('u',)
            return ('v', repr(v))
        groups = {}
        out = []
        for s, kind, v in res:
            sh = shape(v)
            if kind == 'halt':
                continue
            if sh is None:
                sh = ('new', s.mem[v.o].kind, repr(s.mem[v.o].data) if s.mem[v.o].kind == 'str' else 0) if v.o in s.mem else ('new',)
            gk = tuple(sorted((k, x.get_id() if isinstance(x, z3.ExprRef) else repr(x)) for k, x in s.ghost.items()))
            for g in groups.setdefault((kind, sh, gk), []):
                if self.joinable(g[0], s, vis, same):
                    g[1].append(s)
                    break
            else:
                g = [s, [s], v, kind]
                groups[(kind, sh, gk)].append(g)
                out.append(g)
        fin = []
        for s, ss, v, kind in out:
            if len(ss) > 1:
                n = s.fork()
                common = set(x.get_id() for x in ss[0].pc)
                for t in ss[1:]:
                    common &= set(x.get_id() for x in t.pc)
                n.pc = [x for x in s.pc if x.get_id() in common]
                if self.merge_returns == 'exact':
                    n.pc.append(z3.simplify(z3.Or([z3.And([x for x in t.pc if x.get_id() not in common]) for t in ss])))
                n.pcset = set(x.get_id() for x in n.pc)
                n.model = None
                eo = s.mem.get('errno')
                if eo is not None and any(t.mem.get('errno') is not eo for t in ss):
                    n.mem['errno'] = eo.copy(data={0: (4, self.fresh('errno', 32))})
                s = n
                self.nmerged = getattr(self, 'nmerged', 0) + len(ss) - 1
            fin.append((s, kind, v))
        return fin + [r for r in res if r[1] == 'halt']

    def joinable(self, a, b, vis, same):
        for o in vis:
            x, y = a.mem.get(o), b.mem.get(o)
            if x is y or o == 'errno':
                continue
            if x is None or y is None or x.live != y.live or x.kind != y.kind:
                return False
            if not x.live:
                continue
            if x.kind == 'cells':
                if set(x.data) != set(y.data):
                    return False
                for k, (n, v) in x.data.items():
                    m, w = y.data[k]
                    if n != m or not same(v, w):
                        return False
            elif x.kind == 'str':
                if repr(x.data) != repr(y.data):
                    return False
            elif x.data is not y.data and not (isinstance(x.data, z3.ExprRef) and isinstance(y.data, z3.ExprRef) and x.data.eq(y.data)):
                return False
            if not same(x.size, y.size):
                return False
        return True

    def do_phis(self, fn, regs, b, prev, mod):
        upd = {}
        for ins in fn.blocks[b]:
            if ins.op != 'phi':
                break
            for v, l in ins.a:
                if l == prev:
                    upd[ins.res] = self.val(mod, regs, ins.ty, v)
                    break
            else:
                raise Unsupported('phi without incoming %s' % prev)
        regs.update(upd)

    def run_region(self, fn, items, region, header, at_header=False):
        """Execute from the given items until leaving region / reaching header again."""
        mod = fn.mod
        out = []
        work = list(items)
        pending = {}

        def jump(st, regs, tgt, prev):
            if header is not None and tgt == header:
                out.append(('back', st, regs, prev))
            elif region is not None and tgt not in region:
                out.append(('exit', st, regs, tgt, prev))
            elif tgt in fn.loops:
                if self.join_loops:
                    pending.setdefault(tgt, []).append((st, regs, prev))
                else:
                    enter(st, regs, tgt, prev)
            else:
                regs = dict(regs)
                self.do_phis(fn, regs, tgt, prev, mod)
                if self.join_loops == 'all' and len(fn.pred[tgt]) > 1:
                    pending.setdefault(tgt, []).append((st, regs, None))
                else:
                    work.append((st, regs, tgt, prev, 0))

        def enter(st, regs, tgt, prev):
            for r in self.enter_loop(fn, st, regs, tgt, prev):
                if r[0] == 'exit':
                    jump(r[1], r[2], r[3], r[4])
                else:
                    out.append(r)

        while work or pending:
            if not work:
                from join import join
                h = min(pending, key=fn.rpo.index)
                at_loop = h in fn.loops
                for s2, r2, p2 in join(self, fn, h, pending.pop(h), at_loop):
                    if at_loop:
                        enter(s2, r2, h, p2)
                    else:
                        work.append((s2, r2, h, p2, 0))
                continue
            st, regs, b, prev, i = work.pop()
            blk = fn.blocks[b]
            n = len(blk)
            while i < n:
                ins = blk[i]
                i += 1
                op = ins.op
                self.steps += 1
                if self.steps & 1023 == 0:
                    if self.steps > self.step_budget:
                        raise Budget('steps')
                    if self.deadline and time.time() > self.deadline:
                        raise Budget('time')
                if op == 'phi':
                    continue
                if op == 'call' or op == 'invoke':
                    self.cur_ins = ins
                    outs = self.do_call(fn, st, regs, ins)
                    nxt = []
                    for s2, kind, v in outs:
                        if kind == 'ret':
                            r2 = regs if len(outs) == 1 else dict(regs)
                            if ins.res is not None:
                                r2[ins.res] = v
                            nxt.append((s2, r2))
                        elif kind == 'throw':
                            if op == 'invoke':
                                r2 = dict(regs)
                                r2['__exc'] = v
                                jump(s2, r2, ins.a[3], b)
                            else:
                                out.append(('throw', s2, v))
                        elif kind == 'halt':
                            out.append(('halt', s2, v))
                    if op == 'invoke':
                        for s2, r2 in nxt:
                            jump(s2, r2, ins.a[2], b)
                        break
                    if not nxt:
                        break
                    for s2, r2 in nxt[1:]:
                        work.append((s2, r2, b, prev, i))
                    st, regs = nxt[0]
                    continue
                if op == 'br':
                    jump(st, regs, ins.a[0], b)
                    break
                if op == 'cbr':
                    c = self.val(mod, regs, ('i', 1), ins.a[0])
                    if isinstance(c, Undef):
                        c = self.fresh('undefbr', 1)
                    if isinstance(c, z3.BitVecRef):
                        c = c != 0
                    c = conc(c)
                    if isinstance(c, int):
                        if region is not None and (ins.a[1] not in region or ins.a[2] not in region):
                            regs = dict(regs)
                            regs['__cx'] = True
                        jump(st, regs, ins.a[1] if c else ins.a[2], b)
                        break
                    a, z = self.branch(st, c)
                    if a is not None and z is not None:
                        a.nsym += 1
                        z.nsym += 1
                    if a is not None:
                        jump(a, dict(regs), ins.a[1], b)
                    if z is not None:
                        jump(z, dict(regs), ins.a[2], b)
                    break
                if op == 'switch':
                    self.do_switch(fn, st, regs, ins, jump, b, mod)
                    break
                if op == 'ret':
                    v = None
                    if ins.a is not None:
                        v = self.val(mod, regs, ins.ty, ins.a)
                    out.append(('ret', st, v))
                    break
                if op == 'unreachable':
                    self.fail(st, 'unreachable instruction reached', 'memory')
                    break
                if op == 'resume':
                    v = self.val(mod, regs, ins.ty, ins.a)
                    out.append(('throw', st, regs['__exc'] if '__exc' in regs else v))
                    break
                if op == 'landingpad':
                    regs = dict(regs)
                    exc = regs['__exc']
                    m, sel = self.match_clauses(fn, exc, ins.a)
                    if not m:
                        out.append(('throw', st, exc))
                        break
                    regs[ins.res] = (exc, sel)
                    continue
                if op == 'select':
                    c = self.val(mod, regs, ('i', 1), ins.a[0])
                    a = self.val(mod, regs, ins.ty, ins.a[1])
                    z = self.val(mod, regs, ins.ty, ins.a[2])
                    if isinstance(c, Undef):
                        c = self.fresh('undefsel', 1)
                    c = conc(c)
                    if isinstance(c, int):
                        regs[ins.res] = a if c else z
                        continue
                    if ins.ty[0] == 'i' and not isinstance(a, (PInt, Undef)) and not isinstance(z, (PInt, Undef)):
                        w = ins.ty[1]
                        if w == 1:
                            regs[ins.res] = conc(z3.If(c, tobool(a), tobool(z)))
                        else:
                            regs[ins.res] = conc(z3.If(c, bv(a, w), bv(z, w)))
                        continue
                    if isinstance(a, Ptr) and isinstance(z, Ptr) and a.o == z.o:
                        regs[ins.res] = Ptr(a.o, conc(z3.If(c, bv(a.off), bv(z.off))))
                        continue
                    sa, sz = self.branch(st, c)
                    if sa is not None and sz is not None:
                        r2 = dict(regs)
                        r2[ins.res] = z
                        work.append((sz, r2, b, prev, i))
                        regs[ins.res] = a
                        st = sa
                    elif sa is not None:
                        regs[ins.res] = a
                        st = sa
                    elif sz is not None:
                        regs[ins.res] = z
                        st = sz
                    else:
                        break
                    continue
                if op == 'load':
                    p = self.val(mod, regs, PTR, ins.a)
                    self.cur_ins = ins
                    if ins.vol and self.volatile_load is not None:
                        v = self.volatile_load(self, st, p, ins.ty)
                    else:
                        v = self.load(st, p, ins.ty, mod)
                    if v is None:
                        break
                    if isinstance(v, Split):
                        nx = v.items
                        if not nx:
                            break
                        for s2, vv in nx[1:]:
                            r2 = dict(regs)
                            r2[ins.res] = vv
                            work.append((s2, r2, b, prev, i))
                        regs = dict(regs)
                        st, regs[ins.res] = nx[0]
                        continue
                    regs[ins.res] = v
                    continue
                if op == 'store':
                    v = self.val(mod, regs, ins.ty, ins.a[0])
                    p = self.val(mod, regs, PTR, ins.a[1])
                    self.cur_ins = ins
                    if not self.store(st, p, v, ins.ty, mod):
                        break
                    continue
                if op == 'gep':
                    base = self.val(mod, regs, PTR, ins.a[0])
                    idx = [(it, self.val(mod, regs, it, iv)) for it, iv in ins.a[1]]
                    regs[ins.res] = self.gep(mod, ins.ty, base, idx)
                    continue
                if op == 'icmp':
                    pred, a, z = ins.a
                    regs[ins.res] = self.icmp(st, pred, ins.ty, self.val(mod, regs, ins.ty, a),
                                              self.val(mod, regs, ins.ty, z), mod)
                    continue
                if op == 'fcmp':
                    regs[ins.res] = self.fresh('fcmp', 1)
                    continue
                if op == 'bin':
                    o2, a, z, fl = ins.a
                    if ins.ty[0] == 'fp':
                        regs[ins.res] = FP('op')
                        continue
                    regs[ins.res] = self.binop(st, o2, ins.ty[1], self.val(mod, regs, ins.ty, a),
                                               self.val(mod, regs, ins.ty, z))
                    continue
                if op == 'cast':
                    o2, ft, a = ins.a
                    regs[ins.res] = self.cast(st, o2, ft, self.val(mod, regs, ft, a), ins.ty, mod)
                    continue
                if op == 'alloca':
                    size = mod.sizeof(ins.ty)
                    if ins.a is not None:
                        cnt = self.val(mod, regs, ins.a[0], ins.a[1])
                        if isinstance(cnt, int):
                            size *= cnt
                        else:
                            w = ins.a[0][1]
                            c64 = cnt if w == 64 else z3.ZeroExt(64 - w, cnt)
                            p = self.alloc(st, 'bytes', conc(c64 * size), name=ins.res)
                            regs[ins.res] = p
                            continue
                    p = self.alloc(st, 'cells', size, {}, name='%s.%s' % (fn.name, ins.res))
                    regs[ins.res] = p
                    continue
                if op == 'extractvalue':
                    v = self.val(mod, regs, ins.ty, ins.a[0])
                    for x in ins.a[1]:
                        v = UNDEF if isinstance(v, Undef) else v[x]
                    regs[ins.res] = v
                    continue
                if op == 'insertvalue':
                    v = self.val(mod, regs, ins.ty, ins.a[0])
                    x = self.val_any(mod, regs, ins)
                    regs[ins.res] = self.insertv(mod, ins.ty, v, x, ins.a[2])
                    continue
                if op == 'freeze':
                    v = self.val(mod, regs, ins.ty, ins.a)
                    if isinstance(v, Undef) and ins.ty[0] == 'i':
                        v = self.fresh('frozen', ins.ty[1])
                    regs[ins.res] = v
                    continue
                if op == 'fneg':
                    regs[ins.res] = FP('neg')
                    continue
                raise Unsupported('instruction %s' % ins.text)
            if len(work) + len(out) > self.paths_budget:
                raise Budget('paths')
        return out

    def val_any(self, mod, regs, ins):
        x = ins.a[1]
        if x[0] == 'reg':
            return regs[x[1]]
        t = mod.resolve(ins.ty)
        for j in ins.a[2]:
            t = t[1][j] if t[0] == 'st' else t[2]
            t = mod.resolve(t) if t[0] == 'named' else t
        return self.val(mod, regs, t, x)

    def insertv(self, mod, ty, v, x, idx):
        rt = mod.resolve(ty)
        if isinstance(v, Undef):
            v = tuple(UNDEF for _ in rt[1])
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = self.insertv(mod, rt[1][idx[0]], l[idx[0]], x, idx[1:])
        return tuple(l)

    def do_switch(self, fn, st, regs, ins, jump, b, mod):
        v = self.val(mod, regs, ins.ty, ins.a[0])
        if isinstance(v, Undef):
            v = self.fresh('undefsw', ins.ty[1])
        w = ins.ty[1]
        cases = [(c & ((1 << w) - 1), t) for c, t in ins.a[2]]
        if isinstance(v, int):
            for c, t in cases:
                if c == v:
                    jump(st, regs, t, b)
                    return
            jump(st, regs, ins.a[1], b)
            return
        cur = st
        for c, t in cases:
            a, z = self.branch(cur, v == c)
            if a is not None:
                jump(a, dict(regs), t, b)
            cur = z
            if cur is None:
                return
        jump(cur, dict(regs), ins.a[1], b)

    # exceptions --------------------------------------------------------
    def typeid(self, name):
        return self.prog.typeid(name)

    def match_clauses(self, fn, exc, a):
        cleanup, clauses = a
        for k, cv in clauses:
            if k == 'catch':
                if cv[0] == 'null':
                    return True, 1
                t = cv[1] if cv[0] == 'glob' else None
                if t is None:
                    raise Unsupported('catch clause')
                if self.prog.exc_matches(exc[1], t):
                    return True, self.typeid(t)
            else:
                return True, -1 & 0xffffffff
        if cleanup:
            return True, 0
        return False, 0

    def do_call(self, fn, st, regs, ins):
        mod = fn.mod
        callee, args, _, _ = ins.a
        if callee[0] == 'asm':
            raise Unsupported('inline asm')
        if callee[0] == 'glob':
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(fn, st, regs, ins, name, args)
            key = self.prog.fnkey(mod, name)
        else:
            p = self.val(mod, regs, PTR, callee)
            if isinstance(p, FPtr):
                key = p.name
            elif isinstance(p, Ptr) and p.o == 0:
                self.fail(st, 'call through null function pointer', 'memory')
                return []
            else:
                vc = self.indirect_call(fn, st, regs, ins, p)
                if vc is not None:
                    return vc
                raise Unsupported('indirect call through %r in %s' % (p, fn.name))
        av = [self.val(mod, regs, t, v) if t != ('metadata',) else None for t, v in args]
        self.cur_fn = fn
        self.cur_regs = regs
        return self.call(st, key, av, ins)

    def indirect_call(self, fn, st, regs, ins, p):
        return None

    def intrinsic(self, fn, st, regs, ins, name, args):
        mod = fn.mod
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.stackrestore'):
            return [(st, 'ret', None)]
        av = [self.val(mod, regs, t, v) if t != ('metadata',) else None for t, v in args]
        if name.startswith('llvm.stacksave'):
            return [(st, 'ret', NULL)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return [(s, 'ret', None) for s in self.memcpy(st, av[0], av[1], av[2])]
        if name.startswith('llvm.memset'):
            return [(s, 'ret', None) for s in self.memset(st, av[0], av[1], av[2])]
        if name.startswith('llvm.eh.typeid.for'):
            v = args[0][1]
            return [(st, 'ret', self.typeid(v[1]))]
        if name.startswith('llvm.va_start'):
            va = regs.get('__varargs')
            p = av[0]
            ob = self.obj(st, p.o)
            st.mem[p.o] = ob.copy(kind='opaque', data=None, meta={'varargs': va, 'pos': 0})
            return [(st, 'ret', None)]
        if name.startswith('llvm.va_end'):
            return [(st, 'ret', None)]
        if name.startswith('llvm.va_copy'):
            src = self.obj(st, av[1].o)
            ob = self.obj(st, av[0].o)
            st.mem[av[0].o] = ob.copy(kind='opaque', data=None, meta=src.meta)
            return [(st, 'ret', None)]
        if name.startswith('llvm.expect'):
            return [(st, 'ret', av[0])]
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            w = args[0][0][1]
            pred = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[name.split('.')[1]]
            c = self.icmp_int(pred, w, av[0], av[1])
            if isinstance(c, int):
                return [(st, 'ret', av[0] if c else av[1])]
            return [(st, 'ret', conc(z3.If(c, bv(av[0], w), bv(av[1], w))))]
        if name.startswith('llvm.trap'):
            self.fail(st, 'trap reached', 'memory')
            return []
        if name.startswith('llvm.uadd.with.overflow') or name.startswith('llvm.umul.with.overflow'):
            w = args[0][0][1]
            A, B = bv(av[0], w), bv(av[1], w)
            if 'uadd' in name:
                return [(st, 'ret', (conc(A + B), conc(z3.Not(z3.BVAddNoOverflow(A, B, False)))))]
            return [(st, 'ret', (conc(A * B), conc(z3.Not(z3.BVMulNoOverflow(A, B, False)))))]
        raise Unsupported('intrinsic ' + name)

    def memcpy(self, st, d, s, n):
        n = conc(n)
        if isinstance(n, int):
            if n == 0:
                return [st]
            so = self.check_access(st, s, n, 'memcpy read')
            if so is None:
                return []
            do = self.check_access(st, d, n, 'memcpy write')
            if do is None:
                return []
            if so.kind in ('cells', 'const') and do.kind == 'cells' and isinstance(s.off, int) and isinstance(d.off, int):
                data = dict(do.data)
                for a in list(data):
                    if a < d.off + n and d.off < a + data[a][0]:
                        if a >= d.off and a + data[a][0] <= d.off + n:
                            del data[a]
                        else:
                            raise Unsupported('partial memcpy')
                if so.kind == 'const':
                    for i in range(n):
                        data[d.off + i] = (1, so.data[s.off + i])
                else:
                    for a, (sz, v) in so.data.items():
                        if s.off <= a and a + sz <= s.off + n:
                            data[a - s.off + d.off] = (sz, v)
                        elif a < s.off + n and s.off < a + sz:
                            raise Unsupported('partial memcpy')
                st.mem[d.o] = do.copy(data=data, lazy=do.lazy or so.lazy)
                return [st]
            if n <= 64 and so.kind in ('bytes', 'const', 'cells', 'str') and do.kind in ('bytes', 'cells'):
                vals = []
                for i in range(n):
                    v = self.load(st, Ptr(s.o, self.addoff(s.off, i, 1, ('i', 64))), ('i', 8), self.prog.anymod())
                    vals.append(v)
                for i in range(n):
                    self.store(st, Ptr(d.o, self.addoff(d.off, i, 1, ('i', 64))), vals[i], ('i', 8), self.prog.anymod())
                return [st]
            if so.kind in ('opaque', 'lazy') or do.kind in ('opaque', 'lazy'):
                return [st]
        return self.memcpy_sym(st, d, s, n)

    def memcpy_sym(self, st, d, s, n):
        so = self.check_access_range(st, s, n, 'memcpy read')
        do = self.check_access_range(st, d, n, 'memcpy write')
        if so is None or do is None:
            return []
        do = self.to_bytes(st, d.o)
        so = self.to_bytes(st, s.o)
        src = so.data
        old = do.data
        new = self.fresh_arr('cpy')
        D, S, N = bv(d.off), bv(s.off), bv(n)
        eng = self

        def rax(st, o):
            return z3.If(z3.And(z3.UGE(o, D), z3.ULT(o - D, N)), z3.Select(new, o) == z3.Select(src, o - D + S),
                         z3.Select(new, o) == z3.Select(old, o))
        self.add_rax(st, new, rax)
        st.mem[d.o] = do.copy(data=new)
        st.rax[('chain', new.get_id())] = (new, [(src, lambda o: o - D + S), (old, lambda o: o)])
        return [st]

    def check_access_range(self, st, p, n, what):
        if isinstance(p, Undef):
            self.fail(st, 'undefined pointer', 'memory')
            return None
        if p.o == 0:
            self.fail(st, 'null pointer %s' % what, 'memory')
            return None
        ob = self.obj(st, p.o)
        if ob.size is None:
            return ob
        o, s, N = bv(p.off), bv(ob.size), bv(n)
        self.prove(st, z3.And(z3.ULE(o, s), z3.ULE(N, s - o)), '%s of %s in bounds' % (what, ob.name), 'memory')
        if not self.feasible(st):
            return None
        return ob

    def memset(self, st, d, v, n):
        n = conc(n)
        if not isinstance(n, int):
            raise Unsupported('symbolic memset')
        if n == 0:
            return [st]
        ob = self.check_access(st, d, n, 'memset')
        if ob is None:
            return []
        if ob.kind == 'opaque':
            return [st]
        if ob.kind == 'cells' and isinstance(d.off, int) and isinstance(v, int):
            data = dict(ob.data)
            for a in list(data):
                if a < d.off + n and d.off < a + data[a][0]:
                    del data[a]
            if v == 0:
                nob = ob.copy(data=data)
                oldlazy = ob.lazy
                lo, hi = d.off, d.off + n

                def lazy(eng, st, off, rt):
                    if lo <= off < hi:
                        return NULL if rt[0] == 'ptr' else 0 if rt[0] == 'i' else FP('0')
                    if oldlazy:
                        return oldlazy(eng, st, off, rt)
                    return eng.undef_val(ob, off, rt)
                nob.lazy = lazy
                st.mem[d.o] = nob
                return [st]
            for i in range(n):
                data[d.off + i] = (1, v)
            st.mem[d.o] = ob.copy(data=data)
            return [st]
        for i in range(n):
            self.store(st, Ptr(d.o, self.addoff(d.off, i, 1, ('i', 64))), v, ('i', 8), self.prog.anymod())
        return [st]

    # loops -------------------------------------------------------------
    def enter_loop(self, fn, st, regs, h, prev):
        from loops import LoopRunner
        return LoopRunner(self, fn, h).run(st, regs, prev)


class Split:
    """A load that forks the path: items = [(state, value)]."""

    def __init__(self, items):
        self.items = items


def norm_outcomes(st, r):
    if r is None:
        return [(st, 'ret', None)]
    if isinstance(r, list):
        out = []
        for x in r:
            if len(x) == 2:
                out.append((x[0], 'ret', x[1]))
            else:
                out.append(x)
        return out
    if isinstance(r, tuple) and len(r) == 1:
        return [(st, 'ret', r[0])]
    return [(st, 'ret', r)]
