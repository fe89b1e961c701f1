"""Loop rule: execute loops of concrete control to the end; otherwise cut at the header with proved invariants.

Invariants are not written against variable names: candidates come from templates over whatever integers, pointer
offsets, arrays and ghost values the loop modifies, and the Houdini step keeps the largest inductive subset."""
import itertools
import time
import z3
from sym import (Ptr, FPtr, PInt, FP, Undef, UNDEF, NULL, Obj, State, CutNeeded, Unsupported, Budget, Obl, Failure,
                 bv, conc, tobool, tobv1)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same(a.off, b.off)
    if isinstance(a, FPtr) and isinstance(b, FPtr):
        return a.name == b.name
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same(a.p, b.p)
    if isinstance(a, FP) and isinstance(b, FP):
        return True
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and not isinstance(a, z3.ExprRef):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


class View:
    """The values of the loop's abstract variables in one state (entry, header or back edge)."""

    def __init__(self, eng, st, vals, arrs, ghosts, runner):
        self.eng = eng
        self.st = st
        self.vals = vals      # key -> raw value
        self.arrs = arrs      # objid -> array
        self.ghosts = ghosts
        self.runner = runner

    def int(self, key):
        """BV64 of an int / pointer-offset variable; None when not applicable in this state."""
        if key not in self.vals:
            return None
        v = self.vals[key]
        want = self.runner.ptrobj.get(key)
        if want is not None:
            if isinstance(v, Ptr) and v.o == want:
                return bv(v.off)
            return None
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            w = self.runner.width.get(key, 64)
            if w < 64 and v >> (w - 1):
                v = (v - (1 << w)) & ((1 << 64) - 1)
            return z3.BitVecVal(v, 64)
        if isinstance(v, z3.BitVecRef):
            if v.size() < 64:
                return z3.SignExt(64 - v.size(), v)
            return v
        return None

    def raw(self, key):
        return self.vals.get(key)


class LoopRunner:
    def __init__(self, eng, fn, h):
        self.eng = eng
        self.fn = fn
        self.h = h
        self.body = fn.loops[h]
        self.phis = [i for i in fn.blocks[h] if i.op == 'phi']
        line = None
        for ins in fn.blocks[h]:
            if ins.dbg:
                line = fn.mod.line(ins.dbg)
                break
        self.line = line
        self.name = '%s:loop@%s' % (fn.name, line)

    # -------------------------------------------------------------------
    def run(self, st, regs, prev):
        eng = self.eng
        if eng.bounded:
            return self.unroll(st, regs, prev, eng.bounded, drop=True)
        mark = (len(eng.obls), len(eng.failures))
        base = st.fork()
        try:
            r = self.unroll(st, regs, prev, eng.max_sym_iters, drop=False)
            if not eng.dry:
                eng.loopinfo.append((self.name, 'executed to the end'))
            return r
        except CutNeeded:
            del eng.obls[mark[0]:]
            del eng.failures[mark[1]:]
        mark = (len(eng.obls), len(eng.failures), eng.dry)
        spare = base.fork()
        self.undef_dead = True
        self.undef_used = False
        try:
            r = self.cut(base, regs, prev)
            if len(eng.failures) == mark[1] or not self.undef_used:
                return r
        except Unsupported:
            if not self.undef_used:
                raise
        eng.dry = mark[2]
        del eng.obls[mark[0]:]
        del eng.failures[mark[1]:]
        self.undef_dead = False
        return self.cut(spare, regs, prev)

    def unroll(self, st, regs, prev, maxsym, drop):
        eng = self.eng
        out = []
        items = [(st, regs, prev, 0)]
        rounds = 0
        while items:
            rounds += 1
            nxt = []
            for s, r, p, sym in items:
                r = dict(r)
                r['__cx'] = False
                r2 = dict(r)
                eng.do_phis(self.fn, r2, self.h, p, self.fn.mod)
                n0 = s.nsym
                res = eng.run_region(self.fn, [(s, r2, self.h, p, 0)], self.body, self.h)
                for o in res:
                    if o[0] == 'back':
                        _, s3, r3, p3 = o
                        sy = sym
                        if not r3.get('__cx'):
                            sy += 1
                            if sy > maxsym:
                                if drop:
                                    eng.bounded_hit = True
                                    continue
                                raise CutNeeded(self.name)
                        nxt.append((s3, r3, p3, sy))
                    else:
                        out.append(o)
            items = nxt
            if not drop and (rounds > eng.max_rounds or len(items) > eng.max_items):
                raise CutNeeded(self.name)
            if drop and (len(items) > 400 or rounds > 600):
                eng.bounded_hit = True
                items = items[:400] if rounds <= 600 else []
        return out

    # -------------------------------------------------------------------
    def phi_vals(self, regs, prev):
        v = {}
        for ins in self.phis:
            for x, l in ins.a:
                if l == prev:
                    v[ins.res] = self.eng.val(self.fn.mod, regs, ins.ty, x)
        return v

    def gen(self, key, v, width=None):
        """Generalise variable `key` to include v.  Returns True when the abstraction changed."""
        shapes = self.shapes.setdefault(key, [])
        if not shapes:
            self.first[key] = v
        for s in shapes:
            if self.covers(s, v):
                return False
        if isinstance(v, Ptr):
            if v.o == 0:
                shapes.append(('val', v))
                return True
            if v.o in self.entry_ids or isinstance(v.o, str):
                for i, s in enumerate(shapes):
                    if s[0] == 'val' and isinstance(s[1], Ptr) and s[1].o == v.o:
                        shapes[i] = ('off', v.o)
                        return True
                shapes.append(('val', v))
                return True
            shapes.append(('new', self.cur_back_state.mem.get(v.o), v.o))
            return True
        if isinstance(v, (FPtr, FP, PInt, Undef)):
            shapes.append(('val', v))
            return True
        if isinstance(v, z3.ExprRef) and not isinstance(v, (z3.BitVecRef, z3.BoolRef)):
            self.shapes[key] = [('sort', v.sort())]
            return True
        if isinstance(v, (int, z3.BitVecRef, z3.BoolRef)):
            if key[0] == 'ghost' and isinstance(v, int):
                if len(shapes) < 8 and all(s[0] == 'val' for s in shapes):
                    shapes.append(('val', v))
                    return True
                raise Unsupported('ghost counter %s in loop' % (key,))
            ints = [s for s in shapes if s[0] == 'val' and isinstance(s[1], (int, z3.BitVecRef, z3.BoolRef))]
            if isinstance(v, int) and len(ints) < 2 and all(isinstance(s[1], int) for s in ints):
                if not ints or self.width.get(key, 64) <= 32 and v <= 1 and ints[0][1] <= 1 and self.small_ok:
                    shapes.append(('val', v))
                    return True
            w = 1 if isinstance(v, z3.BoolRef) else v.size() if isinstance(v, z3.BitVecRef) else self.width.get(key, 64)
            self.shapes[key] = [s for s in shapes if s not in ints] + [('int', w)]
            return True
        if isinstance(v, tuple) and key[0] != 'ghost':
            shapes.append(('val', v))
            return True
        if key[0] == 'ghost':
            if key[1] in self.eng.ghost_havoc:
                self.shapes[key] = [('ghost',)]
                return True
            if len(shapes) < 8:
                shapes.append(('val', v))
                return True
        raise Unsupported('cannot generalise %r of %r in loop' % (key, v))

    def covers(self, s, v):
        if s[0] == 'val':
            if s[1] is UNDEF and self.undef_dead:
                self.undef_used = True
                return True   # not initialised at loop entry: treated as dead (undefined) at the header
            return same(s[1], v)
        if s[0] == 'int':
            return isinstance(v, (int, z3.BitVecRef, z3.BoolRef))
        if s[0] == 'off':
            return isinstance(v, Ptr) and v.o == s[1]
        if s[0] == 'new':
            if isinstance(v, Ptr) and v.o != 0 and v.o not in self.entry_ids and not isinstance(v.o, str):
                ob = self.cur_back_state.mem.get(v.o)
                return ob is not None and s[1] is not None and ob.kind == s[1].kind and \
                    (ob.meta or {}).get('type') == (s[1].meta or {}).get('type')
            return False
        if s[0] == 'sort':
            return isinstance(v, z3.ExprRef) and v.sort() == s[1]
        if s[0] == 'ghost':
            return True
        return False

    def inst(self, st, key, s):
        eng = self.eng
        if s[0] == 'val':
            return s[1]
        if s[0] == 'int':
            nm = 'h_%s' % (key[1] if key[0] != 'cell' else 'c%s' % key[2])
            return eng.fresh(str(nm), s[1])
        if s[0] == 'off':
            ob = eng.obj(st, s[1])
            o = eng.fresh('off', 64)
            if ob.meta and 'havoc_off' in ob.meta:
                return ob.meta['havoc_off'](eng, st, Ptr(s[1], o))
            return Ptr(s[1], o)
        if s[0] == 'new':
            proto = s[1]
            return self.new_like(st, proto)
        if s[0] == 'sort':
            eng.counter += 1
            return z3.Const('h_%s!%d' % (key[1], eng.counter), s[1])
        if s[0] == 'ghost':
            return eng.ghost_havoc[key[1]](eng, st, st.ghost.get(key[1]))
        raise Unsupported('inst')

    def new_like(self, st, proto):
        eng = self.eng
        if proto is None:
            raise Unsupported('new object shape')
        if proto.meta and 'clone' in proto.meta:
            return proto.meta['clone'](eng, st, proto)
        if proto.kind == 'str':
            from strs import new_sym_str
            return new_sym_str(eng, st, 'loopstr')
        if proto.kind == 'opaque':
            i = eng.newid()
            st.mem[i] = Obj('opaque', proto.size, None, proto.name, lazy=proto.lazy, meta=proto.meta)
            return Ptr(i, 0)
        raise Unsupported('new object of kind %s carried around loop' % proto.kind)

    # -------------------------------------------------------------------
    def headers(self, st, regs):
        """All header states for the current abstraction."""
        eng = self.eng
        keys = sorted(self.shapes, key=lambda k: (k[0], str(k[1:])))
        multi = [k for k in keys if len(self.shapes[k]) > 1]
        n = 1
        for k in multi:
            n *= len(self.shapes[k])
        if n > 48:
            # too many combinations: widen the ints
            for k in multi:
                if all(s[0] == 'val' and isinstance(s[1], int) for s in self.shapes[k]) and k[0] != 'ghost':
                    self.shapes[k] = [('int', self.width.get(k, 64))]
            multi = [k for k in keys if len(self.shapes[k]) > 1]
            n = 1
            for k in multi:
                n *= len(self.shapes[k])
            if n > 20000:
                raise Unsupported('too many loop shapes in %s' % self.name)
        out = []
        allowed = self.signatures(multi)
        for combo in itertools.product(*[range(len(self.shapes[k])) for k in multi]):
            if combo not in allowed:
                continue        # no entry or back-edge state has this combination
            pick = {k: self.shapes[k][i] for k, i in zip(multi, combo)}
            s = st.fork()
            s.ghost['__cut'] = True
            r = dict(regs)
            vals = {}
            arrs = {}
            for o in self.modarr:
                ob = eng.to_bytes(s, o)
                na = eng.fresh_arr('h_' + (ob.name or 'arr'))
                s.mem[o] = ob.copy(data=na)
                arrs[o] = na
            for k in keys:
                sh = pick.get(k) or self.shapes[k][0]
                v = self.inst(s, k, sh)
                vals[k] = v
                if k[0] == 'phi':
                    r[k[1]] = v
                elif k[0] == 'cell':
                    ob = eng.obj(s, k[1])
                    d = dict(ob.data)
                    d[k[2]] = (self.cellsize[k], v)
                    s.mem[k[1]] = ob.copy(data=d)
                elif k[0] == 'ghost':
                    s.ghost[k[1]] = v
                elif k[0] == 'objsize':
                    ob = eng.obj(s, k[1])
                    s.mem[k[1]] = ob.copy(size=v)
            view = View(eng, s, vals, arrs, s.ghost, self)
            out.append((s, r, view))
        return out

    def signature(self, multi, vals, st):
        """Which shape of each multi-shape variable a recorded state has (None: no shape, cannot happen at a fixpoint)."""
        save = self.cur_back_state
        self.cur_back_state = st
        try:
            sig = []
            for k in multi:
                v = vals[k] if k in vals else self.first.get(k)
                for i, s in enumerate(self.shapes[k]):
                    if self.covers(s, v):
                        sig.append(i)
                        break
                else:
                    sig.append(0)
            return tuple(sig)
        finally:
            self.cur_back_state = save

    def signatures(self, multi):
        return {self.signature(multi, v, s) for v, s in self.records}

    def record(self, st, regs, prev):
        """Remember the combination of shapes of a back-edge state.  True when it is a new one."""
        multi = [k for k in sorted(self.shapes, key=lambda k: (k[0], str(k[1:]))) if len(self.shapes[k]) > 1]
        vals = {}
        ph = self.phi_vals(regs, prev)
        for k in self.shapes:
            if k[0] == 'phi':
                vals[k] = ph[k[1]]
            elif k[0] == 'cell':
                ob = st.mem.get(k[1])
                if ob is not None and ob.kind == 'cells' and k[2] in ob.data:
                    vals[k] = ob.data[k[2]][1]
            elif k[0] == 'ghost':
                vals[k] = st.ghost.get(k[1])
        sig = self.signature(multi, vals, st)
        if sig in self.signatures(multi):
            return False
        self.records.append((vals, st))
        return True

    def view_of(self, st, regs, prev, phis=None):
        eng = self.eng
        phis = phis if phis is not None else self.phi_vals(regs, prev)
        vals = {}
        for k in self.shapes:
            if k[0] == 'phi':
                vals[k] = phis[k[1]]
            elif k[0] == 'cell':
                ob = st.mem.get(k[1])
                if ob is not None and ob.kind == 'cells' and k[2] in ob.data:
                    vals[k] = ob.data[k[2]][1]
                elif ob is not None and ob.kind == 'cells':
                    c = eng.lazy_lookup(k[1], k[2], self.cellsize[k], ob)
                    if c is not None:
                        vals[k] = c
            elif k[0] == 'ghost':
                vals[k] = st.ghost.get(k[1])
            elif k[0] == 'objsize':
                vals[k] = st.mem[k[1]].size
        arrs = {}
        for o in self.modarr:
            arrs[o] = eng.to_bytes(st, o).data
        return View(eng, st, vals, arrs, st.ghost, self)

    def diff(self, hst, st, regs, prev):
        """Generalise the abstraction by one back-edge state.  True when changed."""
        ch = False
        eng = self.eng
        self.cur_back_state = st
        for name, v in self.phi_vals(regs, prev).items():
            if self.gen(('phi', name), v):
                ch = True
        for o in self.entry_ids:
            a, b = hst.mem.get(o), st.mem.get(o)
            if a is b or b is None or a is None:
                continue
            if a.live != b.live:
                raise Unsupported('loop frees outer object %s' % b.name)
            if a.meta is not b.meta and not (a.meta == b.meta):
                raise Unsupported('meta change of %s in loop' % b.name)
            if a.kind == 'cells' and b.kind == 'cells':
                for off, (sz, v) in b.data.items():
                    c = a.data.get(off)
                    if c is None:
                        lv = eng.lazy_lookup(o, off, sz, b)
                        if lv is not None and same(lv, v):
                            continue
                        ev = self.entry_cell(o, off, sz, lv)
                        k = ('cell', o, off)
                        self.cellsize[k] = sz
                        self.width[k] = 8 * sz
                        if k not in self.shapes:
                            self.gen(k, ev)
                        self.gen(k, v)
                        ch = True
                    elif c[0] != sz:
                        raise Unsupported('cell size change in loop')
                    elif not same(c[1], v) or ('cell', o, off) in self.shapes:
                        k = ('cell', o, off)
                        self.cellsize[k] = sz
                        self.width[k] = 8 * sz
                        if k not in self.shapes:
                            self.gen(k, c[1])
                            ch = True
                        if self.gen(k, v):
                            ch = True
            elif b.kind == 'bytes':
                if a.kind != 'bytes' or not a.data.eq(b.data):
                    if o not in self.modarr:
                        if a.kind != 'bytes' and a.kind in ('cells', 'str', 'const') and self.unmodified_conv(hst, a, b, o):
                            continue
                        self.modarr.add(o)
                        ch = True
                if not same(a.size, b.size) and a.kind == 'bytes':
                    k = ('objsize', o)
                    self.width[k] = 64
                    if k not in self.shapes:
                        self.gen(k, a.size)
                        ch = True
                    if self.gen(k, b.size):
                        ch = True
            elif a.kind != b.kind or not same(a.data, b.data):
                if a.kind == b.kind == 'opaque' and a.data is b.data:
                    continue
                raise Unsupported('loop changes object %s of kind %s->%s' % (b.name, a.kind, b.kind))
        for g, v in st.ghost.items():
            if g == '__cut':
                continue
            a = hst.ghost.get(g)
            if not same(a, v) or ('ghost', g) in self.shapes:
                k = ('ghost', g)
                if k not in self.shapes:
                    self.gen(k, a)
                    ch = True
                if self.gen(k, v):
                    ch = True
        if self.record(st, regs, prev):
            ch = True
        return ch

    def unmodified_conv(self, hst, a, b, o):
        return a.kind in ('const',)

    def entry_cell(self, o, off, sz, lv):
        if lv is not None:
            return lv
        ob = self.entry_st.mem[o]
        c = ob.data.get(off)
        if c is not None:
            return c[1]
        return UNDEF

    # -------------------------------------------------------------------
    def cut(self, st, regs, prev):
        eng = self.eng
        t0 = time.time()
        self.entry_st = st
        self.entry_ids = set(st.mem)
        self.shapes = {}
        self.first = {}
        self.width = {}
        self.cellsize = {}
        self.modarr = set()
        self.ptrobj = {}
        self.small_ok = True
        self.cur_back_state = st
        ent = self.phi_vals(regs, prev)
        for ins in self.phis:
            self.width[('phi', ins.res)] = ins.ty[1] if ins.ty[0] == 'i' else 64
            self.gen(('phi', ins.res), ent[ins.res])
        self.records = [({('phi', k): v for k, v in ent.items()}, st)]
        eng.dry += 1
        saved_log = list(st.log)
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('loop abstraction does not stabilise: ' + self.name)
                if rounds > 6:
                    self.small_ok = False
                changed = False
                for s, r, view in self.headers(st, regs):
                    hs = s.fork()
                    res = eng.run_region(self.fn, [(s, r, self.h, prev, 0)], self.body, self.h)
                    for o in res:
                        if o[0] == 'back':
                            if self.diff(hs, o[1], o[2], o[3]):
                                changed = True
                    if changed:
                        break
                if not changed:
                    break
            # pointer variables with a single object
            for k, shs in self.shapes.items():
                objs = {s[1] for s in shs if s[0] == 'off'}
                if len(objs) == 1:
                    self.ptrobj[k] = objs.pop()
            self.ivars = [k for k, shs in self.shapes.items() if any(s[0] in ('int', 'off') for s in shs)
                          and (self.width.get(k, 64) > 1)]
            self.ivars.sort(key=str)
            entry = self.view_of(st, regs, prev, ent)
            self.entry_view = entry
            cands, qinvs = self.candidates(entry)
            cands = self.filter_entry(st, entry, cands)
            qinvs = self.filter_entry_q(st, entry, qinvs)
            n0 = len(cands), len(qinvs)
            # Houdini
            it = 0
            while True:
                it += 1
                if it > 60:
                    raise Unsupported('Houdini does not converge: ' + self.name)
                dropped = False
                for s, r, view in self.headers(st, regs):
                    self.assume_inv(s, view, cands, qinvs)
                    if not eng.feasible(s):
                        continue
                    res = eng.run_region(self.fn, [(s, r, self.h, prev, 0)], self.body, self.h)
                    for o in res:
                        if o[0] != 'back':
                            continue
                        bst = o[1]
                        bview = self.view_of(bst, o[2], o[3])
                        d1 = self.drop_failing(bst, bview, cands)
                        d2 = self.drop_failing_q(bst, bview, qinvs)
                        if d1 or d2:
                            dropped = True
                if not dropped:
                    break
        finally:
            eng.dry -= 1
        if not eng.dry:
            for nm, _ in cands:
                eng.obls.append(Obl('%s invariant %s initially and inductively' % (self.name, nm), 'invariant',
                                    eng.where, True, 0.0, 'z3'))
            for q in qinvs:
                eng.obls.append(Obl('%s invariant %s initially and inductively' % (self.name, q.name), 'invariant',
                                    eng.where, True, 0.0, 'z3'))
            eng.loopinfo.append((self.name, 'cut: kept %d of %d invariants, %.1fs' % (len(cands) + len(qinvs), sum(n0), time.time() - t0)))
            eng.invlog.append((self.name, [c[0] for c in cands] + [q.name for q in qinvs]))
        out = []
        for s, r, view in self.headers(st, regs):
            self.assume_inv(s, view, cands, qinvs)
            s.model = None
            if not eng.feasible(s):
                continue
            if eng.trace_loops and not eng.dry:
                s.event('loop', self.name)
            res = eng.run_region(self.fn, [(s, r, self.h, prev, 0)], self.body, self.h)
            for o in res:
                if o[0] == 'back':
                    continue
                out.append(o)
        return out

    def assume_inv(self, s, view, cands, qinvs):
        eng = self.eng
        s.model = None
        for ax in eng.header_axioms:
            ax(eng, s, view)
        for o, arr in view.arrs.items():
            for q in qinvs:
                if q.obj == o:
                    eng.add_rax(s, arr, (lambda st, j, q=q, view=view, arr=arr: q.f(eng, st, view, arr, j)))
        for nm, f in cands:
            c = f(view)
            if c is not None:
                eng.assume(s, c)

    def candidates(self, entry):
        eng = self.eng
        cands = []
        iv = self.ivars
        E = {k: entry.int(k) for k in iv}

        def add(nm, f):
            cands.append((nm, f))
        if not eng.auto_inv:
            for t in eng.loop_templates:
                cands += t(entry)
            return cands, []
        for k in iv:
            e = E[k]
            if e is not None:
                add('%s>=entry' % (k,), lambda v, k=k, e=e: None if v.int(k) is None else z3.UGE(v.int(k), e))
                if self.width.get(k, 64) < 64 or True:
                    add('%s s>=entry' % (k,), lambda v, k=k, e=e: None if v.int(k) is None else v.int(k) >= e)
                add('%s<=entry' % (k,), lambda v, k=k, e=e: None if v.int(k) is None else z3.ULE(v.int(k), e))
                add('%s odd/even' % (k,), lambda v, k=k, e=e: None if v.int(k) is None else (v.int(k) & 1) == (e & 1))
            o = self.ptrobj.get(k)
            if o is not None:
                ob = self.entry_st.mem.get(o)
                if ob is not None and ob.size is not None:
                    sz = bv(ob.size)
                    add('%s<=size' % (k,), lambda v, k=k, sz=sz: None if v.int(k) is None else z3.ULE(v.int(k), sz))
                    add('%s<size' % (k,), lambda v, k=k, sz=sz: None if v.int(k) is None else z3.ULT(v.int(k), sz))
        for a, b in itertools.permutations(iv, 2):
            def both(v, a=a, b=b):
                x, y = v.int(a), v.int(b)
                return None if x is None or y is None else (x, y)
            add('%s<=%s' % (a, b), lambda v, both=both: None if both(v) is None else z3.ULE(*both(v)))
        for a, b in itertools.combinations(iv, 2):
            if E[a] is None or E[b] is None:
                continue
            d = conc(E[a] - E[b])
            s = conc(E[a] + E[b])

            def both(v, a=a, b=b):
                x, y = v.int(a), v.int(b)
                return None if x is None or y is None else (x, y)
            add('%s-%s const' % (a, b), lambda v, both=both, d=d: None if both(v) is None else both(v)[0] - both(v)[1] == bv(d))
            add('%s+%s const' % (a, b), lambda v, both=both, s=s: None if both(v) is None else both(v)[0] + both(v)[1] == bv(s))
        for t in eng.loop_templates:
            cands += t(entry)
        qs = []
        for o in self.modarr:
            ea = entry.arrs[o]
            for k in iv:
                if self.ptrobj.get(k) == o:
                    def f(eng, st, view, arr, j, k=k, ea=ea):
                        x = view.int(k)
                        if x is None:
                            return z3.BoolVal(True)
                        return z3.Implies(z3.UGE(j, x), z3.Select(arr, j) == bv(eng.read_arr(st, ea, j), 8))
                    qs.append(QInv('bytes from %s on unchanged' % (k,), o, f))
                    e = E[k]
                    if e is not None:
                        def g(eng, st, view, arr, j, e=e, ea=ea):
                            return z3.Implies(z3.ULT(j, e), z3.Select(arr, j) == bv(eng.read_arr(st, ea, j), 8))
                        qs.append(QInv('bytes below entry %s unchanged' % (k,), o, g))
        for t in eng.qtemplates:
            qs += t(entry)
        return cands, qs

    def valid(self, st, c):
        c = conc(c)
        if isinstance(c, int):
            return bool(c), None
        r, m = self.eng._check(st.pc + [z3.Not(c)], timeout=8000)
        return r == z3.unsat, m

    def filter_entry(self, st, entry, cands):
        for ax in self.eng.header_axioms:
            ax(self.eng, st, entry)
        keep = list(cands)
        self.drop_failing(st, entry, keep)
        return keep

    def drop_failing(self, st, view, cands):
        """Remove from cands those not valid in st (model-guided).  True when any was dropped."""
        eng = self.eng
        if view is not self.entry_view:
            for ax in eng.header_axioms:
                ax(eng, st, view)
        forms = []
        bad = []
        for i, (nm, f) in enumerate(cands):
            c = f(view)
            if c is None:
                continue
            c = conc(c)
            if isinstance(c, int):
                if not c:
                    bad.append(i)
                continue
            forms.append((i, c))
        if bad and not eng.feasible(st):
            return False
        while forms:
            r, m = eng._check(st.pc + [z3.Or([z3.Not(c) for _, c in forms])], timeout=1200)
            if r == z3.unsat:
                break
            if r == z3.unknown or m is None:
                # one by one
                forms, nb = self.each(st, forms, {i: c[0] for i, c in enumerate(cands)})
                bad += nb
                break
            rest = []
            nb = 0
            for i, c in forms:
                if z3.is_true(m.eval(c, model_completion=True)):
                    rest.append((i, c))
                else:
                    bad.append(i)
                    nb += 1
            if nb == 0:
                for i, c in forms:
                    ok, _ = self.valid(st, c)
                    if not ok:
                        bad.append(i)
                break
            forms = rest
        if not bad:
            return False
        bs = set(bad)
        cands[:] = [c for i, c in enumerate(cands) if i not in bs]
        return True

    def each(self, st, forms, names):
        """Check the candidates one at a time on one incremental solver."""
        eng = self.eng
        t0 = time.time()
        s = eng.limit(z3.SimpleSolver(), 12000)
        s.add(*eng.base_axioms)
        s.add(*st.pc)
        keep = []
        bad = []
        work = list(forms)
        while work:
            i, c = work.pop(0)
            s.push()
            s.add(z3.Not(c))
            r = s.check()
            eng.nqueries += 1
            if r == z3.unsat:
                keep.append((i, c))
            else:
                bad.append(i)
                if r == z3.unknown:
                    eng.weak.append('%s: %s' % (self.name, names.get(i)))
                if r == z3.sat:
                    m = s.model()
                    rest = []
                    for j, d in work:
                        if z3.is_false(m.eval(d, model_completion=True)):
                            bad.append(j)
                        else:
                            rest.append((j, d))
                    work = rest
            s.pop()
        eng.solver_time += time.time() - t0
        return keep, bad

    def q_holds(self, st, view, q):
        eng = self.eng
        s = st.fork()
        j = eng.fresh('qj', 64)
        arr = view.arrs[q.obj]
        eng.read_arr(s, arr, j)
        c = q.f(eng, s, view, arr, j)
        c = conc(c)
        if isinstance(c, int):
            return bool(c)
        r, m = eng._check(s.pc + [z3.Not(c)], timeout=10000)
        if r == z3.unknown:
            eng.weak.append('%s: %s' % (self.name, q.name))
        return r == z3.unsat

    def filter_entry_q(self, st, entry, qs):
        return [q for q in qs if self.q_holds(st, entry, q)]

    def drop_failing_q(self, st, view, qs):
        bad = [q for q in qs if not self.q_holds(st, view, q)]
        for q in bad:
            qs.remove(q)
        return bool(bad)


class QInv:
    def __init__(self, name, obj, f):
        self.name = name
        self.obj = obj
        self.f = f
