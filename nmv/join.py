"""Joining of execution paths that meet at a loop head.

States that agree on everything but the values of numbers are joined into one state: a fresh selector says which of them
it is, every differing number becomes a conditional on the selector, and the path condition is the disjunction of theirs.
The joined state denotes exactly the union of the states joined.  Anything else that differs (pointers to different
objects, different objects alive, ghost values of other kinds) keeps states apart."""
import z3
from sym import Ptr, Undef, FPtr, PInt
from loops import same


CACHE = {}


def names(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
            out.add(x[1])
        else:
            for y in x:
                names(y, out)


def liveness(fn):
    """Registers live at the start of each block: before its phis are evaluated, and after."""
    k = (id(fn), fn.name)
    if k in CACHE:
        return CACHE[k][1:]
    use, defs, phid, phiu = {}, {}, {}, {}
    for b, blk in fn.blocks.items():
        u, d, pd = set(), set(), set()
        for ins in blk:
            if ins.op == 'phi':
                pd.add(ins.res)
                for v, l in ins.a:
                    w = set()
                    names(v, w)
                    phiu.setdefault((l, b), set()).update(w)
                continue
            w = set()
            names(ins.a, w)
            names(getattr(ins, 'ty', None), w)
            u |= w - d
            if ins.res is not None:
                d.add(ins.res)
        use[b], defs[b], phid[b] = u, d, pd
    after = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.rpo):
            o = set()
            for t in fn.succ[b]:
                o |= (after[t] - phid[t]) | phiu.get((b, t), set())
            n = use[b] | (o - defs[b])
            if n - after[b]:
                after[b] |= n
                ch = True
    before = {}
    for b in fn.blocks:
        before[b] = after[b] - phid[b]
        for q in fn.pred[b]:
            before[b] |= phiu.get((q, b), set())
    CACHE[k] = (fn, before, after)
    return before, after


class No(Exception):
    pass


def kind(v):
    """What must be equal for two values to be joined."""
    if isinstance(v, (int, bool)) or isinstance(v, z3.BitVecRef):
        return 'n'
    if isinstance(v, z3.ExprRef):
        return 'z' + str(v.sort())
    if isinstance(v, Ptr):
        return ('p', v.o)
    if isinstance(v, Undef):
        return 'u'
    if isinstance(v, FPtr):
        return ('f', v.name)
    if isinstance(v, PInt):
        return ('pi', kind(v.p))
    if isinstance(v, tuple):
        return tuple(kind(x) for x in v)
    return ('o', repr(v))


def joined(vs, sel, w=None):
    a = vs[0]
    if all(same(a, v) for v in vs[1:]):
        return a
    if isinstance(a, Ptr):
        return Ptr(a.o, joined([v.off for v in vs], sel, 64))
    if kind(a) == 'n':
        ws = set(v.size() for v in vs if isinstance(v, z3.BitVecRef))
        if len(ws) > 1 or not (ws or w):
            raise No()
        w = ws.pop() if ws else w
        vs = [v if isinstance(v, z3.BitVecRef) else z3.BitVecVal(int(v), w) for v in vs]
    elif not isinstance(a, z3.ExprRef):
        raise No()
    r = vs[-1]
    for i in range(len(vs) - 2, -1, -1):
        r = z3.If(sel == i, vs[i], r)
    return r


def regkey(regs, live):
    return tuple(sorted((k, str(kind(v))) for k, v in regs.items() if k in live or k.startswith('__')))


def memkey(st, base):
    out = []
    for o, x in st.mem.items():
        if o not in base:
            continue
        if not x.live or x.kind != 'cells':
            out.append((str(o), x.live, x.kind, repr(x.data)[:200] if x.kind == 'str' else id(x.data)))
        else:
            out.append((str(o), tuple(sorted((str(k), n, str(kind(v))) for k, (n, v) in x.data.items()))))
    return tuple(sorted(out, key=str))


def ghostkey(st):
    return tuple(sorted((k, str(kind(v)), '' if isinstance(v, z3.ExprRef) else repr(v)) for k, v in st.ghost.items()))


def join(eng, fn, h, items, at_loop):
    """items: [(state, regs, prev)] -> fewer of them.  At a loop head the phis are still to be evaluated."""
    if len(items) < 2:
        return items
    live = liveness(fn)[0 if at_loop else 1][h]
    types = {ins.res: ins.ty for b in fn.blocks.values() for ins in b if ins.res is not None}
    base = set(items[0][0].mem)
    for s, r, p in items[1:]:
        base &= set(s.mem)
    # objects some live value points to must exist in every state joined
    groups = {}
    for it in items:
        s, r, p = it
        for k in list(s.ghost):
            if k in eng.join_drop:
                del s.ghost[k]
        groups.setdefault((p, regkey(r, live), memkey(s, base), ghostkey(s)), []).append(it)
    out = []
    for g in groups.values():
        try:
            out.append(g[0] if len(g) == 1 else one(eng, fn, g, live, types, base))
        except No:
            out += g
    return out


def one(eng, fn, g, live, types, base):
    eng.counter += 1
    sel = z3.Int('join!%d' % eng.counter)
    ss = [x[0] for x in g]
    n = ss[0].fork()
    common = set(x.get_id() for x in ss[0].pc)
    for t in ss[1:]:
        common &= set(x.get_id() for x in t.pc)
    pc = [x for x in ss[0].pc if x.get_id() in common]
    pc.append(z3.Or([z3.And([sel == i] + [x for x in t.pc if x.get_id() not in common]) for i, t in enumerate(ss)]))
    regs = {}
    for k in g[0][1]:
        if k == '__varargs' or k.startswith('__'):
            regs[k] = g[0][1][k]
            continue
        if k in live and all(k in x[1] for x in g):
            t = types.get(k)
            regs[k] = joined([x[1][k] for x in g], sel, t[1] if t and t[0] == 'i' else None)
    mem = {}
    for o in n.mem:
        if o not in base:
            continue
        xs = [t.mem[o] for t in ss]
        x = xs[0]
        if all(y is x for y in xs[1:]):
            mem[o] = x
            continue
        if any(y.meta is not x.meta and repr(y.meta) != repr(x.meta) for y in xs[1:]):
            raise No()
        size = x.size if x.size is None else joined([y.size for y in xs], sel, 64)
        if x.kind == 'cells' and x.live:
            mem[o] = x.copy(size=size, data={k: (m, joined([y.data[k][1] for y in xs], sel, m * 8)) for k, (m, v) in x.data.items()})
        else:
            if any(y.data is not x.data and repr(y.data) != repr(x.data) for y in xs[1:]):
                raise No()
            mem[o] = x.copy(size=size)
    ghost = {k: joined([t.ghost[k] for t in ss], sel) for k in n.ghost}
    rax = {}
    for k, v in n.rax.items():
        if all(k in t.rax and len(t.rax[k]) == len(v) and all(a is b for a, b in zip(t.rax[k], v)) for t in ss[1:]):
            rax[k] = v
    n.pc, n.pcset, n.mem, n.ghost, n.rax, n.model = pc, set(x.get_id() for x in pc), mem, ghost, rax, None
    n.nsym = max(t.nsym for t in ss)
    eng.njoined = getattr(eng, 'njoined', 0) + len(g) - 1
    return (n, regs, g[0][2])
