"""Closed forms of symbolic for-loops.

The body is interpreted once on a generic iteration k with every value that may be carried from one iteration to
the next replaced by a placeholder; the resulting update equations are then closed: invariants, sums, entry-wise
families of writes, appended segments, and otherwise an uninterpreted recurrence with a canonical form."""
from .dom import *
from .values import *

OPEN_KINDS = (Num, Const, StrV, Tup, Opq, CondV)


def summarize_for(I, s, N, f):
    from .interp import assigned_names, PathLimit
    import ast
    k = fresh('k')
    K = Sc.atom(k)
    names = assigned_names(s.body) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    S = Summary(I, s, N, f, k, K, names)
    try:
        S.run()
    except PathLimit:
        I.havoc_loop(s, None)


class Fallback(Exception):
    pass


class Summary:
    def __init__(self, I, s, N, f, k, K, names):
        self.I, self.s, self.N, self.f, self.k, self.K, self.names = I, s, N, f, k, K, names
        self.cells = {}       # cell -> placeholder value
        self.atoms = {}       # placeholder atom -> cell

    # ------------------------------------------------------------------ running the body
    def body(self):
        I = self.I
        I.st.B.low[self.k] = 0
        I.st.B.extra.append(self.N - 1 - self.K)
        I.assign(self.s.target, self.f(self.K))
        I.exec_block(self.s.body)

    def run(self):
        I = self.I
        base = I.st
        start_alloc, start_top = I.nalloc, I.ntop
        self.start_alloc = start_alloc
        for n in sorted(self.names):
            if n in base.frames[-1] and not n.startswith('__'):
                self.add_cell(('name', n))
        tnames = set()
        import ast
        for x in ast.walk(self.s.target):
            if isinstance(x, ast.Name):
                tnames.add(x.id)
        outs = None
        for rnd in range(5):
            top0 = I.ntop
            I.st = self.with_placeholders(base)
            try:
                outs = I.run_paths(self.body, 80)
            finally:
                I.st = base
            # loop-invariant guards are decided outside (unswitching)
            for o in outs:
                for c, v in o.lits:
                    if not self.varying(c, top0) and I.known(c) is None:
                        I.decide(c)
                        k2 = fresh('k')
                        S = Summary(I, self.s, I.N(self.N), self.f, k2, Sc.atom(k2), self.names)
                        return S.run()
            new = self.discover(base, outs)
            if not new:
                break
            for c in new:
                self.add_cell(c)
        else:
            return I.havoc_loop(self.s, None)
        self.finish(base, outs, tnames)

    def varying(self, x, top0):
        for a in walk_atoms(x):
            if a == self.k or a[0] == 'car' and a in self.atoms:
                return True
            if a[0] == 'top' and isinstance(a[-1], (int, str)) and str(a[-1]).isdigit() and int(a[-1]) > top0:
                return True
        # placeholders also occur in opaque keys
        for y in walk_vals(x):
            if isinstance(y, Opq) and y.k and (y.k[0] == 'car' and y.k in self.atoms or
                                               y.k[0] == 'top' and int(y.k[1]) > top0):
                return True
        return False

    def carries(self, x):
        """does x contain a placeholder of this loop"""
        for a in walk_atoms(x):
            if a[0] == 'car' and a in self.atoms:
                return True
        return any(isinstance(y, Opq) and y.k in self.atoms for y in walk_vals(x))

    # ------------------------------------------------------------------ cells
    def get(self, st, cell):
        if cell[0] == 'name':
            return st.frames[len(self.I.st.frames) - 1].get(cell[1])
        o = st.heap.get(cell[1])
        if cell[0] == 'attr':
            return o.attrs.get(cell[2]) if isinstance(o, InstO) else None
        if cell[0] == 'key':
            return o.items.get(cell[2]) if isinstance(o, DictO) else None
        return o

    def add_cell(self, cell):
        if cell in self.cells:
            return
        I = self.I
        pre = self.get(I.st, cell)
        cid = '%s.%d' % (self.k[1], len(self.cells))
        ph = self.placeholder(pre, cid, cell)
        self.cells[cell] = (pre, ph)

    def placeholder(self, pre, cid, cell):
        I = self.I
        if isinstance(pre, Arr):       # array contents changed in place
            rows, cols = I.N(pre.mat.rows), I.N(pre.mat.cols)
            a = ('car', rows, cols, cid)
            self.atoms[a] = cell
            return ('arr', a)
        if isinstance(pre, ListO):
            self.atoms[('carlist', cid)] = cell
            return ('list', ('carlist', cid))
        if isinstance(pre, DictO):
            return ('dict', cid)
        if isinstance(pre, InstO):
            return ('inst', cid)
        if isinstance(pre, Num):
            a = ('car', cid)
            self.atoms[a] = cell
            return ('num', a, pre.k)
        if isinstance(pre, StrV) or isinstance(pre, Const) and isinstance(pre.v, str):
            k = ('car', cid)
            self.atoms[k] = cell
            return ('str', k)
        if isinstance(pre, Ref):
            o = I.obj(pre)
            if isinstance(o, Arr):
                a = ('car', I.N(o.mat.rows), I.N(o.mat.cols), cid)
                self.atoms[a] = cell
                return ('refarr', a, o.kind, o.nd)
        k = ('car', cid)
        self.atoms[k] = cell
        return ('opq', k)

    def with_placeholders(self, base):
        st = base.copy()
        I = self.I
        fi = len(base.frames) - 1
        for cell, (pre, ph) in self.cells.items():
            if ph[0] == 'arr':
                o = base.heap[cell[1]]
                st.heap[cell[1]] = o.with_(mat=matom(ph[1]), writes=())
                continue
            if ph[0] == 'list':
                st.heap[cell[1]] = ListO([('any', ph[1])], pre.owner)
                continue
            if ph[0] == 'dict':
                st.heap[cell[1]] = DictO({}, pre.owner, 'car' + ph[1])
                continue
            if ph[0] == 'inst':
                st.heap[cell[1]] = InstO(pre.cls, {k: Opq('top', str(I.ntop)) for k in pre.attrs}, pre.owner, pre.ext)
                continue
            if ph[0] == 'num':
                v = Num(Sc.atom(ph[1]), ph[2])
            elif ph[0] == 'str':
                v = StrV([Opq(*ph[1])])
            elif ph[0] == 'refarr':
                I.nalloc += 1
                st.heap[I.nalloc] = Arr(ph[2], ph[3], matom(ph[1]))
                v = Ref(I.nalloc)
            else:
                v = Opq(*ph[1])
            if cell[0] == 'name':
                st.frames[fi][cell[1]] = v
            elif cell[0] == 'attr':
                o = st.heap[cell[1]]
                at = dict(o.attrs)
                at[cell[2]] = v
                st.heap[cell[1]] = InstO(o.cls, at, o.owner, o.ext)
            elif cell[0] == 'key':
                o = st.heap[cell[1]]
                d = dict(o.items)
                d[cell[2]] = v
                st.heap[cell[1]] = DictO(d, o.owner, o.open)
        self.basest = st
        return st

    def discover(self, base, outs):
        new = []
        done_addr = {c[1] for c in self.cells if c[0] == 'addr'}
        for o in outs:
            for a, ob in o.st.heap.items():
                old = self.basest.heap.get(a)
                if old is None or a not in base.heap or old is ob or old == ob:
                    continue
                if a in done_addr:
                    continue
                if isinstance(old, InstO) and isinstance(ob, InstO):
                    for n, v in ob.attrs.items():
                        if n not in old.attrs or not (old.attrs[n] == v):
                            if n in base.heap[a].attrs:
                                c = ('attr', a, n)
                                if c not in self.cells:
                                    new.append(c)
                    continue
                if isinstance(old, DictO) and isinstance(ob, DictO):
                    ks = [n for n, v in ob.items.items() if n in old.items and not old.items[n] == v]
                    if len(ob.items) == len(old.items) and set(ob.items) == set(old.items):
                        new += [('key', a, n) for n in ks if ('key', a, n) not in self.cells]
                    else:
                        new.append(('addr', a))
                    continue
                new.append(('addr', a))
        out = []
        for c in new:
            if c not in out:
                out.append(c)
        return out

    # ------------------------------------------------------------------ closing
    def finish(self, base, outs, tnames):
        from .interp import PyRaise, ReturnSig, exists_lit, subst_in_key
        I, k, K, N = self.I, self.k, self.K, self.N
        # early exits
        for o in outs:
            for e in o.st.effects[len(base.effects):]:
                if e not in I.st.effects:
                    I.st.effects.append(e)
            for y in o.st.yields[len(base.yields):]:
                y2 = ('loop', N, subst_in_key(y, {k: QI(y)}))
                if y2 not in I.st.yields:
                    I.st.yields.append(y2)
        for o in outs:
            if o.kind in ('raise', 'return', 'break'):
                lits = [(c, v) for c, v in o.lits]
                if lits:
                    c = exists_lit(k, N, self.strip_lits(lits))
                    hit = I.decide(c)
                else:
                    hit = (not I.B.nonneg(-N)) and (I.B.nonneg(N - 1) or I.decide(('lt0', -N)))
                if hit:
                    I.st.glob = dict(o.st.glob)
                    if o.kind == 'raise':
                        raise PyRaise(o.value)
                    if o.kind == 'return':
                        v = o.value
                        if isinstance(v, Const) or (isinstance(v, Ref) and v.a in I.st.heap):
                            raise ReturnSig(v)
                        self.forget()
                        raise ReturnSig(I.top('return in loop'))
                    self.forget()
                    return
        oks = [o for o in outs if o.kind == 'ok']
        if not oks:
            return
        for g in set().union(*[set(o.st.glob) for o in oks]):
            vals = [o.st.glob.get(g) for o in oks]
            if all(v == base.glob.get(g) for v in vals):
                continue
            if all(v == vals[0] for v in vals) and vals[0] is not None and not self.varying(vals[0], 10 ** 9):
                I.st.glob[g] = vals[0]
            else:
                I.st.glob[g] = I.top('ambient state')
        # joined values of every cell, in terms of placeholders and k
        upd = {}
        for cell, (pre, ph) in self.cells.items():
            upd[cell] = self.joined(cell, pre, ph, oks)
        # names introduced by the body
        fi = len(base.frames) - 1
        fresh_names = {}
        for n in set().union(*[set(o.st.frames[fi]) for o in oks]):
            if n not in base.frames[fi]:
                if all(n in o.st.frames[fi] for o in oks):
                    fresh_names[n] = True
        self.upd = upd
        self.rec = Recurrences(self)
        # results
        results = {}
        for cell, (pre, ph) in self.cells.items():
            results[cell] = self.close(cell, pre, ph, upd[cell])
        for cell, r in results.items():
            self.store(cell, r)
        last = {k: N - 1}
        last.update(self.rec.final_map(at_last=True))
        for n in sorted(fresh_names):
            vals = [(o, o.st.frames[fi][n]) for o in oks]
            v = self.join_plain(vals)
            if v is None:
                I.frame[n] = I.top('loop variable ' + n)
            else:
                I.frame[n] = self.import_val(v, last)

    def strip_lits(self, lits):
        m = self.rec_at_map_lazy()
        from .interp import subst_in_key
        return [(subst_in_key(c, m), v) for c, v in lits]

    def rec_at_map_lazy(self):
        return {}

    def forget(self):
        I = self.I
        for cell, (pre, ph) in self.cells.items():
            if cell[0] == 'addr':
                I.havoc_addr(cell[1])
            else:
                self.store(cell, I.top('value after early exit'))
        for n in self.names:
            if n not in I.frame:
                I.frame[n] = I.top('value after early exit')

    def store(self, cell, v):
        I = self.I
        if cell[0] == 'name':
            I.frame[cell[1]] = v
        elif cell[0] == 'attr':
            o = I.st.heap[cell[1]]
            at = dict(o.attrs)
            at[cell[2]] = v
            I.st.heap[cell[1]] = InstO(o.cls, at, o.owner, o.ext)
        elif cell[0] == 'key':
            o = I.st.heap[cell[1]]
            d = dict(o.items)
            d[cell[2]] = v
            I.st.heap[cell[1]] = DictO(d, o.owner, o.open)
        else:
            I.st.heap[cell[1]] = v

    def in_state(self, st, fn):
        I = self.I
        cur = I.st
        I.st = st
        try:
            return fn()
        finally:
            I.st = cur

    def joined(self, cell, pre, ph, oks):
        """value of the cell after the generic iteration (gated over the body's paths), or None"""
        from .interp import join_values, join_sc
        I = self.I
        if ph[0] == 'arr':
            cases = []
            for o in oks:
                ob = o.st.heap[cell[1]]
                if not (ob.mat.single_word() and ob.mat.single_word()[1] == ((ph[1], 0),)) and not ob.mat == matom(ph[1]):
                    return ('mat', self.join_mats([(x, self.in_state(x.st, lambda: I.arr_mat(Ref(cell[1])))) for x in oks]))
                if ob.mat.shape != matom(ph[1]).shape:
                    return None
                cases.append((o, list(ob.writes)))
            if len(cases) == 1:
                return ('writes', cases[0][1])
            poss = []
            for o, ws in cases:
                for w in ws:
                    p = (w.bounds, w.r, w.c)
                    if p not in poss:
                        poss.append(p)
            out = []
            for p in poss:
                vals = []
                for o, ws in cases:
                    hit = [w for w in ws if (w.bounds, w.r, w.c) == p]
                    if hit:
                        v = hit[-1].val
                    elif p[1][0] == 'at' and p[2][0] == 'at':
                        v = Sc.atom(('ent', ph[1], p[1][1], p[2][1]))
                    else:
                        return None
                    vals.append((o.lits, v))
                if all(isinstance(v, Sc) for _, v in vals):
                    j = join_sc(vals)
                elif all(v == vals[0][1] for _, v in vals):
                    j = vals[0][1]
                else:
                    j = None
                if j is None:
                    return None
                out.append(Wr(p[0], p[1], p[2], j))
            return ('writes', out)
        if ph[0] == 'list':
            cases = []
            for o in oks:
                ob = o.st.heap[cell[1]]
                if not isinstance(ob, ListO) or not ob.segs or ob.segs[0] != ('any', ph[1]):
                    return None
                ex = []
                for sg in ob.segs[1:]:
                    if sg[0] == 'item':
                        ex.append(('item', self.in_state(o.st, lambda: I.freeze(sg[1]))))
                    else:
                        ex.append(sg)
                cases.append((o.lits, tuple(ex)))
            if all(c[1] == cases[0][1] for c in cases):
                return ('ext', cases[0][1])
            if all(len(c[1]) == 1 and c[1][0][0] == 'item' for c in cases):
                j = join_values([(l, c[0][1]) for l, c in cases])
                if j is not None:
                    return ('ext', (('item', j),))
            return ('filter', tuple(sorted(((tuple(l), c) for l, c in cases), key=rkey)))
        if ph[0] in ('dict', 'inst'):
            return None
        vals = [(o, self.get(o.st, cell)) for o in oks]
        return self.join_plain(vals)

    def join_mats(self, cases):
        if all(m == cases[0][1] for _, m in cases):
            return cases[0][1]
        ms = [m for _, m in cases]
        if len({m.shape for m in ms}) != 1:
            return None
        return mfn('choice', ms[0].rows, ms[0].cols, *sorted([(tuple(o.lits), m) for o, m in cases], key=rkey))

    def join_plain(self, vals):
        """[(outcome, value)] -> value whose references live in the outcome of the first case"""
        from .interp import join_values
        I = self.I
        o0, v0 = vals[0]
        if any(v is None for _, v in vals):
            return None
        if len(vals) == 1:
            return ('in', o0.st, v0)
        if all(isinstance(v, Ref) for _, v in vals):
            if all(v == v0 for _, v in vals) and v0.a <= self.start_alloc:
                return ('in', o0.st, v0)
            objs = [o.st.heap[v.a] for o, v in vals]
            if all(isinstance(x, Arr) for x in objs):
                m = self.join_mats([(o, self.in_state(o.st, lambda: I.arr_mat(v))) for o, v in vals])
                if m is not None:
                    return ('frozen', FrozenArr(objs[0].kind, objs[0].nd, m))
            fz = [self.in_state(o.st, lambda: I.vkey(v)) for o, v in vals]
            if all(x == fz[0] for x in fz):
                return ('in', o0.st, v0)
            return None
        if any(isinstance(v, Ref) for _, v in vals):
            return None
        j = join_values([(o.lits, v) for o, v in vals])
        if j is None:
            return None
        return ('plain', j)

    def import_val(self, j, m):
        """bring a joined value into the current state under a substitution"""
        I = self.I
        if j[0] == 'plain':
            return subst(j[1], m)
        if j[0] == 'frozen':
            return I.thaw(subst(j[1], m))
        _, st, v = j
        memo = {}

        def imp(v):
            if isinstance(v, Ref):
                if v.a <= self.start_alloc and v.a in I.st.heap:
                    return v
                if v.a in memo:
                    return memo[v.a]
                o = st.heap.get(v.a)
                if isinstance(o, Arr):
                    mm = self.in_state(st, lambda: I.arr_mat(v))
                    r = I.alloc(Arr(o.kind, o.nd, subst(mm, m)))
                    memo[v.a] = r
                    return r
                if isinstance(o, ListO):
                    r = I.alloc(ListO([]))
                    memo[v.a] = r
                    I.st.heap[r.a] = ListO([(sg[0],) + tuple(imp(x) if isinstance(x, V) else subst_any(x, m) for x in sg[1:]) for sg in o.segs])
                    return r
                if isinstance(o, DictO):
                    r = I.alloc(DictO({}))
                    memo[v.a] = r
                    I.st.heap[r.a] = DictO({subst_any(kk, m): imp(x) for kk, x in o.items.items()}, None, o.open)
                    return r
                if isinstance(o, InstO):
                    r = I.alloc(InstO(o.cls, {}))
                    memo[v.a] = r
                    I.st.heap[r.a] = InstO(o.cls, {n: imp(x) for n, x in o.attrs.items()}, None, o.ext)
                    return r
                return I.top('import')
            if isinstance(v, Tup):
                return Tup([imp(x) for x in v.items])
            if isinstance(v, BoundV):
                return BoundV(imp(v.self_), v.f)
            return subst(v, m)
        return imp(v)

    def scalar_of(self, j):
        if j is None:
            return None
        if j[0] == 'plain' and isinstance(j[1], Num):
            return j[1].s
        if j[0] == 'in' and isinstance(j[2], Num):
            return j[2].s
        return None

    def value_of(self, j):
        if j is None:
            return None
        if j[0] == 'plain':
            return j[1]
        if j[0] == 'in' and not isinstance(j[2], Ref):
            return j[2]
        return None

    def mat_of(self, j):
        if j is None:
            return None
        if j[0] == 'frozen':
            return j[1].mat
        if j[0] == 'in' and isinstance(j[2], Ref):
            o = j[1].heap.get(j[2].a)
            if isinstance(o, Arr):
                return self.in_state(j[1], lambda: self.I.arr_mat(j[2]))
        return None

    def close(self, cell, pre, ph, u):
        from .interp import subst_in_key
        I, k, K, N = self.I, self.k, self.K, self.N
        if ph[0] == 'arr':
            r = self.close_arr(cell, pre, ph, u)
            if r is not None:
                return r
            return self.rec.final_arr(cell, pre, ph)
        if ph[0] == 'list':
            if u is None:
                return ListO([('any', str(I.fresh_top('list in loop')))], pre.owner)
            at = self.rec.at_map()
            if u[0] == 'ext':
                if not u[1]:
                    return pre
                if len(u[1]) == 1 and u[1][0][0] == 'item':
                    return ListO(pre.segs + (('seg', k, N, subst(u[1][0][1], at)),), pre.owner)
                from .interp import flat_seg
                r = flat_seg(k, N, [(x[0], x[1], subst(x[2], at), subst(x[3], at)) if x[0] == 'seg' else x for x in u[1]])
                if r is not None:
                    return ListO(pre.segs + (r,), pre.owner)
                return ListO(pre.segs + (('any', ('rep', N, subst_in_key(subst_in_key(u[1], at), {k: QI(u[1])}))),), pre.owner)
            return ListO(pre.segs + (('any', ('filter', N, subst_in_key(subst_in_key(u[1], at), {k: QI(u[1])}))),), pre.owner)
        if ph[0] in ('dict', 'inst'):
            I.havoc_addr(cell[1])
            return I.st.heap[cell[1]]
        return self.rec.final_value(cell, pre, ph, u)

    # arrays ----------------------------------------------------------------------------------
    def close_arr(self, cell, pre, ph, u):
        if u is None or u[0] != 'writes':
            return None
        I, k, K, N = self.I, self.k, self.K, self.N
        car = ph[1]
        others = [a for a in self.atoms if a != car]
        res = []
        fam = []
        ref = Ref(cell[1])
        for w in u[1]:
            dep = any(mentions(x, k) for x in w.r[1:] + w.c[1:])
            if any(self.carries(x) for x in w.r[1:] + w.c[1:]):
                return None
            val = w.val
            if not dep:
                if not mentions(val, car):
                    if self.carries_other(val, car):
                        val = subst(val, self.rec.at_map())
                    # last iteration wins
                    if mentions(val, k):
                        val = subst(val, {k: N - 1})
                    res.append((w.bounds, w.r, w.c, val))
                    continue
                # accumulation at a fixed position
                if isinstance(val, Sc):
                    me = entry_atom(car, w)
                    if me is None:
                        return None
                    d = val - me
                    if mentions(d, car):
                        d = self.disjoint_reads(d, car, w, ref, u[1])
                        if d is None:
                            return None
                    if self.carries_other(d, car):
                        d = subst(d, self.rec.at_map())
                    pv = self.pre_entry(pre, ref, w)
                    if pv is None:
                        return None
                    res.append((w.bounds, w.r, w.c, pv + mk_sum(k, N, d)))
                    continue
                try:
                    me = submat(matom(car), *span(w), I.B)
                    d = madd(val, me, I.B, -ONE)
                except (Incomparable, ShapeError):
                    return None
                if mentions(d, car) or self.carries_other(d, car):
                    return None
                e = entry(d, Sc.atom(('bi',)), Sc.atom(('bj',)), self.box(d))
                sm = lift_lam(d.rows, d.cols, mk_sum(k, N, e), I.B)
                try:
                    pm = submat(self.pre_mat(pre, ref), *span(w), I.B)
                    res.append((w.bounds, w.r, w.c, madd(pm, sm, I.B)))
                except (Incomparable, ShapeError):
                    return None
                continue
            # family of writes indexed by k
            if mentions(val, car):
                v2 = self.same_index(val, car, w, pre, ref, u[1])
                if v2 is None:
                    if len(u[1]) == 1:
                        return self.tri_solve(val, car, w, pre, ref)
                    return None
                val = v2
            if self.carries_other(val, car):
                val = subst(val, self.rec.at_map())
            res.append((w.bounds + ((k, N),), w.r, w.c, val))
            fam.append(w)
        # interleaving of several families must not matter
        ws = u[1]
        if len(ws) > 1:
            for i in range(len(ws)):
                for j in range(i):
                    if not self.noninterfering(ws[j], ws[i]):
                        return None
        o = pre
        writes = list(o.writes)
        for b, r, c, v in res:
            if not b:
                writes = [x for x in writes if not (not x.bounds and x.r == r and x.c == c)]
            writes.append(Wr(b, r, c, v))
        return o.with_(writes=tuple(writes))

    def box(self, d):
        B = self.I.B.copy()
        B.low[('bi',)] = 0
        B.low[('bj',)] = 0
        B.extra += [d.rows - 1 - Sc.atom(('bi',)), d.cols - 1 - Sc.atom(('bj',)), self.N - 1 - self.K]
        B.low[self.k] = 0
        return B

    def carries_other(self, x, car):
        return any(a[0] == 'car' and a in self.atoms and a != car for a in walk_atoms(x)) or \
            any(isinstance(y, Opq) and y.k in self.atoms for y in walk_vals(x))

    def pre_mat(self, pre, ref):
        return self.I.arr_mat(ref)

    def pre_entry(self, pre, ref, w):
        B = self.I.st.B
        sv = B.copy()
        for b, n in w.bounds:
            B.low[b] = 0
            B.extra.append(n - 1 - Sc.atom(b))
        try:
            return self.I.arr_entry(ref, w.r[1], w.c[1])
        finally:
            self.I.st.B = sv

    def ranges(self, w, prime=False):
        """bounds of the positions written by family w; fresh loop index when prime"""
        m = {}
        k2 = self.k
        if prime:
            k2 = fresh('p')
            m[self.k] = Sc.atom(k2)
        B = [(k2, self.N)]
        for b, n in w.bounds:
            b2 = fresh('p') if prime else b
            if prime:
                m[b] = Sc.atom(b2)
            B.append((b2, subst(n, m)))
        r = (w.r[0],) + tuple(subst(x, m) for x in w.r[1:])
        c = (w.c[0],) + tuple(subst(x, m) for x in w.c[1:])
        return B, r, c, k2

    def disjoint_pos(self, p1, p2, B):
        for a, b in zip(p1, p2):
            a0, a1 = (a[1], a[1] + 1) if a[0] == 'at' else (a[1], a[2])
            b0, b1 = (b[1], b[1] + 1) if b[0] == 'at' else (b[1], b[2])
            if B.nonneg(b0 - a1) or B.nonneg(a0 - b1):
                return True
        return False

    def bounded(self, *bs):
        B = self.I.B.copy()
        for bl in bs:
            for b, n in bl:
                B.low[b] = 0
                B.extra.append(n - 1 - Sc.atom(b))
        return B

    def noninterfering(self, w1, w2):
        """the final content does not depend on how writes w1 (first) and w2 of different iterations interleave"""
        b1, r1, c1, k1 = self.ranges(w1)
        b2, r2, c2, k2 = self.ranges(w2, True)
        B = self.bounded(b1, b2)
        if self.disjoint_pos((r1, c1), (r2, c2), B):
            return True
        # w1 of a later iteration must not hit w2 of an earlier one: positions equal only when the index is equal
        for a, b in ((w1.r, w2.r), (w1.c, w2.c)):
            if a == b and a[0] == 'at' and mentions(a[1], self.k) and \
                    a[1].t.get(((self.k, 1),)) is not None and \
                    not mentions(a[1] - Sc.atom(self.k) * a[1].t.get(((self.k, 1),)), self.k):
                return True
        return False

    def same_index(self, val, car, w, pre, ref, ws):
        """value of a family write with reads of its own array replaced by the initial contents, when every such
        read is of the position being written or of a position never written"""
        I, k = self.I, self.k
        ok_self = True
        for a in w.r[1:] + w.c[1:]:
            pass
        inj = self.injective(w)
        reads = []
        for a in walk_atoms(val):
            if a[0] == 'ent' and a[1] == car:
                reads.append((('at', a[2]), ('at', a[3])))
            elif a[0] == 'sub' and a[3] == car:
                reads.append((('rng', a[4], a[5]), ('rng', a[6], a[7])))
            elif a == car:
                pass
        # any other use of the whole array
        if count_uses(val, car) != len(reads):
            return None
        for rd in reads:
            if rd == (w.r, w.c) and inj and len(ws) == 1:
                continue
            if rd == (as_rng(w.r), as_rng(w.c)) and inj and len(ws) == 1:
                continue
            bad = False
            for w2 in ws:
                b2, r2, c2, _ = self.ranges(w2, True)
                b1 = [(self.k, self.N)] + list(w.bounds) + [(a, None) for a in ()]
                B = self.bounded(b1, b2)
                if not self.disjoint_pos(rd, (r2, c2), B):
                    bad = True
            if bad:
                return None
        return self.sub_inside(val, {car: self.pre_mat(pre, ref)}, w)

    def sub_inside(self, x, m, w=None):
        """substitution carried out under the ranges of the loop index and of the family indices"""
        st = self.I.st
        sv = st.B
        st.B = self.bounded([(self.k, self.N)] + (list(w.bounds) if w is not None else []))
        try:
            return subst(x, m)
        finally:
            st.B = sv

    def disjoint_reads(self, d, car, w, ref, ws):
        """d with its reads of the array replaced by the initial contents, when none of them is ever written"""
        I = self.I
        reads = reads_of(d, car)
        if count_uses(d, car) != len(reads):
            return None
        for rd, bnds in reads.items():
            for w2 in ws:
                b2, r2, c2, _ = self.ranges(w2, True)
                B = self.bounded([(self.k, self.N)] + list(w.bounds) + list(bnds), b2)
                if not self.disjoint_pos(rd, (r2, c2), B):
                    return None
        return self.sub_inside(d, {car: self.I.arr_mat(ref)}, w)

    def tri_solve(self, val, car, w, pre, ref):
        """row by row fill x[i] = e(i) - sum_{j<i} L(i,j) x[j]: a triangular system"""
        I, k, K, N = self.I, self.k, self.K, self.N
        if w.bounds or w.r[0] != 'at' or w.c[0] != 'at' or not isinstance(val, Sc):
            return None
        a = w.r[1] - K
        if mentions(a, k) or mentions(w.c[1], k) or not a.is_const() or a.cval() not in (0, 1):
            return None
        n = I.N(pre.mat.rows)
        if I.N(a + N - n).t or I.N(pre.mat.cols) != ONE:
            return None
        E, L = ZERO, ZERO
        bi, bj = Sc.atom(('bi',)), Sc.atom(('bj',))
        for mono, q in val.t.items():
            t = Sc({mono: q})
            if not mentions(t, car):
                E = E + t
                continue
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0][0] != 'msum' or len(mono[0][0][1]) != 1:
                # unrolled read of the row before
                return None
            (bv, hi), = mono[0][0][1]
            if I.N(hi - a - K).t:
                return None
            xa = ('ent', car, Sc.atom(bv), w.c[1])
            body = mono[0][0][2]
            co = ZERO
            for m2, q2 in body.t.items():
                if dict(m2).get(xa) != 1:
                    return None
                rest = Sc({tuple(x for x in m2 if x[0] != xa): q2 * q})
                if mentions(rest, car):
                    return None
                co = co + rest
            L = L - subst(co, {bv: bj, k: bi - a})
        if not L.t or self.carries_other(L, car) or self.carries_other(E, car):
            return None
        B = I.B.copy()
        for v in (('bi',), ('bj',)):
            B.low[v] = 0
            B.extra.append(n - 1 - Sc.atom(v))
        try:
            Lm = lift_lam(n, n, L, B)
            if a.t and subst(E, {k: bi - a}) is not None and self.row_is(I.arr_entry(ref, ZERO, ZERO), subst(E, {k: ZERO - a}), B):
                Em = lift_lam(n, 1, subst(E, {k: bi - a}), B)
            elif a.t:
                Em = lift_lam(n - a, 1, subst(E, {k: bi}), B)
                Em = mvstack([submat(I.arr_mat(ref), ZERO, a, ZERO, ONE, I.B), Em], I.B)
            else:
                Em = lift_lam(n, 1, subst(E, {k: bi}), B)
            X = mmul(minv(mfn('ulow', n, n, Lm)), Em, I.B)
        except (Incomparable, ShapeError):
            return None
        return pre.with_(mat=X, writes=())

    def row_is(self, x, y, B):
        return x == y

    def injective(self, w):
        todo = [self.k] + [b for b, _ in w.bounds]
        for x in (w.r, w.c):
            hit = [b for b in todo if any(mentions(y, b) for y in x[1:])]
            if x[0] == 'at' and len(hit) == 1 and x[1].t.get(((hit[0], 1),)) is not None and \
                    not mentions(x[1] - Sc.atom(hit[0]) * x[1].t[((hit[0], 1),)], hit[0]):
                todo.remove(hit[0])
        return not todo


class Recurrences:
    """coupled loop-carried values that have no simpler closed form"""

    def __init__(self, S):
        self.S = S
        self.names = {}        # placeholder atom -> canonical number
        self.closed = {}
        self.solve()

    def upd_expr(self, cell):
        """update of a cell as a scalar / matrix / value / tuple of writes"""
        S = self.S
        pre, ph = S.cells[cell]
        u = S.upd[cell]
        if ph[0] == 'num':
            return S.scalar_of(u)
        if ph[0] == 'refarr':
            m = S.mat_of(u)
            return m
        if ph[0] == 'arr':
            if u is None:
                return None
            if u[0] == 'writes':
                from .interp import canon_writes
                return ('writes', canon_writes(u[1]))
            return u[1]
        if ph[0] in ('str', 'opq'):
            return S.value_of(u)
        return None

    def init_expr(self, cell):
        S = self.S
        I = S.I
        pre, ph = S.cells[cell]
        if ph[0] == 'num':
            return I.N(pre.s)
        if ph[0] == 'refarr':
            return I.arr_mat(pre)
        if ph[0] == 'arr':
            return I.arr_mat(Ref(cell[1]))
        return I.vkey(pre) if isinstance(pre, V) else None

    def solve(self):
        """simple closed forms of scalars at iteration k"""
        S = self.S
        I, k, K, N = S.I, S.k, S.K, S.N
        self.at = {}
        for cell, (pre, ph) in S.cells.items():
            if ph[0] != 'num':
                continue
            s = S.scalar_of(S.upd[cell])
            if s is None:
                continue
            a = ph[1]
            d = s - Sc.atom(a)
            if not d.t:
                self.at[a] = I.N(pre.s)
                continue
            if not S.carries(d):
                k2 = fresh('s')
                body = subst(d, {k: Sc.atom(k2)})
                if mentions(d, k):
                    self.at[a] = I.N(pre.s) + mk_sum(k2, K, body)
                else:
                    self.at[a] = I.N(pre.s) + d * K
                self.closed[a] = I.N(pre.s) + mk_sum(k, N, d)
        for cell, (pre, ph) in S.cells.items():
            if ph[0] == 'refarr':
                m = S.mat_of(S.upd[cell])
                if m is not None and m == matom(ph[1]):
                    self.at[ph[1]] = I.arr_mat(pre)
            elif ph[0] == 'arr' and S.upd[cell] is not None and S.upd[cell][0] == 'writes' and not S.upd[cell][1]:
                self.at[ph[1]] = I.arr_mat(Ref(cell[1]))

    def by_entries(self, e, a):
        """one form for the new value of an array, however it is written: products, one entry at a time"""
        I = self.S.I
        if len(a) != 4:
            return e
        R, C = a[1], a[2]
        try:
            B = I.B.copy()
            for v, n in ((('bi',), R), (('bj',), C)):
                B.low[v] = 0
                B.extra.append(sc(n) - 1 - Sc.atom(v))
            if isinstance(e, Mat):
                x = entry(e, Sc.atom(('bi',)), Sc.atom(('bj',)), B)
            elif isinstance(e, tuple) and len(e) == 2 and e[0] == 'writes' and len(e[1]) == 1:
                x = self.full_write(e[1][0], sc(R), sc(C))
                if x is None:
                    return e
            else:
                return e
            return lift_lam(sc(R), sc(C), x, B)
        except (Incomparable, ShapeError):
            return e

    def full_write(self, w, R, C):
        """entry (bi, bj) when one write sets every entry"""
        if len(w) != 5 or w[0] != 'w' or not isinstance(w[4], Sc):
            return None
        at, used = {}, []
        for x, n, v in ((w[2], R, ('bi',)), (w[3], C, ('bj',))):
            if x[0] != 'at':
                return None
            hit = [j for j in range(len(w[1])) if sc(x[1]) == Sc.atom(('wb', j))]
            if hit:
                if (sc(w[1][hit[0]]) - n).t or hit[0] in used:
                    return None
                used.append(hit[0])
                at[('wb', hit[0])] = Sc.atom(v)
            elif n != ONE or sc(x[1]).t:
                return None
        if len(used) != len(w[1]):
            return None
        return subst(w[4], at)

    def system(self, target):
        """canonical coupled system reachable from the placeholder target: (index of target, system) or None"""
        S = self.S
        atoms, todo = [], [target]
        ups = {}
        while todo:
            a = todo.pop()
            if a in ups:
                continue
            cell = S.atoms[a]
            e = self.upd_expr(cell)
            i = self.init_expr(cell)
            if e is None or i is None:
                return None
            e = subst_any(e, {x: v for x, v in self.at.items()})
            e = self.by_entries(e, a)
            ups[a] = (i, e)
            atoms.append(a)
            for x in walk_any(e):
                if x in S.atoms and x not in ups:
                    todo.append(x)
        blank = {a: blank_of(a) for a in atoms}
        q = QI(*[ups[a][1] for a in atoms])
        order = sorted(atoms, key=lambda a: (a != target, rkey(ups[a][0]), rkey(ren_any(ups[a][1], blank, S.k, q))))
        lv = 1 + max([-1] + [int(x[-1][1:].split('.')[0]) for a in atoms for x in walk_any(ups[a][1])
                             if x[0] == 'car' and str(x[-1]).startswith('#')])
        ren = {a: name_of(a, '%d.%d' % (lv, i)) for i, a in enumerate(order)}
        sysm = tuple((ups[a][0], ren_any(ups[a][1], ren, S.k, q)) for a in order)
        return order.index(target), sysm

    def rec_atom(self, a, n, head):
        sy = self.system(a)
        S = self.S
        if sy is None:
            t = S.I.fresh_top('loop-carried value')
            if len(a) == 4:
                return matom(('top', a[1], a[2], t))
            return Sc.atom(('top', t))
        if len(a) == 4:
            return matom(('fn', a[1], a[2], head, n, sy[0], sy[1]))
        return Sc.atom(('fn', head, n, sy[0], sy[1]))

    def at_map(self):
        """placeholders -> value at the beginning of iteration k"""
        S = self.S
        if not hasattr(self, '_at'):
            self._at = {}
            m = {}
            for cell, (pre, ph) in S.cells.items():
                if ph[0] in ('num', 'refarr', 'arr'):
                    a = ph[1]
                    m[a] = self.at[a] if a in self.at else self.rec_atom(a, S.K, 'recat')
            self._at = m
        return self._at

    def final_map(self, at_last=False):
        """placeholders -> value at the beginning of the last iteration"""
        m = self.at_map()
        return {a: subst(v, {self.S.k: self.S.N - 1}) for a, v in m.items()}

    def last(self, x):
        """expression of the generic iteration evaluated in the last one"""
        S = self.S
        x = subst(x, self.at_map())
        return subst(x, {S.k: S.N - 1})

    def final_value(self, cell, pre, ph, u):
        S = self.S
        I, k, N = S.I, S.k, S.N
        if u is None:
            return I.top('value changed in a loop')
        if ph[0] == 'num':
            s = S.scalar_of(u)
            a = ph[1]
            if s is None:
                v = S.value_of(u)
                if v is not None and not S.carries(v):
                    return subst(v, {k: N - 1})
                return I.top('value changed in a loop')
            if s == Sc.atom(a):
                return pre
            if a in self.closed:
                return Num(self.closed[a], pre.k)
            if not S.carries(s):
                last = subst(s, {k: N - 1})
                if not I.B.nonneg(N - 1):
                    last = last if last == I.N(pre.s) else Sc.atom(('ite', ('eq0', N), I.N(pre.s), last))
                return Num(last, kind_of(u, pre.k))
            # product
            q = s.t
            if len(q) == 1:
                (m, c), = q.items()
                if dict(m).get(a) == 1:
                    rest = Sc({tuple(ae for ae in m if ae[0] != a): c})
                    if not S.carries(rest):
                        return Num(I.N(pre.s) * Sc.atom(('fn', 'prod', N, subst(rest, {k: QI(rest)}))), pre.k)
            other = [x for x in walk_atoms(s) if x in S.atoms and x != a]
            r = self.rec_atom(a, N, 'recfin')
            return Num(r, pre.k)
        if ph[0] == 'refarr':
            m = S.mat_of(u)
            a = ph[1]
            if m is None:
                v = S.value_of(u)
                if v is not None and not S.carries(v):
                    return subst(v, {k: N - 1})
                return S.import_val(u, {**self.final_map(), k: N - 1}) if u[0] == 'in' else I.top('array in loop')
            if m == matom(a):
                return pre
            kind, nd = ph[2], ph[3]
            if u[0] == 'in':
                oo = u[1].heap[u[2].a]
                kind, nd = oo.kind, oo.nd
            if not S.carries(m):
                return I.alloc(Arr(kind, nd, subst(m, {k: N - 1})))
            if m.shape != (a[1], a[2]):
                g = self.growing(m, a, pre)
                if g is not None:
                    return I.alloc(Arr(kind, nd, g))
                return I.top('array of varying shape in a loop')
            try:
                d = madd(m, matom(a), I.B, -ONE)
                if not S.carries(d):
                    e = entry(d, Sc.atom(('bi',)), Sc.atom(('bj',)), S.box(d))
                    sm = lift_lam(d.rows, d.cols, mk_sum(k, N, e), I.B)
                    return I.alloc(Arr(kind, nd, madd(I.arr_mat(pre), sm, I.B)))
            except (Incomparable, ShapeError):
                pass
            return I.alloc(Arr(kind, nd, self.rec_atom(a, N, 'recfin')))
        if ph[0] == 'str':
            v = S.value_of(u)
            me = Opq(*ph[1])
            if isinstance(v, StrV) and v.parts and v.parts[0] == me:
                rest = v.parts[1:]
                if not S.carries(Tup([mk for mk in [StrV(rest)]])):
                    body = subst(StrV(rest), {k: QI(StrV(rest))})
                    return mkstr(list(pre.parts if isinstance(pre, StrV) else [pre.v]) + [Opq('rep', N, body)])
            if v is not None and not S.carries(v):
                return subst(v, {k: N - 1})
            if v == StrV([me]):
                return pre
            return StrV([Opq('top', str(I.fresh_top('string in loop')))])
        # opaque
        v = S.value_of(u)
        if v is None:
            if u[0] in ('in', 'frozen'):
                return S.import_val(u, {**self.final_map(), k: N - 1})
            return I.top('value changed in a loop')
        if v == Opq(*ph[1]):
            return pre
        if not S.carries(v):
            last = subst(v, {k: N - 1})
            if not I.B.nonneg(N - 1) and last != pre:
                return self.maybe(pre, last)
            return last
        return I.top('value changed in a loop')

    def maybe(self, pre, last):
        I = self.S.I
        if I.decide(('lt0', -self.S.N)):
            return last
        return pre

    def growing(self, m, a, pre):
        return None

    def final_arr(self, cell, pre, ph):
        S = self.S
        I = S.I
        a = ph[1]
        u = S.upd[cell]
        if u is not None and u[0] == 'mat' and u[1] is not None:
            m = u[1]
            if m == matom(a):
                return pre
            if not S.carries(m):
                return pre.with_(mat=subst(m, {S.k: S.N - 1}), writes=())
            if m.shape == (a[1], a[2]):
                try:
                    d = madd(m, matom(a), I.B, -ONE)
                    if not S.carries(d):
                        e = entry(d, Sc.atom(('bi',)), Sc.atom(('bj',)), S.box(d))
                        sm = lift_lam(d.rows, d.cols, mk_sum(S.k, S.N, e), I.B)
                        return pre.with_(mat=madd(I.arr_mat(Ref(cell[1])), sm, I.B), writes=())
                except (Incomparable, ShapeError):
                    pass
        return pre.with_(mat=self.rec_atom(a, S.N, 'recfin'), writes=())


def kind_of(u, dflt):
    v = u[1] if u[0] == 'plain' else u[2]
    return v.k if isinstance(v, Num) else dflt


def blank_of(a):
    if len(a) == 4:
        return matom(('car', a[1], a[2], '?'))
    return Sc.atom(('car', '?'))


def name_of(a, i):
    if len(a) == 4:
        return matom(('car', a[1], a[2], '#' + i))
    return Sc.atom(('car', '#' + i))


def ren_any(x, ren, k, q):
    return subst_any(subst_any(x, ren), {k: q})


def subst_any(x, m):
    if isinstance(x, (Sc, Mat)) or hasattr(x, 'asubst'):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def walk_any(x):
    return walk_atoms(x if isinstance(x, (Sc, Mat, tuple)) else (x,))


def walk_vals(x):
    """every value object nested in x"""
    st, out = [x], []
    while st:
        y = st.pop()
        if isinstance(y, V):
            out.append(y)
        if isinstance(y, Sc):
            for m in y.t:
                st.extend(a for a, _ in m)
        elif isinstance(y, Mat):
            for r in y.cells:
                for c in r:
                    for w, q in c.d.items():
                        st.append(q)
                        st.extend(l[0] for l in w)
        elif isinstance(y, tuple):
            st.extend(z for z in y if isinstance(z, (tuple, Sc, Mat)) or hasattr(z, 'akids'))
        elif hasattr(y, 'akids'):
            st.extend(y.akids())
    return out


def entry_atom(car, w):
    if w.r[0] == 'at' and w.c[0] == 'at':
        return Sc.atom(('ent', car, w.r[1], w.c[1]))
    return None


def as_rng(s):
    return s if s[0] == 'rng' else ('rng', s[1], s[1] + 1)


def span(w):
    r, c = as_rng(w.r), as_rng(w.c)
    return r[1], r[2], c[1], c[2]


def reads_of(x, car):
    """positions at which the array is read: {(row, col): bounds of the sum indices in scope}"""
    out = {}

    def go(y, bnds):
        if isinstance(y, Sc):
            for m in y.t:
                for a, _ in m:
                    go(a, bnds)
        elif isinstance(y, Mat):
            for r in y.cells:
                for c in r:
                    for w, q in c.d.items():
                        go(q, bnds)
                        for l in w:
                            go(l[0], bnds)
        elif isinstance(y, tuple):
            if y and y[0] == 'msum':
                b2 = bnds + tuple((v, n) for v, n in y[1])
                for v, n in y[1]:
                    go(n, bnds)
                go(y[2], b2)
                return
            if y and y[0] == 'ent' and y[1] == car:
                out[(('at', y[2]), ('at', y[3]))] = bnds
                go(y[2], bnds)
                go(y[3], bnds)
                return
            if y and y[0] == 'sub' and y[3] == car:
                out[(('rng', y[4], y[5]), ('rng', y[6], y[7]))] = bnds
                return
            for z in y:
                if isinstance(z, (tuple, Sc, Mat)) or hasattr(z, 'akids'):
                    go(z, bnds)
        elif hasattr(y, 'akids'):
            for z in y.akids():
                go(z, bnds)
    go(x, ())
    return out


def count_uses(x, car):
    """number of distinct atoms through which the array is read (an over-approximation of whole-array uses)"""
    n = 0
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Sc):
            for m in y.t:
                st.extend(a for a, _ in m)
        elif isinstance(y, Mat):
            for r in y.cells:
                for c in r:
                    for w, q in c.d.items():
                        st.append(q)
                        st.extend(l[0] for l in w)
        elif isinstance(y, tuple):
            if y and y[0] in ('ent', 'sub') and (y[1] == car or (y[0] == 'sub' and y[3] == car)):
                if y not in seen:
                    seen.add(y)
                    n += 1
                st.extend(z for z in (y[2:] if y[0] == 'ent' else y[4:]) if isinstance(z, (tuple, Sc, Mat)))
                continue
            if y == car:
                n += 1000
                continue
            st.extend(z for z in y if isinstance(z, (tuple, Sc, Mat)) or hasattr(z, 'akids'))
        elif hasattr(y, 'akids'):
            st.extend(y.akids())
    return n
