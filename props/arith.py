"""R07: no integer division whose divisor may be zero."""
import os, sys
from multiprocessing import get_context
from sym import Engine, UNDEF, base_of
from resources import NORETURN

DIV = ('sdiv', 'udiv', 'srem', 'urem')


class Div(Engine):
    """every divisor must be shown not to be 0; a divisor that is an argument or a structure field becomes an obligation of the callers and of the stores into that field"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.seen = set()           # divisions met
        self.args = {}              # function -> {argument number: where it is divided by}
        self.fields = {}            # class -> where it is divided by
        self.zero = {}              # class -> [stores that may leave 0 there]
        self.nargs = 0
        self.prod = {}

    def spec(self, st, inst, name, args):
        if name in NORETURN:
            return []
        return None

    def maybe0(self, st, t):
        lo, hi, ne = self.rng(st, t)
        return lo <= 0 <= hi and 0 not in ne

    def table(self, inst, v):
        """values a field of a constant table holds, rows that are all zero (end markers) left out; None if unknown"""
        d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        if d is None or d.op != 'load' or d.o[0][0] != 'i':
            return None
        g = self.fn.defs.get(d.o[0][1])
        if g is None or g.op != 'getelementptr' or not g.path or g.path[-1][0] != 'f':
            return None
        sn = g.path[-1][1]
        d = self.prog.structs.get(sn) or self.prog.structs.get(sn.split('.', 1)[-1])
        names = [x[0] for x in d['fields']] if d else []
        if g.path[-1][2] not in names:
            return None
        n = names.index(g.path[-1][2])
        o, hops = g.o[0], 0
        while o[0] == 'i' and hops < 4:
            x = self.fn.defs.get(o[1])
            if x is None or x.op != 'getelementptr':
                return None
            o, hops = x.o[0], hops + 1
        if o[0] != 'g':
            return None
        k = self.prog.gkey(o[1], self.fn.tu)
        t = self.prog.globals.get(k)
        if t is None or not t.get('init') or t['init'][0] != 'agg' or k in self.written():
            return None
        vals = []
        for row in t['init'][1]:
            if row[0] != 'agg':
                if row[0] in ('z', 'zero', 'null'):
                    continue
                return None
            cells = row[1]
            if all(c[0] in ('null', 'z', 'zero') or (c[0] == 'c' and c[1] == 0) for c in cells):
                continue
            if n >= len(cells) or cells[n][0] != 'c':
                return None
            vals.append(cells[n][1])
        return vals or None

    def written(self):
        """globals some function stores into"""
        if not hasattr(self, '_written'):
            w = set()
            for f in self.prog.funcs.values():
                for i in f.insts():
                    if i.op == 'store':
                        o, n = i.o[1], 0
                        while o[0] == 'i' and n < 6:
                            d = f.defs.get(o[1])
                            if d is None or d.op not in ('getelementptr', 'bitcast'):
                                break
                            o, n = d.o[0], n + 1
                        if o[0] == 'g':
                            w.add(self.prog.gkey(o[1], f.tu))
            self._written = w
        return self._written

    def load(self, st, addr, sz, inst):
        r = super().load(st, addr, sz, inst)
        if inst.op == 'load' and r[0] == 's':
            t = self.table(inst, ('i', inst.id))
            if t:
                self.setfact(st, r, min(t), max(t), frozenset([0]) - frozenset(t))
        return r

    def source(self, st, t):
        """the argument or field a value comes from unchanged"""
        while t[0] == 'op' and t[1] in ('zext', 'sext', 'trunc'):
            t = t[2]
        if t[0] == 's' and t[1] == 'a':
            return ('arg', t[2])
        for (b, o), (x, z, cl) in st.mem.items():
            if x == t and isinstance(cl, str) and cl.startswith('struct.') and '.' in cl[7:]:
                return ('field', cl)
        return None

    def divisor(self, st, inst, t, what, where):
        if t == UNDEF or not self.maybe0(st, t):
            return
        s = self.source(st, t)
        if s is None:
            self.report('div', inst, what, st, key=what)
        elif s[0] == 'arg':
            self.args.setdefault(self.fn.key, {}).setdefault(s[1], where)
        else:
            self.fields.setdefault(s[1], where)

    def on_arith(self, st, i, a, b):
        if i.op in DIV:
            self.seen.add((self.fn.key, i.id))
            self.divisor(st, i, b, 'the divisor may be 0', '%s (%s)' % (self.fn.name, i.loc()))
            if i.op in ('sdiv', 'srem') and i.o[1][0] != 'c':
                low = {'i32': -(1 << 31), 'i64': -(1 << 63)}.get(i.ty)
                la, ha, na = self.rng(st, a)
                lb, hb, nb = self.rng(st, b)
                if low is not None and lb <= -1 <= hb and -1 not in nb and la <= low and low not in na and self.source(st, b) is None:
                    self.report('div', i, 'the smallest integer may be divided by -1 here', st, key='overflow')
        if i.op in ('mul', 'shl'):
            # a product of such fields and of what is not 0 (wrapping around aside)
            cl = set()
            for x, v in ((a, i.o[0]), (b, i.o[1])) if i.op == 'mul' else ((a, i.o[0]),):
                if self.maybe0(st, x) and not self.more(v):
                    s = self.source(st, x)
                    cl.add(s[1] if s and s[0] == 'field' else None)
            self.prod.setdefault((self.fn.key, i.id), set()).update(cl)

    def more(self, v):
        """an unsigned quotient, length or the like plus a positive constant"""
        d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        if d is None or d.op != 'add':
            return False
        for x, y in ((d.o[0], d.o[1]), (d.o[1], d.o[0])):
            e = self.fn.defs.get(x[1]) if x[0] == 'i' else None
            if y[0] == 'c' and y[1] > 0 and e is not None and (e.op in ('udiv', 'urem', 'zext', 'lshr') or e.callee == 'strlen'):
                return True
        return False

    def on_call(self, st, inst, name, args):
        f = self.prog.resolve(name, self.fn.tu) if name else None
        for n, w in (self.args.get(f.key, {}) if f is not None else {}).items():
            if n < len(args):
                self.nargs += 1
                self.divisor(st, inst, args[n], 'argument %d of %s may be 0 and is divided by in %s' % (n + 1, name, w.split(' (')[0]), w)

    def on_store(self, st, inst, base, off, t):
        c = self.cls_of(inst, inst.o[1]) if inst.op == 'store' else None
        if isinstance(c, str) and c.startswith('struct.') and t != UNDEF and self.maybe0(st, t):
            s = self.source(st, t)
            v = inst.o[0]
            if v[0] == 'i' and self.prod.get((self.fn.key, v[1]), {None}) <= {c}:
                return
            if c in GROWS and self.const(st, t) != 0:
                return
            self.zero.setdefault(c, []).append((inst.loc(), self.fn.name, s))


# fields whose value nothing in the program decides
SYSTEM = {'struct._COORD.X': 'console sizes and positions, delivered by Windows', 'struct._COORD.Y': 'console sizes and positions, delivered by Windows'}
# fields that start positive and only grow: only storing 0 itself is a violation
GROWS = {'struct.ESTR.len': 'capacity of a dynamic string'}
WAIVED = {('fill_context', 'the divisor may be 0'): 'sum of the display widths of a row of a constant table of this tool'}


def guarded(f, i):
    """a division in a function the engine did not finish: a dominating test of the same value, or of what was loaded from the same place"""
    def place(v, n=0):
        if n > 8:
            return None
        if v[0] == 'c':
            return ('c', v[1])
        if v[0] != 'i':
            return tuple(v[:3])
        d = f.defs.get(v[1])
        if d is None:
            return ('arg', v[1])
        if d.op == 'load':
            return ('load', place(d.o[0], n + 1))
        if d.op == 'getelementptr':
            return ('gep', place(d.o[0], n + 1), repr(d.path))
        if d.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            return place(d.o[0], n + 1)
        return ('v', v[1])
    want = place(i.o[1])
    dom = f.dominators()
    for b in f.blocks:
        t = b.insts[-1]
        if t.op != 'br' or not t.o or t.o[0][0] != 'i' or len(set(t.s)) != 2:
            continue
        c = f.defs.get(t.o[0][1])
        if c is None or c.op != 'icmp' or place(c.o[0]) != want or c.o[1][0] != 'c':
            continue
        k = c.o[1][1]
        good = {('eq', 0): 1, ('ne', 0): 0, ('sgt', 0): 0, ('ugt', 0): 0, ('sle', 0): 1, ('slt', 1): 1, ('sge', 1): 0}.get((c.pred, k))
        if good is None:
            continue
        s = t.s[good]
        if s in dom.get(i.blk, ()) and len(f.blocks[s].pred) == 1 or s == i.blk and len(f.blocks[s].pred) == 1:
            return True
    return False


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    e = Div(p)
    e.run()
    sites = [(f, i) for f in p.funcs.values() for i in f.insts() if i.op in DIV and i.o[1][0] != 'c']
    rest, unseen = [], []
    live = {f.key: f.reachable() if hasattr(f, 'reachable') else None for f, _ in sites}
    for f, i in sites:
        if (f.key, i.id) in e.seen:
            continue
        if guarded(f, i):
            unseen.append('%s %s' % (f.name, i.loc()))
        else:
            rest.append((f.name, i.loc()))
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), len(sites), e.nargs, e.fields, e.zero, rest, unseen


def run(pid, ctx):
    import build
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'arith.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, n, na, fields, zero, rest, unseen in res:
        out = []
        for k, r in reps:
            if (r['func'], k[2]) in WAIVED:
                continue
            out.append((r['func'], k[2], r['loc'], r['detail'], 'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:])))))
        for c, w in fields.items():
            if c in SYSTEM:
                continue
            for loc, fn, src in zero.get(c, ()):
                if src and src[0] == 'field' and src[1] == c:
                    continue
                out.append((fn, c, loc, 'stores a value that may be 0 in %s, which %s divides by' % (c, w), cfg))
        for fn, loc in rest:
            out.append((fn, 'unguarded', loc, 'the divisor is not tested before the division', cfg))
        if cfg == 'selftest':
            hit = {x[0] for x in out}
            import re
            src = open(os.path.join(ctx.verif, 'selftest', 'arith.c')).read()
            for x in re.findall(r'\b(bad_\w+)\(', src):
                if x not in hit:
                    ctx.broken('self-test: %s not reported' % x)
            for x in hit:
                if not x.startswith('bad_'):
                    ctx.broken('self-test: %s reported' % x)
            continue
        ctx.need(n, 6, '%s: divisions by something that is not a constant' % cfg)
        for fn, k, loc, msg, more in out:
            ctx.violation('%s %s' % (fn, k), loc, '%s: %s' % (fn, msg), more)
        cov[cfg] = dict(divisions=n, argument_obligations=na, field_obligations=fields, decided_by_dominating_test=unseen, path_states=stats.get('visits', 0), cut_short=inc)
    ctx.cov(waived=['%s: %s' % (k[0], v) for k, v in WAIVED.items()] + ['%s: %s' % x for x in SYSTEM.items()] + ['%s: only a store of 0 itself is reported, %s' % x for x in GROWS.items()], **cov)
