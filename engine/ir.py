"""Program model over the irfacts JSON of one configuration."""
import json, os, pickle
from collections import defaultdict
import build as _b


class Inst:
    __slots__ = ('id', 'op', 'ty', 'o', 'callee', 'calleev', 'line', 'oline', 'infn', 'lf', 'name', 'nty',
                 'phi', 's', 'sw', 'path', 'set', 'pred', 'aty', 'size', 'sz', 'frm', 'noret', 'blk', 'fn', 'vla')

    def __init__(self, d, blk, fn):
        g = d.get
        self.id = d['id']; self.op = d['op']; self.ty = g('ty'); self.o = g('o', [])
        self.callee = g('callee'); self.calleev = g('calleev')
        self.line = g('l', 0); self.oline = g('ol'); self.infn = g('in'); self.lf = g('lf')
        self.name = g('n'); self.nty = g('nty'); self.phi = g('phi'); self.s = g('s'); self.sw = g('sw')
        self.path = g('path'); self.set = g('set'); self.pred = g('pred'); self.aty = g('aty')
        self.size = g('size'); self.sz = g('sz'); self.frm = g('from'); self.noret = g('noret', False)
        self.vla = g('vla', False)
        self.blk = blk; self.fn = fn

    def loc(self):
        f = self.lf or self.fn.tu
        s = '%s:%d' % (f, self.line)
        if self.oline:
            s += ' (inlined helper %s, called at line %d)' % (self.infn, self.oline)
        return s

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.id, self.op, self.callee or '', self.line)


class Block:
    __slots__ = ('id', 'insts', 'succ', 'pred', 'fn')

    def __init__(self, d, fn):
        self.id = d['id']; self.fn = fn
        self.insts = [Inst(x, d['id'], fn) for x in d['i']]
        self.succ = []; self.pred = []


class Func:
    def __init__(self, d, tu):
        self.tu = tu; self.name = d['name']; self.internal = d['internal']; self.vararg = d['vararg']
        self.ret = d['ret']; self.line = d.get('line', 0); self.dity = d.get('dity', '')
        self.args = d['args']
        self.blocks = [Block(b, self) for b in d['bbs']]
        for b in self.blocks:
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = list(dict.fromkeys(t.s))
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys(x[1] for x in t.sw))
            for s in b.succ:
                self.blocks[s].pred.append(b.id)
        self.defs = {}
        for b in self.blocks:
            for i in b.insts:
                self.defs[i.id] = i
        self._live = None; self._rpo = None; self._uses = None

    @property
    def key(self):
        return self.tu + ':' + self.name

    def __repr__(self):
        return '<fn %s>' % self.key

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self, name=None):
        for i in self.insts():
            if i.op in ('call', 'invoke') and (name is None or i.callee == name):
                yield i

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.blocks[0].succ))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s].succ)))
                        break
                else:
                    order.append(b)
                    stack.pop()
            self._rpo = order[::-1]
        return self._rpo

    def uses(self):
        """value id -> list of instructions using it"""
        if self._uses is None:
            u = defaultdict(list)
            for i in self.insts():
                for v in operand_ids(i):
                    u[v].append(i)
            self._uses = u
        return self._uses

    def live_in(self):
        """per block: SSA ids live on entry (phi results are defined on entry edges)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]; df = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
            for b in self.blocks:
                for i in b.insts:
                    if i.op == 'phi':
                        for v, p in i.phi:
                            for x in ids_of(v):
                                phiuse[p].add(x)
                        df[b.id].add(i.id)
                    else:
                        for x in operand_ids(i):
                            if x not in df[b.id]:
                                use[b.id].add(x)
                        df[b.id].add(i.id)
            lin = [set(u) for u in use]
            ch = True
            order = self.rpo()[::-1]
            while ch:
                ch = False
                for b in order:
                    out = set(phiuse[b])
                    for s in self.blocks[b].succ:
                        out |= lin[s]
                    new = use[b] | (out - df[b])
                    if new != lin[b]:
                        lin[b] = new
                        ch = True
            # phi results count as live-in of their own block when used later
            res = []
            for b in self.blocks:
                s = set(lin[b.id])
                for i in b.insts:
                    if i.op == 'phi':
                        s.add(i.id)
                res.append(s)
            self._live = res
        return self._live

    def reach(self, start, avoid=()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += self.blocks[b].succ
        return seen

    def dominators(self):
        rpo = self.rpo()
        idx = {b: k for k, b in enumerate(rpo)}
        full = set(rpo)
        dom = {b: set(full) for b in rpo}
        dom[rpo[0]] = {rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in self.blocks[b].pred if p in idx]
                new = set.intersection(*ps) | {b} if ps else {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        return dom

    def loops(self):
        """natural loops: list of (header, set of blocks)"""
        dom = self.dominators()
        res = {}
        for b in self.rpo():
            for s in self.blocks[b].succ:
                if s in dom[b]:
                    body = {s}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [p for p in self.blocks[x].pred if p in dom]
                    res.setdefault(s, set()).update(body)
        return sorted(res.items())


def ids_of(v):
    """SSA ids mentioned in an operand"""
    k = v[0]
    if k in ('i', 'a'):
        return [v[1]]
    if k == 'gep':
        r = ids_of(v[1])
        return r
    return []


def operand_ids(i):
    r = []
    if i.op == 'phi':
        for v, p in i.phi:
            r += ids_of(v)
        return r
    for v in i.o:
        r += ids_of(v)
    if i.path:
        for st in i.path:
            if st[0] == 'x':
                r += ids_of(st[1])
    if i.calleev:
        r += ids_of(i.calleev)
    return r


class Program:
    def __init__(self, cfg, dir=None):
        self.cfg = cfg
        d = dir or _b.facts_dir(cfg)
        self.dir = d
        self.units = open(os.path.join(d, 'units.lst')).read().split()
        self.funcs = {}          # key -> Func
        self.ext = defaultdict(list)    # external name -> [Func]
        self.static = {}
        self.globals = {}        # (tu or '', name) -> dict
        self.structs = {}
        self.enums = {}
        self.inlined = {}
        self.decls = defaultdict(dict)
        for u in self.units:
            j = json.load(open(os.path.join(d, u.replace('/', '__') + '.json')))
            self.inlined[u] = j['inlined']
            for k, v in j['structs'].items():
                self.structs.setdefault(k, v)
            self.enums.update(j['enums'])
            for n, va, ty in j['decls']:
                self.decls[n][u] = ty
            for fd in j['funcs']:
                f = Func(fd, u)
                self.funcs[f.key] = f
                if f.internal:
                    self.static[(u, f.name)] = f
                else:
                    self.ext[f.name].append(f)
            for g in j['globals']:
                g['tu'] = u
                if g['internal']:
                    self.globals[(u, g['name'])] = g
                elif not g['decl'] or ('', g['name']) not in self.globals:
                    if not g['decl'] or True:
                        o = self.globals.get(('', g['name']))
                        if o is None or o['decl']:
                            self.globals[('', g['name'])] = g
        self._cg = None
        self.drop_inlined()
        if cfg == 'windows':
            self.hide_libcu8()

    # libcu8 replaces these C library functions one for one: its users see the C library,
    # its own code is analysed for itself
    CU8 = {'libcu8_' + n: n for n in ('fgetc', 'fgets', 'fprintf', 'vfprintf', 'fputc', 'fputs', 'fopen', 'open', 'sopen', 'creat', 'lseek',
                                      'fseek', 'commit', 'fflush', 'dup', 'dup2', 'remove', 'rename', 'unlink', 'chmod', 'getcwd', 'chdir',
                                      'rmdir', 'mkdir', 'readdir', 'closedir', 'opendir')}

    def hide_libcu8(self):
        def fix(v):
            if isinstance(v, list):
                if len(v) > 1 and v[0] == 'fn' and v[1] in self.CU8:
                    v[1] = self.CU8[v[1]]
                for x in v:
                    fix(x)
        for f in self.funcs.values():
            if f.tu.startswith('libcu8/'):
                continue
            for i in f.insts():
                if i.callee in self.CU8:
                    self.decls[self.CU8[i.callee]].setdefault(f.tu, self.decls.get(i.callee, {}).get(f.tu))
                    i.callee = self.CU8[i.callee]
                fix(i.o)
                if i.phi:
                    fix(i.phi)

    def drop_inlined(self):
        """helpers that were inlined wherever they are called and that nothing else mentions"""
        cand = {(u, n) for u, ns in self.inlined.items() for n in ns}
        if not cand:
            return
        used = set()
        def visit(v, tu):
            if isinstance(v, (list, tuple)):
                if len(v) > 1 and v[0] == 'fn':
                    used.add(v[1])
                for x in v:
                    visit(x, tu)
        for f in self.funcs.values():
            for i in f.insts():
                if i.callee:
                    used.add(i.callee)
                for v in i.o:
                    visit(v, f.tu)
                for v, _ in i.phi or ():
                    visit(v, f.tu)
        for g in self.globals.values():
            visit(g.get('init'), None)
        for u, n in cand:
            if n not in used:
                f = self.funcs.pop(u + ':' + n, None)
                if f is not None:
                    self.static.pop((u, n), None)
                    self.ext[n] = [x for x in self.ext.get(n, []) if x is not f]

    # programs that link the units together (names may repeat between programs)
    PROG = (('pbat', ('microgettext/', 'libpbat/', 'libfasteval/', 'pbat/', 'libcu8/')),
            ('tea', ('libpbat/', 'tea/', 'libcu8/')), ('dump', ('dump/',)), ('pbatize', ('pbatize/', 'libpbat/', 'libcu8/')),
            ('modules', ('modules/',)))

    def group(self, tu):
        return tu.split('/')[0]

    def resolve(self, name, tu):
        f = self.static.get((tu, name))
        if f:
            return f
        c = self.ext.get(name, [])
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        g = self.group(tu)
        for f in c:
            if self.group(f.tu) == g:
                return f
        for f in c:
            if f.tu.startswith('libpbat/'):
                return f
        return c[0]

    def glob(self, name, tu):
        return self.globals.get((tu, name)) or self.globals.get(('', name))

    def gkey(self, name, tu):
        return (tu, name) if (tu, name) in self.globals else ('', name)

    def all(self, *prefixes):
        for f in self.funcs.values():
            if not prefixes or f.tu.startswith(prefixes):
                yield f

    def fn(self, name):
        c = self.ext.get(name, [])
        if c:
            return c[0]
        for (u, n), f in self.static.items():
            if n == name:
                return f
        return None

    def address_taken(self):
        """functions whose address is used other than as a direct callee -> set of keys"""
        r = set()

        def visit(v, tu):
            if not isinstance(v, list) or not v:
                return
            if v[0] == 'fn':
                f = self.resolve(v[1], tu)
                if f:
                    r.add(f.key)
            elif v[0] == 'agg':
                for x in v[1]:
                    visit(x, tu)
            elif v[0] in ('cast',):
                visit(v[2], tu)
            elif v[0] == 'gep':
                visit(v[1], tu)
        for f in self.funcs.values():
            for i in f.insts():
                for v in i.o:
                    visit(v, f.tu)
                if i.phi:
                    for v, _ in i.phi:
                        visit(v, f.tu)
        for g in self.globals.values():
            if 'init' in g:
                visit(g['init'], g['tu'])
        return r

    def callees(self, f):
        """[(inst, Func or None, name)]"""
        r = []
        for i in f.calls():
            if i.callee:
                r.append((i, self.resolve(i.callee, f.tu), i.callee))
            else:
                r.append((i, None, None))
        return r

    def indirect(self, inst, nargs):
        """possible targets of an indirect call: address-taken functions of that shape in the same program"""
        if getattr(self, '_at', None) is None:
            self._at = self.address_taken()
        g = self.group(inst.fn.tu)
        sep = {'tea', 'dump', 'pbatize', 'modules'}
        r = []
        for k in self._at:
            f = self.funcs[k]
            if len(f.args) != nargs or (inst.ty or 'void') != f.ret:
                continue
            h = self.group(f.tu)
            if h != g and (h in sep or g in sep) and not (h == 'libpbat' or g == 'libpbat'):
                continue
            r.append(f)
        return r

    def callgraph(self):
        if self._cg is None:
            self._cg = {k: set(x.key for _, x, _ in self.callees(f) if x) for k, f in self.funcs.items()}
        return self._cg

    def sccs(self):
        """functions in bottom-up order; list of lists of keys"""
        cg = self.callgraph()
        idx, low, on, st, out = {}, {}, set(), [], []
        c = [0]
        import sys
        sys.setrecursionlimit(10000)

        def dfs(v):
            idx[v] = low[v] = c[0]; c[0] += 1
            st.append(v); on.add(v)
            for w in sorted(cg[v]):
                if w not in idx:
                    dfs(w); low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v:
                        break
                out.append(comp)
        for v in sorted(cg):
            if v not in idx:
                dfs(v)
        return out

    def size_cls(self, n):
        """field classes of the structure types of n bytes (None of them: empty)"""
        if not hasattr(self, '_szc'):
            self._szc = {}
            def fields(name, seen):
                out = set()
                for f, off, sz, ty in self.structs[name]['fields']:
                    out.update(('struct.%s.%s' % (name, f), 'union.%s.%s' % (name, f)))
                    t = ty.split('[')[0].strip()
                    for pre in ('struct ', 'union ', 'const '):
                        if t.startswith(pre):
                            t = t[len(pre):]
                    if t in self.structs and t not in seen:
                        out |= fields(t, seen | {t})
                return out
            for name, d in self.structs.items():
                self._szc.setdefault(d['size'], set()).update(fields(name, {name}))
            self._szc = {k: frozenset(v) for k, v in self._szc.items()}
        return self._szc.get(n, frozenset())

    def argtypes(self, inst):
        """types of the arguments of a direct call to a declared function; beyond '...' the operand decides"""
        ty = self.decls.get(inst.callee, {}).get(inst.fn.tu)
        if ty is None:
            f = self.resolve(inst.callee, inst.fn.tu) if inst.callee else None
            return [a[1] for a in f.args] if f else []
        a = [x.strip() for x in ty[ty.index('(') + 1:ty.rindex(')')].split(',') if x.strip()]
        if a and a[-1] == '...':
            a = a[:-1]
            for v in inst.o[len(a):]:
                d = inst.fn.defs.get(v[1]) if v[0] == 'i' else None
                a.append(d.ty if d is not None and d.ty else '?')
        return a

    def pick(self, name):
        fs = self.ext.get(name) or [f for (u, n), f in self.static.items() if n == name]
        return fs


def dump(f, out=None):
    import sys
    out = out or sys.stdout
    print('==', f.key, f.args, f.dity, file=out)
    for b in f.blocks:
        print(' b%d: pred %s' % (b.id, b.pred), file=out)
        for i in b.insts:
            print('   %%%d L%d %s %s %s %s' % (i.id, i.line, i.op, i.callee or i.pred or '', i.phi or i.o,
                  i.path or i.sw or i.s or i.name or ''), file=out)


if __name__ == '__main__':
    import sys
    p = Program(sys.argv[1])
    for n in sys.argv[2:]:
        for f in p.funcs.values():
            if f.name == n:
                dump(f)
