"""R06: what is written into a buffer or table of fixed size fits."""
import os, re, sys
from multiprocessing import get_context
from sym import UNDEF, ZERO, INF, base_of, depth
from typestate import Flagged
from resources import NORETURN
from props.formats import CONV

# callee -> (destination, kind, other operands)
SIZED = {'snprintf': (0, 1), '_snprintf': (0, 1), 'vsnprintf': (0, 1), '_vsnprintf': (0, 1), 'fgets': (0, 1), 'read': (1, 2), '_read': (1, 2), 'recv': (1, 2),
         'getcwd': (0, 1), '_getcwd': (0, 1), 'readlink': (1, 2), 'strftime': (0, 1), 'gethostname': (0, 1), 'strncpy': (0, 2), 'gettimeofday': None,
         'GetModuleFileNameA': (1, 2), 'GetCurrentDirectoryA': (1, 0), 'GetTempPathA': (1, 0), 'GetConsoleTitleA': (0, 1), 'GetFullPathNameA': (2, 1),
         'GetEnvironmentVariableA': (1, 2), 'pread': (1, 2), 'strerror_r': (1, 2), 'ReadFile': (1, 2)}
WIDE = {'GetModuleFileNameW': (1, 2), 'GetCurrentDirectoryW': (1, 0), 'GetTempPathW': (1, 0), 'GetConsoleTitleW': (0, 1), 'wcsncpy': (0, 2), 'fgetws': (0, 1),
        'GetFullPathNameW': (2, 1), '_snwprintf': (0, 1), 'swprintf': (0, 1), 'ReadConsoleW': (1, 2), 'ReadConsoleA': None}
SIZED = {k: v for k, v in SIZED.items() if v}
WIDE = {k: v for k, v in WIDE.items() if v}
UNTERMINATED = ('strncpy', 'readlink')
GENERATED = ('parser.c', 'scanner.c', 'parser.y', 'scanner.l')


def norm(n):
    n = n or ''
    for p in ('__mingw_', '__isoc99_', '__builtin_'):
        if n.startswith(p):
            n = n[len(p):]
    return n


class Lin:
    """constant + sum of terms"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c; self.t = t or {}

    def add(self, o, k=1):
        t = dict(self.t)
        for x, n in o.t.items():
            t[x] = t.get(x, 0) + k * n
            if not t[x]:
                del t[x]
        return Lin(self.c + k * o.c, t)

    def scale(self, k):
        return Lin(self.c * k, {x: n * k for x, n in self.t.items()} if k else {})

    def plus(self, n):
        return Lin(self.c + n, self.t)


class Bounds(Flagged):
    DEEP = 7

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.index = set(); self.writes = set(); self.obl = {}; self.sites = {}; self.idx_open = set(); self.wr_open = set(); self.nobl = 0; self.terms = set(); self.npairs = set(); self.atleast = {}; self.iobl = {}; self.elements = set(); self.rounded = set()

    # ---------------------------------------------------------------- numbers
    def lin(self, st, t):
        c = self.const(st, t)
        if c is not None:
            return Lin(c)
        if t[0] == 'op':
            if t[1] in ('add', 'sub'):
                return self.lin(st, t[2]).add(self.lin(st, t[3]), 1 if t[1] == 'add' else -1)
            if t[1] == 'mul' and t[3][0] == 'k':
                return self.lin(st, t[2]).scale(t[3][1])
            if t[1] == 'shl' and t[3][0] == 'k' and 0 <= t[3][1] < 32:
                return self.lin(st, t[2]).scale(1 << t[3][1])
            if t[1].startswith(('zext', 'sext', 'trunc')) and t[1] not in ('trunc8',):
                f = st.facts.get(t)
                if f is not None and (f[1] < INF or f[0] > 0) and self.rng(st, t[2])[1] > f[1]:
                    return Lin(0, {t: 1})
                return self.lin(st, t[2])
        return Lin(0, {t: 1})

    def islen(self, t):
        return t[0] == 's' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'len' or t[0] == 'op' and t[1] == 'strlen'

    def below(self, st, x, y):
        """is x known to be less than y (1), or not greater (0)?"""
        for p, a, b, r in (('lt', x, y, 1), ('le', x, y, 0), ('gt', y, x, 1), ('ge', y, x, 0)):
            for u in 'su':
                f = st.facts.get(('cmp', u + p, a, b))
                if f is not None and f[0] == f[1] == 1:
                    return r
        for p, a, b, r in (('le', y, x, 1), ('lt', y, x, 0), ('ge', x, y, 1), ('gt', x, y, 0)):
            for u in 'su':
                f = st.facts.get(('cmp', u + p, a, b))
                if f is not None and f[0] == f[1] == 0:
                    return r
        return None

    def inequalities(self, st):
        """(A, B, k): A + k <= B, from the comparisons decided on this path"""
        r = []
        for t, f in st.facts.items():
            if t[0] == 'op' and t[1] in ('add', 'sub') and depth(t) < 6:
                l = self.lin(st, t)
                if len(l.t) > 1:
                    if f[1] < INF:
                        r.append((l, Lin(f[1]), 0))
                    if f[0] > -INF:
                        r.append((Lin(f[0]), l, 0))
                continue
            if t[0] != 'cmp' or f[0] != f[1] or t[1] in ('eq', 'ne') or f[0] not in (0, 1):
                continue
            p = t[1][1:] if t[1][0] in 'su' else t[1]
            if t[2] == UNDEF or t[3] == UNDEF or depth(t[2]) > 6 or depth(t[3]) > 6:
                continue
            a, b = self.lin(st, t[2]), self.lin(st, t[3])
            if not f[0]:
                p = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(p)
            if p in ('lt', 'le'):
                r.append((a, b, 1 if p == 'lt' else 0))
            elif p in ('gt', 'ge'):
                r.append((b, a, 1 if p == 'gt' else 0))
        return r

    def most(self, st, l, deep=3):
        """greatest value, INF if unknown"""
        r = self.most1(st, l)
        if r <= 0 or deep == 0 or len(l.t) < 1:
            return r
        for a, b, k in self.inequalities(st):
            # l <= l + (b - a - k) when that removes a term
            d = l.add(b).add(a, -1).plus(-k)
            if (len(d.t) < len(l.t) or len(d.t) == len(l.t) and b.t and set(b.t) & set(l.t) - set(d.t)) and (set(a.t) | set(b.t)) & set(l.t):
                r = min(r, self.most(st, d, deep - 1))
                if r <= 0:
                    break
        return r

    def starts(self, st, t):
        """is the first character of the text known to be there?"""
        m = st.mem.get((t, 0))
        return m is not None and m[1] == 1 and m[0] not in (UNDEF, ('any',)) and self.decide(st, ('cmp', 'ne', m[0], ('k', 0))) == 1

    def most1(self, st, l):
        if len(l.t) >= 2:
            for x in [x for x, n in l.t.items() if n == 1]:
                for y in [y for y, n in l.t.items() if n == -1]:
                    b = self.below(st, x, y)
                    if b is not None:
                        return self.most1(st, Lin(l.c - b, {z: n for z, n in l.t.items() if z not in (x, y)}))
        r = l.c
        for x, n in l.t.items():
            lo, hi, _ = self.rng(st, x)
            if self.islen(x):
                lo = max(lo, 0)
                if lo == 0 and n < 0 and x[0] == 'op' and self.starts(st, x[2]):
                    lo = 1
            v = hi if n > 0 else lo
            if abs(v) >= INF:
                return INF
            r += n * v
        return r

    def fits(self, st, need, have):
        """True, None (cannot be judged), or what it may exceed it by"""
        d = need.add(have, -1)
        m = self.most(st, d)
        if m <= 0:
            return True
        if m < INF and self.most1(st, d) >= INF:
            return m        # the comparisons made leave room for it
        # a capacity or a shift that is not understood decides nothing
        for x, n in d.t.items():
            lo, hi, _ = self.rng(st, x)
            if n < 0 and not self.islen(x) and not (x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'size'):
                return None
            if n > 0 and hi >= INF and not self.islen(x):
                return None
        return m if m < INF else 'any length'

    # a text and the size of the memory it lies in, kept side by side
    SIZES = {('struct.ESTR', 'str'): ('len', 8, 4)}

    def sized_field(self, v):
        d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        if d is not None and d.op == 'getelementptr' and d.path and d.path[-1][0] == 'f':
            return tuple(d.path[-1][1:3])
        return None

    def step(self, st, i):
        if i.op == 'load' and self.sized_field(i.o[0]) in self.SIZES:
            t = self.oper(st, i.o[0])
            super().step(st, i)
            v = st.val[i.id]
            t = self.oper(st, i.o[0])
            b, o = (t[1], t[2]) if t[0] == 'p' else (t, 0)
            if v[0] == 's' and o != '?' and (v, '#s') not in st.mem:
                n, off, sz = self.SIZES[self.sized_field(i.o[0])]
                off += o
                m = st.mem.get((b, off))
                if m is None or m[1] != sz:
                    # a size kept beside the text has changed here: it is no longer the one that was compared
                    k = 'nsize' if any(isinstance(f, tuple) and f[:3] == ('t', 'pair', b) for f in st.flags) else 'size'
                    x = ('s', (k, i.id), 0)
                    self.age(st, x)
                    st.facts[x] = (1, INF, frozenset())
                    st.mem[(b, off)] = (x, sz, 'raw%d' % sz)
                    m = st.mem[(b, off)]
                if m[0] != UNDEF:
                    st.mem[(v, '#s')] = (m[0], 0, '*')
            return [st]
        if i.op in ('load', 'store') and i.sz and not self.generated():
            self.element(st, i, i.o[1 if i.op == 'store' else 0])
        if i.op == 'store' and self.sized_field(i.o[1]) is not None:
            for (sn, fl), (ln, off, sz) in self.SIZES.items():
                if self.sized_field(i.o[1]) in ((sn, fl), (sn, ln)):
                    t = self.oper(st, i.o[1])
                    b, o = (t[1], t[2]) if t[0] == 'p' else (t, 0)
                    if o != '?':
                        st.flags = st.flags | {('t', 'pair', b, o if self.sized_field(i.o[1])[1] == fl else o - off, off)}
        r = super().step(st, i)
        if i.op in ('add', 'sub', 'mul') and len(r) == 1:
            s = r[0]
            v = s.val.get(i.id)
            a, b = self.oper(s, i.o[0]), self.oper(s, i.o[1])
            if v == ('s', i.id, 0) and a != UNDEF and b != UNDEF and base_of(a) != v and base_of(b) != v:
                if i.op != 'mul' and i.blk not in self.inloop and depth(a) < 6 and depth(b) < 6:
                    s.val[i.id] = ('op', i.op, a, b)
                elif not self.feeds(i):
                    ra, rb = self.rng(s, a), self.rng(s, b)
                    if all(abs(x) < INF for x in ra[:2] + rb[:2]):
                        if i.op == 'sub':
                            rb = (-rb[1], -rb[0])
                        e = [x * y for x in ra[:2] for y in rb[:2]] if i.op == 'mul' else [ra[0] + rb[0], ra[1] + rb[1]]
                        self.setfact(s, v, min(e), max(e), frozenset())
                elif i.op == 'add':
                    # a counter: what it is compared with anywhere bounds it, or nothing does
                    ra, rb = self.rng(s, a), self.rng(s, b)
                    if rb[0] == rb[1] and 0 < rb[0] < 16:
                        k = [x for x in self.limits() if x >= ra[1]]
                        lo = max(-4, min(ra[0] + rb[0], 1)) if ra[0] > -INF else -INF
                        if k or lo > -INF:
                            s.facts[v] = (lo, min(k) + rb[0] if k else INF, frozenset())
                    elif rb[0] == rb[1] and rb[0] < 0:
                        s.facts[v] = (max(-4, ra[0] + rb[0]) if ra[0] > -INF else -INF, ra[1] + rb[0] if ra[1] < INF else INF, frozenset())
        if i.op == 'mul' and len(r) == 1:
            # x * (n / x + 1) is more than n
            s = r[0]
            for a, b in (i.o, i.o[::-1]):
                d = self.fn.defs.get(b[1]) if b[0] == 'i' else None
                q = self.fn.defs.get(d.o[0][1]) if d is not None and d.op == 'add' and d.o[1][0] == 'c' and d.o[1][1] >= 1 and d.o[0][0] == 'i' else None
                if q is not None and q.op in ('udiv', 'sdiv') and self.oper(s, q.o[1]) == self.oper(s, a) != UNDEF:
                    n, v = self.oper(s, q.o[0]), s.val.get(i.id)
                    if n != UNDEF and v[0] == 's' and depth(n) < 6:
                        s.facts[('cmp', 'ult', n, v)] = (1, 1, frozenset())
                    elif n != UNDEF and v[0] == 'op' and depth(n) < 6:
                        v = s.val[i.id] = ('s', i.id, 0)
                        self.age(s, v)
                        s.facts[('cmp', 'ult', self.oper(s, q.o[0]), v)] = (1, 1, frozenset())
        if i.op in ('udiv', 'sdiv', 'lshr', 'ashr') and len(r) == 1 and i.o[1][0] == 'c' and i.o[1][1] > 0:
            s = r[0]
            ra = self.rng(s, self.oper(s, i.o[0]))
            k = i.o[1][1] if 'div' in i.op else 1 << min(i.o[1][1], 62)
            v = s.val.get(i.id)
            if ra[0] >= 0 and v[0] != 'k':
                self.setfact(s, v, ra[0] // k, ra[1] // k if ra[1] < INF else INF, frozenset())
        return r

    def widened(self, st, t, d):
        lo, hi, _ = self.rng(st, t)
        lo = max(-4, min(lo, 1)) if lo > -INF else -INF
        if not (d is not None and (d.op == 'add' and d.o[1][0] == 'c' and d.o[1][1] < 0 or d.op == 'sub' and d.o[1][0] == 'c' and d.o[1][1] > 0)):
            k = [x for x in self.limits() if x >= hi]
            hi = min(k) if k else INF
        return (lo, hi, frozenset()) if lo > -INF or hi < INF else None

    def limits(self):
        """constants the function compares with"""
        c = self.__dict__.setdefault('_lim', {})
        if self.fn.key not in c:
            k = set()
            for i in self.fn.insts():
                if i.op == 'icmp':
                    for o in i.o:
                        if o[0] == 'c' and 0 < o[1] < 1 << 20:
                            k |= {o[1] - 1, o[1], o[1] + 1}
            c[self.fn.key] = sorted(k)
        return c[self.fn.key]

    def feeds(self, i):
        """does this value come back to a loop header?"""
        todo, seen = [i.id], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in self.fn.uses().get(x, ()):
                if u.op == 'phi' and u.blk in self.headers:
                    return True
                if u.op in ('phi', 'add', 'sub', 'mul', 'sext', 'zext', 'trunc', 'select', 'shl'):
                    todo.append(u.id)
        return False

    # ---------------------------------------------------------------- places
    def place(self, st, v):
        """(base term, offset, capacity of the array pointed into or None, offset from that array's start)"""
        off = Lin(); cap = None; capoff = None
        n = 0
        cur = v
        while n < 12:
            n += 1
            d = self.fn.defs.get(cur[1]) if cur[0] == 'i' else None
            path, nxt = None, None
            if d is not None and d.op == 'getelementptr':
                path, nxt = d.path, d.o[0]
            elif cur[0] == 'gep':
                path, nxt = cur[2], cur[1]
            elif d is not None and d.op in ('bitcast', 'addrspacecast'):
                cur = d.o[0]
                continue
            if path is None:
                break
            for s in reversed(path):
                if s[0] == 'f':
                    if cap is None and s[4] > 1 and self.isarray(s[1], s[2]):
                        cap, capoff = Lin(s[4]), off
                    off = off.plus(s[3])
                elif s[0] == 'x':
                    i = self.lin(st, self.oper(st, s[1])) if s[1][0] != 'c' else Lin(s[1][1])
                    off = off.add(i.scale(s[2]))
                    if cap is None and s[3] > 0 and s[2] > 0:
                        # the last element of a structure may be a tail of any length
                        if not (s[3] == 1):
                            cap, capoff = Lin(s[3] * s[2]), off
                else:
                    off = off.add(Lin(0, {('s', ('o', d.id if d else 0), 0): 1}))
            cur = nxt
        t = self.oper(st, cur)
        b = base_of(t)
        o = t[2] if t[0] == 'p' else 0
        known = o != '?'
        if known:
            off = off.plus(o)
        if cap is None:
            cap = self.size(st, b)
            capoff = off if known else None
        return b, (off if known else None), cap, capoff

    def isarray(self, sn, fld):
        d = self.prog.structs.get(sn) or self.prog.structs.get(sn.split('.', 1)[-1])
        if not d:
            return False
        for n, (f, off, sz, ty) in enumerate(d['fields']):
            if f == fld:
                return '[' in ty and not (n == len(d['fields']) - 1 and re.search(r'\[[01]?\]', ty))
        return False

    def size(self, st, b):
        if b[0] == 'al':
            i = self.fn.defs.get(b[1])
            if i is not None and not i.vla and i.size and i.o[0][0] == 'c':
                return Lin(i.size * max(1, i.o[0][1]))
        if b[0] == 'g':
            g = self.prog.globals.get(b[1])
            if g is not None and g.get('size') and g.get('init') is not None or g is not None and g.get('size', 0) > 1:
                return Lin(g['size'])
        m = st.mem.get((b, '#s'))
        if m is not None and m[0] != ('any',):
            return self.lin(st, m[0])
        return None

    # ---------------------------------------------------------------- text
    def textlen(self, st, v, t):
        """length of the text a pointer designates, as something that bounds it from above"""
        if t[0] == 'str':
            return Lin(len(t[1].split('\0')[0].encode('utf-8', 'replace')))
        if t[0] == 'p' and t[1][0] == 'str' and t[2] != '?':
            return Lin(len(t[1][1].encode('utf-8', 'replace')[t[2]:].split(b'\0')[0]))
        if t[0] == 'g':
            g = self.prog.globals.get(t[1])
            if g is not None and g.get('const') and g.get('init') and g['init'][0] == 's':
                return Lin(len(g['init'][1].split('\0')[0].encode('utf-8', 'replace')))
        m = st.mem.get((base_of(t), '#')) if t[0] != 'p' else None
        if m is not None and m[0] != ('any',):
            return self.lin(st, m[0])
        if v is not None:
            b, off, cap, co = self.place(st, v)
            if cap is not None and not cap.t and co is not None and b[0] != 's':
                lo = co.c + sum(n * max(0, self.rng(st, x)[0]) for x, n in co.t.items() if n > 0) if all(n > 0 for n in co.t.values()) else 0
                return Lin(max(0, cap.c - 1 - max(0, lo)))
            if cap is not None and not cap.t and co is not None and co.c == 0 and not co.t:
                return Lin(cap.c - 1)
        if t[0] in ('s', 'p', 'g', 'al') and not (t[0] == 'p' and t[2] == '?'):
            return Lin(0, {('op', 'strlen', t): 1})
        return Lin(0, {('s', ('len', '?'), 0): 1})

    def setlen(self, st, t, l):
        if t[0] == 'p' or t[0] not in ('al', 'g', 's'):
            return
        if not l.t:
            st.mem[(t, '#')] = (('k', l.c), 0, '*')
        elif len(l.t) == 1 and l.c == 0 and list(l.t.values()) == [1]:
            st.mem[(t, '#')] = (list(l.t)[0], 0, '*')
        elif len(l.t) <= 2 and all(n == 1 for n in l.t.values()):
            x = list(l.t)
            r = x[0] if len(x) == 1 else ('op', 'add', x[0], x[1])
            st.mem[(t, '#')] = (('op', 'add', r, ('k', l.c)) if l.c else r, 0, '*')
        else:
            st.mem.pop((t, '#'), None)

    def keepsize(self, st, fn, *a):
        own = self.noalias(st)
        sz = {k: v for k, v in st.mem.items() if k[1] == '#s' or k[1] == '#' and fn.__name__ == 'havoc_heap' and k[0] in own}
        fn(*a)
        st.mem.update(sz)

    def noalias(self, st):
        return {k[0] for k in st.mem if k[1] == '#s'}

    def havoc_base(self, st, b, reinit=True):
        if reinit:
            self.keepsize(st, super().havoc_base, st, b, reinit)
        else:
            super().havoc_base(st, b, reinit)

    def havoc_heap(self, st, cl):
        self.keepsize(st, super().havoc_heap, st, cl)

    _sz = 1

    def store(self, st, addr, t, sz, inst, cls=None):
        self._sz = sz
        super().store(st, addr, t, sz, inst, cls)
        self._sz = 1

    def on_store(self, st, inst, base, off, t):
        st.mem.pop((base, '#'), None)
        z = t != UNDEF and t != ('any',) and self.const(st, t) == 0
        if z:
            if off != '?' and inst.op == 'store' and inst.sz == 1:
                st.mem[(base, '#')] = (('k', off), 0, '*')
            for f in [f for f in st.flags if isinstance(f, tuple) and f[:2] == ('t', 'open') and f[2] == base]:
                if self._sz in (1, 2):
                    st.flags = st.flags - {f}

    # ---------------------------------------------------------------- indices
    def gep(self, st, b, path, inst):
        if inst is not None and inst.op == 'getelementptr' and not self.generated():
            for s in path:
                if s[0] == 'x' and s[3] > 0 and s[1][0] != 'c':
                    self.check_index(st, inst, s)
        return super().gep(st, b, path, inst)

    def generated(self):
        return self.fn.tu.endswith(GENERATED)

    def access(self, inst):
        """how what a getelementptr computes is used"""
        u = set()
        for x in self.fn.uses().get(inst.id, ()):
            if x.op == 'store':
                u.add('store' if x.o[1] == ('i', inst.id) or list(x.o[1]) == ['i', inst.id] else 'addr')
            elif x.op == 'load':
                u.add('load')
            elif x.op == 'icmp':
                u.add('cmp')
            elif x.op == 'getelementptr':
                u |= self.access(x) or {'addr'}
            else:
                u.add('addr')
        return u

    def check_index(self, st, inst, s):
        k = (self.fn.key, inst.id)
        how = self.access(inst)
        if not how or how == {'cmp'}:
            return
        t = self.oper(st, s[1])
        if t == UNDEF:
            return
        self.index.add(k)
        l = self.lin(st, t)
        hi = self.most(st, l)
        lo = -self.most(st, l.scale(-1))
        n = s[3]
        past = n if how == {'addr'} or how == {'cmp', 'addr'} else n - 1
        if hi < INF and hi > past and (how - {'cmp'} != {'load'} or not self.loopvar(s[1][1]) or self.compared(s[1])):
            self.report('index', inst, 'the index may be %d in an array of %d elements' % (hi, n), st, key='index %s' % inst.id)
        elif lo > -INF and lo < 0 and not (t[0] == 'op' and t[1] == 'trunc8'):
            self.report('index', inst, 'the index may be %d' % lo, st, key='index %s' % inst.id)
        elif hi >= INF and 'store' in how and len(l.t) == 1 and list(l.t)[0][:2] == ('s', 'a') and list(l.t.values()) == [1]:
            # whoever passes the index must bound it
            j = list(l.t)[0][2]
            o = self.iobl.setdefault(self.fn.key, {})
            o[j] = min(o.get(j, (INF, 0, ''))[:2] + (inst.loc(),), (past - l.c, n, inst.loc()))
        elif hi >= INF and 'store' in how:
            self.report('index', inst, 'nothing keeps the index of this store within the %d elements of the array' % n, st, key='index %s' % inst.id)
        elif hi >= INF or lo <= -INF:
            self.idx_open.add(k)

    def element(self, st, i, v):
        """an element picked by a computed distance from where a text or block of known size starts"""
        d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        if d is None or d.op != 'getelementptr' or not d.path or d.path[-1][0] != 'x' or d.path[-1][3] > 0 and d.path[-1][1][0] != 'c':
            return
        b, off, cap, capoff = self.place(st, v)
        if capoff is None or cap is None and off is None or b[0] in ('k', 'fn') or b == UNDEF:
            return
        o = capoff if cap is not None else off
        if not o.t and o.c >= 0 and cap is None:
            return
        k = (self.fn.key, i.id)
        low = self.most(st, o.scale(-1))
        if low < INF and low > 0 and (cap is not None and not o.t or o.t and all(self.islen(x) for x in o.t)):
            self.elements.add(k)
            self.report('element', i, 'may lie %d before the start' % low, st, key='before %s' % i.id)
            return
        if cap is None or not o.t and not cap.t or i.op == 'load' and cap.t or any(isinstance(x[1], tuple) and x[1][0] == 'size' for x in cap.t):
            return
        r = self.fits(st, o.plus(i.sz), cap)
        if r is not None:
            self.elements.add(k)
            if r is not True:
                self.report('element', i, 'may lie up to %s beyond the end' % r, st, key='beyond %s' % i.id)

    def compared(self, v):
        """is the value, or one it is counted from, compared with something by size?"""
        todo, seen = [v], set()
        while todo:
            o = todo.pop()
            if o[0] != 'i' or o[1] in seen:
                continue
            seen.add(o[1])
            for u in self.fn.uses().get(o[1], ()):
                if u.op == 'icmp' and u.pred not in ('eq', 'ne'):
                    return True
                if u.op in ('sext', 'zext', 'trunc'):
                    for w in self.fn.uses().get(u.id, ()):
                        if w.op == 'icmp' and w.pred not in ('eq', 'ne'):
                            return True
            d = self.fn.defs.get(o[1])
            if d is None:
                continue
            if d.op in ('sext', 'zext', 'trunc', 'add', 'sub'):
                todo.append(d.o[0])
            elif d.op == 'phi':
                todo += [x for x, _ in d.phi]
        return False

    # ---------------------------------------------------------------- writes
    def demand(self, st, inst, dv, dt, need, what, wrap=None):
        if dt == UNDEF or dt == ZERO or base_of(dt)[0] in ('k', 'fn'):
            return
        k = (self.fn.key, inst.id)
        self.writes.add(k)
        if wrap is not None and any(n < 0 for n in wrap.t.values()) and all(self.islen(x) or self.rng(st, x)[0] > -INF for x, n in wrap.t.items()):
            if self.most(st, wrap.scale(-1)) > 0:
                self.report('write', inst, '%s: the size may be less than 0' % what, st, key='wrap %s' % inst.id)
                return
        b, off, cap, capoff = self.place(st, dv)
        if cap is None and b[0] == 's' and b[1] == 'a' and off is not None:
            self.promise(st, inst, b[2], need.add(off), what)
            return
        if cap is None or capoff is None:
            self.wr_open.add(k)
            return
        r = self.fits(st, need, cap.add(capoff, -1))
        if r is True:
            return
        if r is None:
            self.wr_open.add(k)
            return
        n = self.show(st, need)
        self.report('write', inst, '%s: up to %s bytes into %s' % (what, n, self.show(st, cap.add(capoff, -1))), st, key='write %s' % inst.id)

    def show(self, st, l):
        m = self.most(st, l)
        if m < INF:
            return str(m)
        return 'any number of'

    def promise(self, st, inst, j, need, what):
        """a write through an argument: every caller's buffer must take it"""
        t = {}
        c = need.c
        for x, n in need.t.items():
            if x[0] == 's' and x[1] == 'a' and n > 0:
                t[('a', x[2])] = n
            elif x[0] == 'op' and x[1] == 'strlen' and x[2][0] == 's' and x[2][1] == 'a' and n > 0:
                t[('l', x[2][2])] = n
            else:
                lo, hi, _ = self.rng(st, x)
                if self.islen(x):
                    lo = max(0, lo)
                v = hi if n > 0 else lo
                if abs(v) >= INF:
                    if n > 0 and self.islen(x):
                        t[('any', 0)] = 1
                        continue
                    self.wr_open.add((self.fn.key, inst.id))
                    return
                c += n * v
        o = self.obl.setdefault(self.fn.key, {})
        k = (j, tuple(sorted(t.items())))
        if k not in o or o[k][0] < c:
            if len(o) < 60:
                o[k] = (c, '%s (%s)' % (what, inst.loc()))
        if len(o) >= 60:
            self.wr_open.add((self.fn.key, inst.id))

    def do_call(self, st, inst):
        r = super().do_call(st, inst)
        f = self.prog.resolve(inst.callee, self.fn.tu) if inst.callee else None
        for j in self.atleast.get(f.key, ()) if f is not None else ():
            for s in r:
                v, a = s.val.get(inst.id), self.oper(s, inst.o[j]) if j < len(inst.o) else UNDEF
                if v is not None and v[0] == 's' and a != UNDEF and depth(a) < 6:
                    s.facts[('cmp', 'ule', a, v)] = (1, 1, frozenset())
                    self.rounded.add((self.fn.key, inst.id))
        return r

    def gc(self, st, blk, extra=()):
        if self.rounded:
            # what a size was rounded up from is still a lower bound when the size itself is no longer used
            extra = list(extra) + [t[3] for t in st.facts if t[0] == 'cmp' and t[1] == 'ule' and t[3][0] == 's' and (self.fn.key, t[3][1]) in self.rounded]
        return super().gc(st, blk, extra)

    def on_call(self, st, inst, name, args):
        f = self.prog.resolve(name, self.fn.tu) if name else None
        for fl in [x for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'open')]:
            b = fl[2]
            for n, a in enumerate(args):
                if base_of(a) == b and b[0] in ('al', 'g') and f is None and norm(name) in ('strlen', 'strcpy', 'strcat', 'strcmp', 'strchr', 'strrchr', 'fopen', 'open', 'printf', 'fprintf', 'fputs', 'puts', 'strdup', 'setenv', 'stat', 'opendir'):
                    self.report('text', inst, 'the text put here at %s may lack its end' % fl[3], st, key='end %s' % fl[3])
        if f is None:
            return
        for j, (top, n, w) in self.iobl.get(f.key, {}).items():
            if j < len(args) and args[j] != UNDEF:
                l = self.lin(st, args[j])
                hi = self.most(st, l)
                self.nobl += 1
                if hi <= top:
                    continue
                if hi >= INF and len(l.t) == 1 and list(l.t)[0][:2] == ('s', 'a') and list(l.t.values()) == [1]:
                    k = list(l.t)[0][2]
                    self.iobl.setdefault(self.fn.key, {})[k] = (top - l.c, n, w)
                else:
                    self.report('index', inst, 'nothing keeps the index handed on here within the %d elements of the array stored into at %s' % (n, w) if hi >= INF
                                else 'the index handed on here may be %d in an array of %d elements (%s)' % (hi, n, w), st, key='passed %s' % inst.id)
        for (j, tt), (c, w) in self.obl.get(f.key, {}).items():
            if j >= len(inst.o):
                continue
            need = Lin(c)
            for (kind, a), n in tt:
                if kind == 'any':
                    need = need.add(Lin(0, {('s', ('len', 'any'), 0): 1}))
                elif a >= len(inst.o):
                    need = None
                    break
                elif kind == 'a':
                    need = need.add(self.lin(st, args[a]).scale(n))
                else:
                    need = need.add(self.textlen(st, inst.o[a], args[a]).scale(n))
            if need is None:
                continue
            self.nobl += 1
            self.demand(st, inst, inst.o[j], args[j], need, '%s: %s' % (name, w) if not w.startswith(name) else w)

    def sprintf(self, st, inst, fmt, first, args):
        s = fmt[1] if fmt[0] == 'str' else None
        if s is None:
            return Lin(1, {('s', ('len', 'any'), 0): 1})
        need = Lin(1); p = 0; n = first
        while True:
            q = s.find('%', p)
            if q < 0:
                return need.plus(len(s[p:].encode('utf-8', 'replace')))
            need = need.plus(len(s[p:q].encode('utf-8', 'replace')))
            m = CONV.match(s, q)
            if not m:
                return need
            fl, w, pr, ln, c = m.groups()
            p = m.end()
            if c == '%':
                need = need.plus(1)
                continue
            if w == '*' or pr == '*':
                return Lin(1, {('s', ('len', 'any'), 0): 1})
            if n >= len(args):
                return need
            a, v = args[n], inst.o[n]
            n += 1
            wide = int(w) if w else 0
            if c in 'diuxXo':
                lo, hi, _ = self.rng(st, a) if a != UNDEF else (-INF, INF, 0)
                big = 64 if ln in ('ll', 'l', 'z', 'j', 't', 'I64') else 32
                if c in 'di':
                    lo, hi = max(lo, -(1 << big - 1)), min(hi, (1 << big - 1) - 1)
                    d = max(len(str(lo)), len(str(hi)))
                else:
                    d = len({'u': '%d', 'x': '%x', 'X': '%x', 'o': '%o'}[c] % ((1 << big) - 1 if lo < 0 else min(hi, (1 << big) - 1)))
                need = need.plus(max(d + (1 if '+' in fl or ' ' in fl else 0) + (2 if '#' in fl else 0), wide, int(pr or 0) + 1))
            elif c == 'c':
                need = need.plus(max(1, wide))
            elif c in 'eEgG':
                need = need.plus(max((int(pr) if pr else 6) + 8, wide))
            elif c in 'fF':
                need = need.plus(max(311 + (int(pr) if pr else 6), wide))
            elif c == 'p':
                need = need.plus(max(20, wide))
            elif c == 's':
                l = self.textlen(st, v, a)
                if pr:
                    l = Lin(int(pr))
                need = need.add(l)
                if wide:
                    need = need.plus(wide)
            else:
                return Lin(1, {('s', ('len', 'any'), 0): 1})

    def opened(self, st, inst, dv, dt, n):
        b, off, cap, co = self.place(st, dv)
        self.terms.add((self.fn.key, inst.id))
        for f in [f for f in st.flags if isinstance(f, tuple) and f[:2] == ('t', 'open') and f[2] == b]:
            st.flags = st.flags - {f}
        st.flags = st.flags | {('t', 'open', b, inst.loc())}

    def event(self, st, inst, name, args):
        n = norm(name)
        f = self.prog.resolve(name, self.fn.tu)
        if f is not None and not f.tu.startswith('libcu8'):
            return None
        O = inst.o
        if n in ('malloc', 'calloc', 'realloc', 'alloca'):
            r = self.unknown_call(st, inst, args, False) if n != 'realloc' else None
            if r is None:
                l = self.textlen(st, None, args[0]) if args[0] != UNDEF and args[0][0] == 's' else None
                if args[0][0] == 's' and args[0][1] == inst.id:
                    l = None
                st.val[inst.id] = self.fresh(st, inst.id)
                if l is not None:
                    self.setlen(st, st.val[inst.id], l)
                sz = self.oper(st, inst.o[1])
            elif n == 'calloc':
                ca, cb = self.const(st, args[0]), self.const(st, args[1])
                sz = ('k', ca * cb) if ca is not None and cb is not None else args[0] if cb == 1 else args[1] if ca == 1 else None
            else:
                sz = args[0]
            if sz is not None and sz != UNDEF:
                st.mem[(st.val[inst.id], '#s')] = (sz, 0, '*')
            return [st]
        if n == 'libcu8_xconvert' and len(args) > 3:
            # the third argument receives the size of the result, its end included
            r = self.unknown_call(st, inst, args, True) if False else None
            s = self.fresh(st, inst.id)
            st.val[inst.id] = s
            b = base_of(args[3])
            if b[0] == 'al':
                x = ('s', ('cvt', inst.id), 0)
                self.age(st, x)
                st.facts[x] = (1, INF, frozenset())
                self.havoc_base(st, b)
                st.mem[(b, args[3][2] if args[3][0] == 'p' else 0)] = (x, 8, 'raw8')
                st.mem[(s, '#')] = (('op', 'add', x, ('k', -1)), 0, '*')
                st.mem[(s, '#s')] = (x, 0, '*')
            return [st]
        if n == 'strlen':
            l = self.textlen(st, O[0], args[0])
            t = args[0]
            if t == UNDEF:
                return None
            m = st.mem.get((t, '#'))
            if m is not None and m[0] != ('any',):
                st.val[inst.id] = m[0]
                return [st]
            if t[0] == 'str':
                st.val[inst.id] = ('k', l.c)
                return [st]
            if len(l.t) == 1 and l.c == 0:
                x = list(l.t)[0]
                if x[0] == 'op' and t[0] != 'p':
                    st.val[inst.id] = x
                    self.setfact(st, x, 0, INF, frozenset())
                    return [st]
            s = self.fresh(st, inst.id)
            st.val[inst.id] = s
            self.setfact(st, s, 0, l.c if not l.t else INF, frozenset())
            if t[0] in ('al', 'g', 's'):
                st.mem[(t, '#')] = (s, 0, '*')
            return [st]
        if n in SIZED:
            d, s = SIZED[n]
            if len(args) <= max(d, s):
                return None
            size = self.lin(st, args[s])
            src = None
            if n == 'strncpy':
                src = self.textlen(st, O[1], args[1])
            elif n in ('snprintf', '_snprintf') and args[2][0] == 'str':
                src = self.sprintf(st, inst, args[2], 3, args).plus(-1)
            need = size
            if n != 'strncpy' and src is not None and self.fits(st, src.plus(1), size) is True:
                need = src.plus(1)
            self.demand(st, inst, O[d], args[d], need, n, size)
            r = self.after(st, inst, args)
            if n in UNTERMINATED and args[d] != UNDEF:
                if src is None or self.fits(st, src.plus(1), size) is not True:
                    bad = st.copy()
                    self.opened(st, inst, O[d], args[d], size)
                    if n == 'readlink':
                        # a failure writes nothing
                        bad.val[inst.id] = ('k', -1)
                        self.setfact(st, st.val[inst.id], 0, INF, frozenset())
                        hi = self.most(st, size)
                        self.setfact(st, st.val[inst.id], 0, hi if 0 <= hi < INF else INF, frozenset())
                        return [st, bad]
            if n in ('read', 'readlink', 'pread', '_read', 'recv') and inst.id in st.val:
                hi = self.most(st, size)
                self.setfact(st, st.val[inst.id], -1, hi if 0 <= hi < INF else INF, frozenset())
            if n in ('fgets', 'getcwd', 'snprintf', 'strncpy') and args[d] != UNDEF and args[d][0] in ('al', 'g', 's'):
                hi = self.most(st, size)
                x = None
                if src is not None and self.fits(st, src.plus(1), size) is True:
                    x = src
                elif hi < INF and n != 'strncpy':
                    x = Lin(0, {self.newlen(st, inst, max(0, hi - 1)): 1})
                if x is not None:
                    self.setlen(st, args[d], x)
            return r
        if n in WIDE and len(args) > max(WIDE[n]):
            d, s = WIDE[n]
            self.demand(st, inst, O[d], args[d], self.lin(st, args[s]).scale(2), n)
            return None
        if n == 'fread':
            a, b = self.lin(st, args[1]), self.lin(st, args[2])
            need = b.scale(a.c) if not a.t else a.scale(b.c) if not b.t else None
            if need is not None:
                self.demand(st, inst, O[0], args[0], need, n)
            r = self.after(st, inst, args)
            if inst.id in st.val:
                hi = self.most(st, b)
                self.setfact(st, st.val[inst.id], 0, hi if 0 <= hi < INF else INF, frozenset())
            return r
        if n in ('strcpy', 'strcat', 'strncat', 'sprintf', 'stpcpy', 'lstrcpyA', 'lstrcatA'):
            cat = 'cat' in n
            old = self.textlen(st, O[0], args[0]) if cat else Lin()
            if n == 'sprintf':
                new = self.sprintf(st, inst, args[1], 2, args).plus(-1)
            else:
                new = self.textlen(st, O[1], args[1])
            wrap = None
            if n == 'strncat':
                k = self.lin(st, args[2])
                wrap = k
                if self.fits(st, new, k) is not True:
                    new = k
            need = old.add(new).plus(1)
            self.demand(st, inst, O[0], args[0], need, n, wrap)
            r = self.after(st, inst, args)
            if args[0] != UNDEF and not (n == 'strncat'):
                self.setlen(st, args[0], need.plus(-1))
            if inst.ty:
                st.val[inst.id] = args[0]
            return r
        if n in ('sscanf', 'fscanf'):
            fmt = args[1]
            k = 2
            if fmt[0] == 'str':
                for m in re.finditer(r'%(\*)?(\d+)?(hh|h|ll|l|z)?(\[\]?[^\]]*\]|[a-zA-Z%])', fmt[1]):
                    if m.group(1) or m.group(4) == '%':
                        continue
                    if m.group(4)[0] in 's[' and k < len(args):
                        need = Lin(int(m.group(2)) + 1) if m.group(2) else Lin(1, {('s', ('len', 'any'), 0): 1})
                        self.demand(st, inst, O[k], args[k], need, n)
                    k += 1
            return None
        return None

    def newlen(self, st, inst, hi):
        s = ('s', ('len', inst.id), 0)
        self.age(st, s)
        st.facts[s] = (0, hi, frozenset())
        return s

    def after(self, st, inst, args):
        """what the call does apart from its write"""
        n = norm(inst.callee)
        return self.unknown_call(st, inst, args, False)

    def intrinsic(self, st, inst, name):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            n = self.oper(st, inst.o[2])
            d = self.oper(st, inst.o[0])
            if n != UNDEF and d != UNDEF and not (inst.o[2][0] == 'c' and self.whole(inst, inst.o[0])):
                l = self.lin(st, n)
                self.demand(st, inst, inst.o[0], d, l, name.split('.')[1], l)
            st.mem.pop((base_of(d), '#'), None)
            src = self.oper(st, inst.o[1])
            if 'memset' not in name and d[0] in ('al', 'g', 's') and src[0] in ('g', 'str'):
                x = self.textlen(st, None, src)
                if not x.t:
                    r = self.sizes(st, inst, name)
                    for s in r:
                        self.setlen(s, d, x)
                    return r
        return self.sizes(st, inst, name)

    def sizes(self, st, inst, name):
        sz = {k: v for k, v in st.mem.items() if k[1] == '#s'}
        r = super().intrinsic(st, inst, name)
        for s in r:
            s.mem.update(sz)
        return r

    def whole(self, inst, v):
        """a structure assignment: sizes match by construction"""
        return False

    def pairs(self, st, inst):
        for fl in st.flags:
            if not (isinstance(fl, tuple) and fl[:2] == ('t', 'pair')):
                continue
            b, o, off = fl[2:]
            p, n = st.mem.get((b, o)), st.mem.get((b, o + off))
            if p is None or n is None or p[0] in (UNDEF, ('any',)) or n[0] in (UNDEF, ('any',)):
                continue
            have = self.size(st, p[0]) if p[0][0] == 's' else None
            self.npairs.add((self.fn.key, inst.id))
            if have is None:
                continue
            d = self.lin(st, n[0]).add(have, -1)
            if d.t or d.c:
                r = self.fits(st, self.lin(st, n[0]), have)
                if r is not True and r is not None or r is None and len(d.t) <= 2:
                    self.report('pair', inst, 'the size kept beside a text is not known to be the size of its memory', st, key='pair')

    def on_return(self, st, inst, t):
        self.pairs(st, inst)
        if t is not None and t != UNDEF and self.fn.ret in ('i32', 'i64'):
            ok = set()
            for j in range(len(self.fn.args)):
                x = ('s', 'a', j)
                if self.const(st, x) is None and depth(t) < 6:
                    l = Lin(0, {x: 1}).add(self.lin(st, t), -1)
                    if self.most(st, l) <= 0:
                        ok.add(j)
            self.atleast[self.fn.key] = self.atleast.get(self.fn.key, ok) & ok
        elif t is not None:
            self.atleast[self.fn.key] = set()
        for fl in st.flags:
            if isinstance(fl, tuple) and fl[:2] == ('t', 'open') and fl[2][0] != 'al':
                self.report('text', inst, 'the text put into a buffer at %s may lack its end' % fl[3], st, key='end %s' % fl[3])


WAIVED = {
    ('pBat_EsCacheFree', 'index'): 'the pointer was compared with both ends of the pool right before, and the position is its distance from the start',
    ('more_fputc_u8_wrapper', 'index'): 'a static count set to 0 or 1 and raised only while it is not 4',
}


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    e = Bounds(p)
    e.run()
    fx = lambda s: {'%s:%d' % (k, i) for k, i in s}
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), len(e.index), len(e.writes), e.nobl, sum(len(v) for v in e.obl.values()), len(e.idx_open), len(e.wr_open), len(e.terms)


def run(pid, ctx):
    import build
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'bounds.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, ni, nw, nob, nprom, io, wo, nt in res:
        if cfg == 'selftest':
            hit = {r['func'] for k, r in reps}
            src = open(os.path.join(ctx.verif, 'selftest', 'bounds.c')).read()
            for x in re.findall(r'\b(bad_\w+)\(', src):
                if x not in hit:
                    ctx.broken('self-test: %s not reported' % x)
            for x in hit:
                if not x.startswith('bad_'):
                    ctx.broken('self-test: %s reported' % x)
            continue
        ctx.need(ni, 40, '%s: accesses with a computed index' % cfg)
        ctx.need(nw, 100, '%s: writes by library calls' % cfg)
        for k, r in reps:
            if (r['func'], r['kind']) in WAIVED:
                continue
            ctx.violation('%s %s %s' % (r['func'], r['kind'], k[2].split()[0]), r['loc'], '%s: %s' % (r['func'], r['detail']),
                          'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
        cov[cfg] = dict(indexed_accesses=ni, index_not_judged=io, library_writes=nw, writes_not_judged=wo, argument_obligations=nprom, obligations_met=nob,
                        unterminated_writes=nt, path_states=stats.get('visits', 0), cut_short=inc)
    ctx.cov(waived=['%s: %s' % (k[0], v) for k, v in WAIVED.items()], **cov)
