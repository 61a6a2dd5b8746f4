"""D06: what is changed for the time of an operation is put back."""
import os, re, sys
from multiprocessing import get_context
from typestate import Flagged
from sym import UNDEF, base_of
from flow import gtls
import sym

# calls that put something in place for a while, and those that take it back
BRACKETS = {'pBat_ApplyStreams': ('open', 'the streams given to a program'), 'pBat_UnApplyStreams': ('close', 'the streams given to a program'),
            'pBat_ApplyEnv': ('open', 'the environment given to a program'), 'pBat_UnApplyEnv': ('close', 'the environment given to a program'),
            'pBat_PushEnvLocals': ('open', 'the frame of local variables of a subroutine'), 'pBat_PopEnvLocals': ('close', 'the frame of local variables of a subroutine')}
TERM = 'the mode of the terminal'
TERMSET = {'tcsetattr': 2, 'SetConsoleMode': 1}
TERMGET = {'tcgetattr': 1, 'GetConsoleMode': 1}
WAIVED = {('pBat_LibInit', TERM): 'the output mode of the console is set once, when the program starts'}
WRITERS = {'strcpy': 0, 'strncpy': 0, 'snprintf': 0, 'sprintf': 0, '_snprintf': 0, '__mingw_snprintf': 0, 'memset': 0, 'memcpy': 0, 'memmove': 0, 'strcat': 0, 'strncat': 0, 'fgets': 0}


def where(f, v):
    """('g', name, off) | ('al', id, off) | ('a', n, off) | ('f', struct, field) for a field of something a global leads to | None"""
    off, fld = 0, None
    for _ in range(40):
        if v[0] == 'g':
            return ('g', v[1], off)
        if v[0] == 'gep':
            path, nv = v[2], v[1]
        elif v[0] == 'a':
            return ('f',) + fld if fld and False else ('a', v[1], off, fld)
        elif v[0] == 'i':
            d = f.defs.get(v[1])
            t = gtls(f, d)
            if t is not None:
                return ('g', t, off)
            if d is None:
                return None
            if d.op == 'alloca':
                return ('al', d.id, off)
            if d.op == 'load' and fld:
                w = where(f, d.o[0])
                return ('f',) + fld if w and w[0] == 'g' else None
            if d.op == 'bitcast':
                v = d.o[0]
                continue
            if d.op != 'getelementptr':
                return None
            path, nv = d.path or [], d.o[0]
        else:
            return None
        for s in path:
            if s[0] == 'f':
                off += s[3]
                fld = (s[1].replace('struct.', ''), off)
            elif s[0] == 'x':
                if s[1][0] != 'c':
                    off = off if s is path[-1] else off
                    continue
                off += s[1][1] * s[2]
        v = nv
    return None


def leaves(f, v):
    out, todo, seen = [], [v], set()
    while todo:
        v = todo.pop()
        if v[0] == 'i':
            if v[1] in seen:
                continue
            seen.add(v[1])
            d = f.defs[v[1]]
            if d.op == 'phi':
                todo += [x for x, _ in d.phi]
                continue
            if d.op == 'select':
                todo += d.o[1:]
                continue
            if d.op in ('bitcast', 'freeze', 'zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr'):
                todo.append(d.o[0])
                continue
        out.append(v)
    return out


class Shape:
    """what the functions of a program do to the fields of what a variable leads to"""

    def __init__(self, prog):
        self.p = prog
        self.acc = {}
        self.kinds = {}
        w = {}
        self.written = {}       # function -> named variables it stores to
        for f in prog.funcs.values():
            for i in f.insts():
                a = None
                if i.op == 'store':
                    a, k = where(f, i.o[1]), 'store'
                elif i.op == 'call' and i.callee in TERMGET and len(i.o) > TERMGET[i.callee]:
                    a, k = where(f, i.o[TERMGET[i.callee]]), 'get'
                elif i.op == 'call' and self.dest(i) is not None:
                    a, k = where(f, i.o[self.dest(i)]), 'store'
                if a and a[0] == 'g':
                    w.setdefault(a[1], set()).add(k)
                    if k == 'store':
                        self.written.setdefault(f.key, {}).setdefault(a[1], 0)
                        self.written[f.key][a[1]] += 1
        # terminal settings kept in a variable that only the terminal fills
        self.kept = {g for g, s in w.items() if s == {'get'}}
        self.stackvars = self.allstacks()

    def dest(self, i):
        c = i.callee or ''
        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            return 0
        if self.p.resolve(c, i.fn.tu) is None:
            return WRITERS.get(c)
        return None

    # -- what small helpers do
    def accessor(self, f):
        """('get', arg, struct, field) / ('set', arg, struct, field, value arg): a function that only reads or writes a field of what it is given"""
        if f.key in self.acc:
            return self.acc[f.key]
        r = []
        if len(list(f.insts())) <= 12 and not any(i.callee and not i.callee.startswith('llvm.') for i in f.calls()):
            for i in f.insts():
                if i.op == 'store' and i.o[0][0] == 'a':
                    w = where(f, i.o[1])
                    if w and w[0] == 'a' and w[3]:
                        r.append(('set', w[1]) + w[3] + (i.o[0][1],))
                elif i.op == 'ret' and i.o and i.o[0][0] == 'i':
                    for x in leaves(f, i.o[0]):
                        d = f.defs.get(x[1]) if x[0] == 'i' else None
                        w = where(f, d.o[0]) if d is not None and d.op == 'load' else None
                        if w and w[0] == 'a' and w[3]:
                            r.append(('get', w[1]) + w[3])
        self.acc[f.key] = r
        return r

    def kind(self, f, depth=0):
        """what a function returns: 'new' an object of its own, 'prev' what a field of its argument leads to"""
        if f.key in self.kinds:
            return self.kinds[f.key]
        self.kinds[f.key] = set()
        out = set()
        if f.ret == 'ptr' and depth < 4:
            for i in f.insts():
                if i.op != 'ret' or not i.o:
                    continue
                for x in leaves(f, i.o[0]):
                    d = f.defs.get(x[1]) if x[0] == 'i' else None
                    if d is None:
                        continue
                    if d.op == 'call' and d.callee in ('malloc', 'calloc'):
                        out.add('new')
                    elif d.op == 'call' and d.callee:
                        g = self.p.resolve(d.callee, f.tu)
                        if g is not None and g is not f:
                            out |= self.kind(g, depth + 1)
                    elif d.op == 'load':
                        w = where(f, d.o[0])
                        if w and w[0] == 'a' and w[3]:
                            out.add('prev')
                        else:
                            b = d.o[0]
                            e = f.defs.get(b[1]) if b[0] == 'i' else None
                            if e is not None and e.op == 'getelementptr' and any(y[0] == 'a' for y in leaves(f, e.o[0])) and any(s[0] == 'f' for s in e.path or ()):
                                out.add('prev')
        self.kinds[f.key] = out
        return out

    def globalptr(self, f, v):
        if v[0] == 'i':
            d = f.defs[v[1]]
            if d.op == 'load':
                w = where(f, d.o[0])
                return bool(w and w[0] == 'g')
        return False

    def allstacks(self):
        """variables that lead to the top of a stack: assigned from functions that push and from ones that pop"""
        kinds = {}
        for f in self.p.funcs.values():
            for i in f.insts():
                if i.op == 'store':
                    a = where(f, i.o[1])
                    if a and a[0] == 'g' and a[2] == 0:
                        kinds.setdefault(a, set()).update(self.pushpop(f, i.o[0]))
        return {a[1] for a, s in kinds.items() if {'push', 'pop'} <= s}

    def owned(self, f, v):
        d = f.defs.get(v[1])
        return d.op == 'getelementptr' and self.globalptr(f, d.o[0])

    def pushpop(self, f, v):
        out = set()
        for x in leaves(f, v):
            d = f.defs.get(x[1]) if x[0] == 'i' else None
            if d is not None and d.op == 'call' and d.callee in ('malloc', 'calloc'):
                out.add('push')
            elif d is not None and d.op == 'load' and d.o[0][0] == 'i' and f.defs[d.o[0][1]].op in ('getelementptr', 'load') and self.owned(f, d.o[0]):
                out.add('pop')
            elif d is not None and d.op == 'call' and d.callee:
                g = self.p.resolve(d.callee, f.tu)
                if g is not None and any(self.globalptr(f, o) for o in d.o if o[0] == 'i'):
                    k = self.kind(g)
                    if 'new' in k and 'prev' not in k:
                        out.add('push')
                    elif 'prev' in k and 'new' not in k:
                        out.add('pop')
        return out



class Keep(Flagged):
    """path facts, all in the flags:
    ('t','ld',inst,cell)   inst read what the cell held when the function was entered
    ('t','cp',local,g)     the local is a copy of the variable as it was when the function was entered
    ('t','own',cell,line)  the cell holds something this function put there
    ('t','back',cell)      it was put back
    ('t','tm',local)       the local holds the mode the terminal had
    ('e','open'/'close',what), ('e','push',var)   as for mutexes: handed to callers"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.sh = Shape(prog)
        self.marks = {}         # (function, cell) -> set of 'left', 'back'
        self.sites = set()
        self.handlers = prog.address_taken()
        self.saved = saved(prog)
        self.getters = set()
        self.savers = {n: {g: 1 for g in m} for a, b, m, x in self.saved.values() for n in a}
        self.saves = 0

    def name(self, c):
        return c[1] if c[0] in ('g', 'r') else 'the field of %s at offset %d' % c[1:]

    # -- cells
    def cell(self, inst, v):
        f = self.fn
        w = where(f, v)
        if w is None:
            return None
        if w[0] == 'g':
            k = self.prog.gkey(w[1], f.tu)
            g = self.prog.globals.get(k)
            n = self.sh.written.get(f.key, {}).get(w[1], 0)
            if n < 2 or not (g and (g['tls'] or self.prog.cfg == 'selftest')):
                return None     # changing it and putting it back takes two
            return ('g', w[1]) if w[2] == 0 and not self.region(w[1]) else ('r', w[1])
        if w[0] == 'f':
            return ('f', w[1], w[2])
        return None

    def region(self, g):
        return g in self.regions()

    def regions(self):
        """variables copied as a whole to a local and back"""
        if not hasattr(self, '_reg'):
            self._reg = set()
            for f in self.prog.funcs.values():
                for i in f.calls():
                    if (i.callee or '').startswith(('llvm.memcpy', 'memcpy')) and len(i.o) > 2:
                        a, b = where(f, i.o[0]), where(f, i.o[1])
                        if a and b and a[0] == 'g' and b[0] == 'al':
                            self._reg.add(a[1])
        return self._reg

    def flag(self, st, add=(), drop=lambda x: False):
        st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[0] == 't' and drop(x))) | frozenset(add)

    def has(self, st, *p):
        return any(isinstance(x, tuple) and x[:len(p)] == p for x in st.flags)

    def load(self, st, addr, sz, inst):
        r = super().load(st, addr, sz, inst)
        if inst.op == 'load':
            c = self.cell(inst, inst.o[0])
            if c is not None and c[0] in ('g', 'f'):
                self.read(st, inst, c, r)
        return r

    def read(self, st, inst, c, r):
        self.flag(st, drop=lambda x: x[1] == 'ld' and x[2] == inst.id)
        if not self.has(st, 't', 'own', c):
            self.flag(st, [('t', 'ld', inst.id, c)])

    def original(self, st, inst, v, c):
        """is this operand what the cell held at first: all its leaves on this path are reads of it"""
        t = self.oper(st, v)
        ids = {x[2] for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'ld') and x[3] == c}
        while t[0] == 'op' and t[1] in ('zext', 'sext', 'trunc') and len(t) > 2:
            t = t[2]
        if t[0] == 's' and t[1] in ids and t[2] == 0:
            return True
        d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        while d is not None and d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            v = d.o[0]
            d = self.fn.defs.get(v[1]) if v[0] == 'i' else None
        if d is None:
            return False
        if d.id in ids:
            return True
        ls = leaves(self.fn, v)
        if c[0] == 'f':
            # a field may not have been there to be read; what stands for it then is a constant
            ls = [x for x in ls if x[0] not in ('c', 'null')]
        return bool(ls) and all(x[0] == 'i' and x[1] in ids for x in ls)

    def put(self, st, inst, c, v, g=None):
        if v is not None and self.original(st, inst, v, c):
            if self.has(st, 't', 'own', c):
                self.flag(st, [('t', 'back', c)], lambda x: x[1] == 'own' and x[2] == c)
        elif v is not None and not self.has(st, 't', 'own', c) and any(self.reads(x, c) for x in leaves(self.fn, v)):
            pass        # there was nothing to read it from, and so nothing to change
        else:
            self.flag(st, [('t', 'own', c, inst.loc(), g)], lambda x: x[1] in ('own', 'back') and x[2] == c)

    def reads(self, x, c):
        d = self.fn.defs.get(x[1]) if x[0] == 'i' else None
        return d is not None and (d.op == 'load' and self.cell(d, d.o[0]) == c or d.op == 'call' and ('ld', d.id, c) in self.getters)

    def on_branch(self, st, inst, c, truth):
        for x in list(st.flags):
            # there is nothing there any more to put it back in
            if isinstance(x, tuple) and x[:2] == ('t', 'own') and x[4]:
                m = st.mem.get((('g', self.prog.gkey(x[4], self.fn.tu)), 0))
                if m is not None and self.const(st, m[0]) == 0:
                    st.flags = st.flags - {x}
        return st

    def on_store(self, st, inst, base, off, t):
        if base[0] == 'al':
            self.flag(st, drop=lambda x: x[1] in ('cp', 'tm') and x[2] == base)
        if inst.op != 'store':
            return
        w = where(self.fn, inst.o[1])
        if w and w[0] == 'g' and any(w[1] in m for m in self.savers.values()):
            self.flag(st, [('t', 'set', w[1], inst.loc())], lambda x: x[1] == 'set' and x[2] == w[1])
        if w and w[0] == 'g' and w[2] == 0 and w[1] in self.sh.stackvars:
            k = self.sh.pushpop(self.fn, inst.o[0])
            if 'push' in k:
                st.flags = st.flags | {('e', 'push', w[1])}
            elif 'pop' in k:
                st.flags = st.flags - {('e', 'push', w[1])}
            return
        c = self.cell(inst, inst.o[1])
        if c is None:
            return
        if c[0] == 'f':
            self.lockput(st, inst, c, inst.o[0], inst.o[1])
        else:
            self.put(st, inst, c, inst.o[0])

    def lockput(self, st, inst, c, v, addr):
        g = self.owner(addr)
        self.put(st, inst, c, v, g)
        if self.has(st, 't', 'back', c):
            if g in self.sh.stackvars:
                self.sites.add((self.fn.key, inst.id))
                if ('e', 'push', g) in st.flags:
                    self.report('restore', inst, 'what was pushed on %s is still there when the mark below it is given up' % g, st, key='left on ' + g)

    def owner(self, v):
        f = self.fn
        for _ in range(10):
            if v[0] == 'g':
                return v[1]
            d = f.defs.get(v[1]) if v[0] == 'i' else None
            if d is None:
                return None
            t = gtls(f, d)
            if t is not None:
                return t
            if d.op not in ('load', 'getelementptr', 'bitcast'):
                return None
            v = d.o[0]
        return None

    def intrinsic(self, st, inst, name):
        if not name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if name.startswith('llvm.memset'):
                a = self.cell(inst, inst.o[0])
                b = base_of(self.oper(st, inst.o[0]))
                self.flag(st, drop=lambda x: x[1] in ('cp', 'tm') and x[2] == b)
                if a:
                    self.put(st, inst, a, None)
            return super().intrinsic(st, inst, name)
        d, s = base_of(self.oper(st, inst.o[0])), base_of(self.oper(st, inst.o[1]))
        src = {x for x in st.flags if isinstance(x, tuple) and x[0] == 't' and x[1] in ('cp', 'tm') and x[2] == s}
        r = super().intrinsic(st, inst, name)
        for o in r:
            self.flag(o, drop=lambda x: x[1] in ('cp', 'tm') and x[2] == d)
            wd, ws = where(self.fn, inst.o[0]), where(self.fn, inst.o[1])
            if d[0] == 'al':
                self.flag(o, [x[:2] + (d,) + x[3:] for x in src])
                if ws and ws[0] == 'g' and self.region(ws[1]) and not self.has(o, 't', 'own', ('r', ws[1])):
                    self.flag(o, [('t', 'cp', d, ws[1])])
            if wd and wd[0] == 'g' and self.region(wd[1]):
                c = ('r', wd[1])
                if ('t', 'cp', s, wd[1]) in src:
                    if self.has(o, 't', 'own', c):
                        self.flag(o, [('t', 'back', c)], lambda x: x[1] == 'own' and x[2] == c)
                else:
                    self.flag(o, [('t', 'own', c, inst.loc(), None)], lambda x: x[1] in ('own', 'back') and x[2] == c)
        return r

    # -- brackets
    def take(self, st, inst, m):
        self.sites.add((self.fn.key, inst.id))
        if ('e', 'close', m) in st.flags:
            st.flags = st.flags - {('e', 'close', m)}
        else:
            st.flags = st.flags | {('e', 'open', m)}

    def drop(self, st, inst, m, only=False):
        self.sites.add((self.fn.key, inst.id))
        if ('e', 'open', m) in st.flags:
            st.flags = st.flags - {('e', 'open', m)}
        elif not only:
            st.flags = st.flags | {('e', 'close', m)}

    def event(self, st, inst, name, args):
        if name in BRACKETS:
            k, m = BRACKETS[name]
            (self.take if k == 'open' else self.drop)(st, inst, m)
            return None
        for g in self.savers.get(name, ()):
            self.saves += 1
            for x in st.flags:
                if isinstance(x, tuple) and x[:3] == ('t', 'set', g):
                    self.report('restore', inst, '%s is changed at %s, before it is saved: what is restored later is the changed value' % (g, x[3]), st, key='late ' + g)
        f = self.prog.resolve(name, self.fn.tu)
        if f is None:
            if name in TERMGET and len(inst.o) > TERMGET[name]:
                b = base_of(args[TERMGET[name]])
                r = self.unknown_call(st, inst, args, False)
                for o in r:
                    self.flag(o, drop=lambda x: x[1] == 'tm' and x[2] == b)
                    if b[0] == 'al' and not self.has(o, 'e', 'open', TERM):
                        self.flag(o, [('t', 'tm', b)])
                return r
            if name in TERMSET and len(inst.o) > TERMSET[name]:
                return self.terminal(st, inst, name, args[TERMSET[name]])
            k = WRITERS.get(name)
            if k is not None:
                b = base_of(args[k])
                self.flag(st, drop=lambda x: x[1] in ('cp', 'tm') and x[2] == b)
                c = self.cell(inst, inst.o[k])
                if c:
                    self.put(st, inst, c, None)
            return None
        for e in self.sh.accessor(f):
            if e[1] < len(inst.o) and self.sh.globalptr(self.fn, inst.o[e[1]]):
                c = ('f', e[2], e[3])
                if e[0] == 'set':
                    self.lockput(st, inst, c, inst.o[e[4]], inst.o[e[1]])
                else:
                    r = self.apply_summary(st, inst, f, self.sums[f.key], args) if f.key in self.sums else self.unknown_call(st, inst, args, True)
                    self.getters.add(('ld', inst.id, c))
                    for o in r:
                        self.read(o, inst, c, None)
                    return r
        return None

    def terminal(self, st, inst, name, a):
        b = base_of(a)
        orig = ('t', 'tm', b) in st.flags
        if b[0] == 'g' and (b[1][1] if isinstance(b[1], tuple) else b[1]) in self.sh.kept:
            orig = True
        if a[0] == 's' and name == 'SetConsoleMode':
            # the value itself: read from a local the terminal filled
            d = self.fn.defs.get(inst.o[1][1]) if inst.o[1][0] == 'i' else None
            if d is not None and d.op == 'load':
                x = base_of(self.oper(st, d.o[0]))
                orig = ('t', 'tm', x) in st.flags
        ok, ko = st, st.copy()
        if orig:
            self.drop(ok, inst, TERM, b[0] == 'al')
        else:
            self.take(ok, inst, TERM)
        good = 0 if name == 'tcsetattr' else 1
        ok.val[inst.id] = ('k', good)
        ko.val[inst.id] = ('k', -1 if good == 0 else 0)
        if orig:
            self.drop(ko, inst, TERM, b[0] == 'al')       # nothing more can be done about that
        return [ok, ko]

    def apply_effect(self, st, inst, e, args):
        if e[1] == 'open':
            self.take(st, inst, e[2])
        elif e[1] == 'close':
            self.drop(st, inst, e[2])
        elif e[1] == 'push':
            st.flags = st.flags | {e}
        return True

    def on_return(self, st, inst, r):
        f = self.fn
        for x in st.flags:
            if isinstance(x, tuple) and x[:2] == ('t', 'own'):
                self.marks.setdefault((f.key, x[2]), {}).setdefault('left', inst.loc())
                self.report('restore', inst, '%s, changed at %s, is not put back on a path that returns, others do' % (self.name(x[2]), x[3]), st, key=x[2])
            elif isinstance(x, tuple) and x[:2] == ('t', 'back'):
                self.marks.setdefault((f.key, x[2]), {}).setdefault('back', inst.loc())
        for (b, off), m in st.mem.items():
            if b[0] == 'g' and off == 0 and base_of(m[0])[0] == 'al':
                self.report('restore', inst, '%s is left leading to a local of the function that returns' % (b[1][1] if isinstance(b[1], tuple) else b[1]), st, key='local in %s' % (b[1][1] if isinstance(b[1], tuple) else b[1]))

    def finish(self, f, s):
        per = [frozenset(e for e in c.eff if e[1] != 'push') for c in s.cases]
        c = ('e', 'close', TERM)
        if any(c in x for x in per) and not any(('e', 'open', TERM) in x for x in per):
            # it undoes what was done, if it was: whether it was is kept in a variable
            per = [x | {c} for x in per]
            s.cases = [sym.Case(k.argf, frozenset(k.eff) | {c}, k.ret, k.out, k.unk, k.flags) for k in s.cases]
        if len(set(per)) > 1 or (per and per[0] and self.root(f)):
            for e in sorted(frozenset().union(*per)):
                if len(set(per)) > 1 and all(e in p for p in per) and not self.root(f):
                    continue
                if (f.name, e[2]) in WAIVED or e == c:
                    continue
                if len(set(per)) > 1 and not self.root(f) and self.told(s, e):
                    continue
                w = 'changed and not put back' if e[1] == 'open' else 'put back without having been changed'
                self.reports[('restore', f.key, '%s %s' % (e[1], e[2]))] = dict(kind='restore', func=f.name, tu=f.tu, loc='%s:%d' % (f.tu, f.line),
                             detail='%s is %s on %s path' % (e[2], w, 'a' if len(set(per)) > 1 else 'every'), path=[], extra=None)
                s.cases = [sym.Case(c.argf, frozenset(x for x in c.eff if x != e), c.ret, c.out, c.unk, c.flags) for c in s.cases]
        return s

    def told(self, s, e):
        """what is returned says which of the two it was"""
        a = {str(c.ret) for c in s.cases if e in c.eff}
        b = {str(c.ret) for c in s.cases if e not in c.eff}
        return not (a & b) and all('k' in x for x in a | b)

    def root(self, f):
        if not hasattr(self, '_callers'):
            self._callers = set().union(*self.prog.callgraph().values()) if self.prog.funcs else set()
        return f.key in self.handlers or f.key not in self._callers


def saved(p):
    """objects put on a list to be taken back from there: {structure: (functions that save, functions that restore, {variable: field} saved, the same restored)}"""
    sv, rs = {}, {}
    for f in p.funcs.values():
        heads = set()
        mine, back = {}, {}
        for i in f.insts():
            if i.op != 'store':
                continue
            d = f.defs.get(i.o[1][1]) if i.o[1][0] == 'i' else None
            w = where(f, i.o[1])
            if w and w[0] == 'g' and w[2] == 0:
                for x in leaves(f, i.o[0]):
                    e = f.defs.get(x[1]) if x[0] == 'i' else None
                    if e is None:
                        continue
                    if e.op == 'call' and e.callee in ('malloc', 'calloc'):
                        heads.add(w[1])
                    g = f.defs.get(e.o[0][1]) if e.op == 'load' and e.o[0][0] == 'i' else None
                    k = field(g)
                    if k:
                        back.setdefault(k[0], {})[w[1]] = k[1]
            k = field(d)
            if k and any(x[0] == 'i' and f.defs[x[1]].op == 'call' and f.defs[x[1]].callee in ('malloc', 'calloc') for x in leaves(f, d.o[0])):
                for x in leaves(f, i.o[0]):
                    e = f.defs.get(x[1]) if x[0] == 'i' else None
                    if e is not None and e.op == 'load':
                        w = where(f, e.o[0])
                        if w and w[0] == 'g' and w[2] == 0:
                            mine.setdefault(k[0], {})[w[1]] = k[1]
        if heads:
            for k, v in mine.items():
                a = sv.setdefault(k, (set(), {}))
                a[0].add(f.name)
                a[1].update(v)
        for k, v in back.items():
            a = rs.setdefault(k, (set(), {}))
            a[0].add(f.name)
            a[1].update(v)
    return {k: sv[k][:1] + rs[k][:1] + sv[k][1:] + rs[k][1:] for k in sv if k in rs and len(set(sv[k][1]) & set(rs[k][1])) >= 2}


def field(d):
    if d is None or d.op != 'getelementptr':
        return None
    p = d.path or []
    if not p or p[-1][0] != 'f':
        return None
    return p[-1][1].replace('struct.', ''), sum(s[3] for s in p if s[0] == 'f')


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    e = Keep(p)
    e.run()
    reps = []
    for k, (a, b, m, n) in e.saved.items():
        for g in sorted(set(m) | set(n)):
            if m.get(g) != n.get(g):
                w = 'saved, but not restored from there' if g not in n else 'restored, but not saved there' if g not in m else 'restored from something else than where it was saved'
                f = [x for x in p.funcs.values() if x.name in (a if g not in m else b)][0]
                reps.append((('restore', f.key, 'saved ' + g), dict(func=f.name, loc='%s:%d' % (f.tu, f.line), detail='%s is %s (%s)' % (g, w, k), path=[])))
    back = {k for k, m in e.marks.items() if 'back' in m}
    for k, r in e.reports.items():
        if isinstance(k[2], tuple) and not any(b[0].endswith(r['func']) and b[1] == k[2] for b in back):
            continue
        reps.append((k, r))
    pairs = {}
    for fk, c in back:
        pairs.setdefault(e.name(c), []).append(p.funcs[fk].name)
    return cfg, reps, dict(e.stats), dict(e.incomplete), pairs, len(e.sites), e.saves, {k: sorted(v[2]) for k, v in e.saved.items()}, sorted(e.sh.kept), sorted(e.sh.stackvars)


def run(pid, ctx):
    import build
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'restore.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, pairs, sites, saves, saved, kept, stacks in res:
        if cfg == 'selftest':
            hit = {r['func'] for k, r in reps}
            for x in re.findall(r'\b(bad_\w+)\(', open(os.path.join(ctx.verif, 'selftest', 'restore.c')).read()):
                if x not in hit:
                    ctx.broken('self-test: %s not reported' % x)
            for x in hit:
                if not x.startswith('bad_'):
                    ctx.broken('self-test: %s reported' % x)
            continue
        for k, r in reps:
            ctx.violation('%s %s' % (r['func'], k[2] if isinstance(k[2], str) else ' '.join(map(str, k[2]))), r['loc'], '%s: %s' % (r['func'], r['detail']),
                          'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
        cov[cfg] = dict(put_back={k: sorted(set(v)) for k, v in pairs.items()}, bracket_sites=sites, calls_that_save=saves, saved_on_lists=saved, kept_in=kept, stacks=stacks, path_states=stats.get('visits', 0), cut_short=inc)
        ctx.need(sum(len(set(v)) for v in pairs.values()), 7, '%s: places that change something and put it back' % cfg)
        ctx.need(sites, 8, '%s: brackets' % cfg)
        ctx.need(len(saved), 1, '%s: saved settings' % cfg)
        ctx.need(len(stacks), 1, '%s: stacks' % cfg)
    ctx.cov(waived=['%s: %s' % (k[0], v) for k, v in WAIVED.items()], **cov)
