"""Reads of values that some path leaves unset."""
from sym import Engine, UNDEF, ZERO, base_of, mkp, INF
from resources import NORETURN, ACQ


# library calls that leave their outputs alone when they fail: (result that says so, output arguments)
FAILOUT = {
    'stat': (-1, (1,)), 'lstat': (-1, (1,)), 'fstat': (-1, (1,)), 'stat64': (-1, (1,)), 'fstat64': (-1, (1,)), '_fstat64': (-1, (1,)), '_stat64': (-1, (1,)), '_wstat64': (-1, (1,)),
    'fgets': (0, (0,)), 'getcwd': (0, (0,)), 'readlink': (-1, (1,)), 'read': (-1, (1,)), '_read': (-1, (1,)), 'waitpid': (-1, (1,)), 'tcgetattr': (-1, (1,)), 'ioctl': (-1, (2,)),
    'CreateProcessW': (0, (9,)), 'CreateProcessA': (0, (9,)), 'GetExitCodeProcess': (0, (1,)), 'GetExitCodeThread': (0, (1,)),
    'GetFileAttributesExW': (0, (2,)), 'GetFileAttributesExA': (0, (2,)), 'GetConsoleScreenBufferInfo': (0, (1,)), 'GetConsoleMode': (0, (1,)),
    'GetConsoleCursorInfo': (0, (1,)), 'FindFirstFileW': (-1, (1,)), 'FindNextFileW': (0, (1,)), 'FindFirstFileA': (-1, (1,)), 'ReadConsoleW': (0, (1, 3)), 'ReadConsoleInputW': (0, (1, 3)),
    'gettimeofday': (-1, (0,)), 'GetDiskFreeSpaceExW': (0, (1, 2, 3)), 'GetVersionExA': (0, (0,)), 'GetFileTime': (0, (1, 2, 3)), 'FileTimeToSystemTime': (0, (1,)),
    'FileTimeToLocalFileTime': (0, (1,)), 'ReadFile': (0, (1, 3)), '_wfindfirst64': (-1, (1,)), '_wfindnext64': (-1, (1,)), '_pipe': (-1, (0,)), 'pthread_join': (1, (1,)),
}


def place(f, v, depth=0):
    """(argument, constant offset) a pointer is, or None"""
    off = 0
    while depth < 8:
        depth += 1
        if v[0] == 'a':
            return v[1], off
        if v[0] != 'i':
            return None
        d = f.defs.get(v[1])
        if d is None:
            return None
        if d.op == 'bitcast':
            v = d.o[0]
            continue
        if d.op != 'getelementptr':
            return None
        for x in d.path or ():
            if x[0] == 'f':
                off += x[3]
            elif x[0] == 'x' and x[1][0] == 'c':
                off += x[1][1] * x[2]
            else:
                return None
        v = d.o[0]
    return None


def firstreads(prog):
    """{function: {(argument, offset, size)}} read through an argument whenever the function is run, before it, or anything it calls, wrote there"""
    out = {}
    for comp in prog.sccs():
        for k in comp:
            f = prog.funcs[k]
            if not any(t == 'ptr' for _, t in f.args):
                continue
            ends = [b for b in range(len(f.blocks)) if not f.blocks[b].succ]
            r, seen, b = set(), set(), 0
            dirty = False
            while b is not None and b not in seen and not dirty:
                seen.add(b)
                for i in f.blocks[b].insts:
                    if i.op == 'load':
                        p = place(f, i.o[0])
                        if p and i.sz:
                            r.add((p[0], p[1], i.sz))
                    elif i.op == 'store':
                        p = place(f, i.o[1])
                        if p is None:
                            d = f.defs.get(i.o[1][1]) if i.o[1][0] == 'i' else None
                            if not (i.o[1][0] == 'g' or d is not None and d.op == 'alloca'):
                                dirty = True
                                break
                        else:
                            # what follows at this place is its own
                            r.add((p[0], p[1], -i.sz if i.sz else -8))
                    elif i.op in ('call', 'invoke'):
                        c = i.callee or ''
                        if c.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.threadlocal')):
                            continue
                        g = prog.resolve(c, f.tu) if c else None
                        if g is not None and g.key in out and g.key not in comp:
                            for n, o, z in out[g.key]:
                                p = place(f, i.o[n]) if n < len(i.o) else None
                                if p:
                                    r.add((p[0], p[1] + o, z))
                        dirty = True
                        break
                s = f.blocks[b].succ
                b = s[0] if len(s) == 1 else None
            good = set()
            w = {(a, o, -z) for a, o, z in r if z < 0}
            for a, o, z in r:
                if z > 0 and not any(x == a and y < o + z and o < y + q for x, y, q in w - {(a, o, z)}):
                    good.add((a, o, z))
            # a place that is read and written: only known to be read first when the read comes first
            out[k] = {x for x in good if x not in w or first(f, x)}
    return {k: v for k, v in out.items() if v}


def first(f, x):
    for i in f.blocks[0].insts:
        if i.op == 'load' and i.sz == x[2] and place(f, i.o[0]) == x[:2]:
            return True
        if i.op == 'store' and place(f, i.o[1]) == x[:2]:
            return False
        if i.op in ('call', 'invoke'):
            return False
    return False


class Uninit(Engine):
    fr = None
    keep_undef = True
    keep_undef_outs = True

    def refs(self, st):
        # which locals are unset is never merged away: it correlates with flags of the code
        return frozenset([k for k, t in st.val.items() if t == UNDEF] + [k for k, v in st.mem.items() if k[0][0] == 'al' and k[1] != '*' and v[0] != UNDEF])

    def what(self, inst, v):
        if v is None:
            return inst.op
        if v[0] == 'i':
            d = self.fn.defs.get(v[1])
            if d is not None:
                return d.name or (d.callee + '()' if d.callee else d.op)
        if v[0] == 'a':
            return self.fn.args[v[1]][0]
        return v[0]

    def on_use(self, st, inst, t, what):
        if t != UNDEF:
            return
        n = '?'
        for v in inst.o:
            if self.oper(st, v) == UNDEF:
                n = self.what(inst, v)
                break
        if what == 'argument':
            name = inst.callee
            f = self.prog.resolve(name, self.fn.tu) if name else None
            if f is not None or name is None:
                return      # decided by what the callee does with it
        self.report('uninit', inst, '%s used as %s (%s) before anything was stored in it' % (n, what, inst.callee or inst.op), st,
                    key='%s %s' % (n, what))

    def on_deref(self, st, inst, addr):
        b = base_of(addr)
        if b == UNDEF:
            self.report('uninit', inst, 'uninitialised pointer dereferenced', st, key='deref %s' % (inst.callee or inst.op))
        elif b[0] == 's' and b[1] == 'a':
            self.uses.add(b[2])

    def spec(self, st, inst, name, args):
        if name in NORETURN:
            return []
        if self.prog.resolve(name, self.fn.tu) is None:
            if name in ('pipe',):
                s0 = st.copy(); s0.val[inst.id] = ('k', -1)
                st.val[inst.id] = ZERO
                self.havoc_base(st, base_of(args[0]))
                return [s0, st]
            fo = FAILOUT.get(name)
            if fo is not None and len(args) > max(fo[1] + (-1,)) and all(base_of(args[n])[0] in ('al', 'k', 'null') for n in fo[1]):
                self.on_libc(st, inst, args)
                s0 = st.copy()
                s0.val[inst.id] = ('k', fo[0])
                for n in fo[1]:
                    if base_of(args[n])[0] == 'al':
                        self.havoc_base(st, base_of(args[n]))
                s = self.fresh(st, inst.id)
                st.val[inst.id] = s
                self.setfact(st, s, -INF, INF, frozenset([fo[0]]))
                return [s0, st]
            if name == 'malloc':
                s0 = st.copy(); s0.val[inst.id] = ZERO
                s = self.fresh(st, inst.id); st.val[inst.id] = s
                self.setfact(st, s, -INF, INF, frozenset([0]))
                st.mem[(s, '*')] = (UNDEF, 0, '*')
                return [s0, st]
        return None

    def apply_summary(self, st, inst, f, sm, args):
        if self.fr is None:
            self.fr = firstreads(self.prog)
        for n, o, z in sorted(self.fr.get(f.key, ())):
            if n >= len(args):
                continue
            a = mkp(args[n], o)
            b = base_of(a)
            off = a[2] if a[0] == 'p' else 0
            if b[0] != 'al' or off == '?':
                continue
            m = st.mem.get((b, off))
            if m is None and not any(k[0] == b and k[1] != '*' and (k[1] == '?' or k[1] < off + z and off < k[1] + v[1]) for k, v in st.mem.items()):
                m = st.mem.get((b, '*'))
            if m is not None and m[0] == UNDEF:
                self.report('uninit', inst, '%s reads what argument %d leads to, and nothing was stored there' % (f.name, n + 1), st, key='read by %s %d' % (f.name, n))
                break
        return Engine.apply_summary(self, st, inst, f, sm, args)

    def on_pass_use(self, st, inst, f, t, i):
        if t == UNDEF:
            self.report('uninit', inst, 'uninitialised value passed to %s, which uses it' % f.name, st, key='arg %d of %s' % (i, f.name))


if __name__ == '__main__':
    import sys, time, ir
    t = time.time()
    p = ir.Program(sys.argv[1] if len(sys.argv) > 1 else 'linux')
    e = Uninit(p)
    import resource as rs
    rs.setrlimit(rs.RLIMIT_AS, (6<<30, 6<<30))
    e.run()
    print('run', time.time() - t, dict(e.stats), 'incomplete', e.incomplete)
    for k, r in sorted(e.reports.items()):
        print(r['kind'], r['func'], r['loc'], r['detail'], r['path'][-14:])
