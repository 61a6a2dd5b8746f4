"""Ownership client: who owns a heap block, file, descriptor, directory or cached string."""
from sym import Engine, Summary, State, base_of, syms, mkp, ZERO, UNDEF, INF, NZ

# callee -> (kind, failure value)
ACQ = {
    'malloc': ('heap', 0), 'calloc': ('heap', 0), 'strdup': ('heap', 0), 'strndup': ('heap', 0), '_strdup': ('heap', 0),
    '_wcsdup': ('heap', 0), 'wcsdup': ('heap', 0),
    'fopen': ('file', 0), 'freopen': ('file', 0), 'tmpfile': ('file', 0), '_wfopen': ('file', 0),
    'popen': ('pipe', 0), '_popen': ('pipe', 0),
    'opendir': ('dir', 0), '_wopendir': ('dir', 0),
    'open': ('fd', -1), 'open64': ('fd', -1), 'creat': ('fd', -1), 'dup': ('fd', -1), 'mkstemp': ('fd', -1),
    '_open': ('fd', -1), '_wopen': ('fd', -1), '_dup': ('fd', -1), '_open_osfhandle': ('fd', -1),
    'libcu8_xconvert': ('heap', 0), 'pBat_EsCacheInit': ('estr', None),
    'pBat_GetMatchFileList': ('list', 0), 'pBat_GetParamList': ('params', 0),
}
MODELLED = {'libcu8_xconvert', 'pBat_EsCacheInit', 'pBat_EsCacheFree', 'pBat_GetMatchFileList', 'pBat_FreeFileList', 'pBat_GetParamList', 'pBat_FreeParamList'}
REL = {'free': 'heap', 'fclose': 'file', 'pclose': 'pipe', '_pclose': 'pipe', 'closedir': 'dir', '_wclosedir': 'dir',
       'close': 'fd', '_close': 'fd', 'pBat_EsCacheFree': 'estr', 'pBat_FreeFileList': 'list', 'pBat_FreeParamList': 'params'}
# extern functions that keep their argument
KEEP = {'pthread_create': (3,), 'putenv': (0,), '_putenv': (0,), 'setvbuf': (1,), 'atexit': (0,), 'signal': (1,),
        'pthread_setspecific': (1,), 'CreateThread': (3,), '_beginthreadex': (3,), '_beginthread': (2,)}
NORETURN = {'exit', '_exit', 'abort', 'pthread_exit', '_endthreadex', 'ExitProcess', 'ExitThread', '__assert_fail', '_endthread', '_Exit'}
FDKINDS = {'fd'}
OWNED = {'heap', 'estr', 'list', 'params'}


class Resources(Engine):
    kinds = {'heap', 'file', 'pipe', 'dir', 'fd', 'estr', 'list', 'params'}
    uaf = False
    leaks = True
    nullderef = False
    specs_extra = {}
    nonnull_fields = frozenset(['struct.ESTR.str'])

    # -------------------------------------------------------- helpers
    def acquire(self, st, inst, sym, kind, label=None):
        if kind in self.kinds:
            st.res[sym] = ('open', kind, label or '%s' % (inst.callee or '?'), inst.id)
            self.stats['acquired'] += 1

    def invalid(self, st, s, kind):
        r = self.rng(st, s)
        if kind in FDKINDS:
            return r[1] < 0
        return r[0] == r[1] == 0

    def release(self, st, inst, t, kind):
        b = base_of(t)
        if t == UNDEF:
            if self.uaf:
                self.report('uninit-release', inst, 'releases an uninitialised %s' % kind, st, key='%s' % inst.callee)
            return
        if b[0] != 's':
            return
        if self.invalid(st, b, kind):
            return
        self.stats['releases'] += 1
        if b[1] == 'a':
            st.flags = st.flags | {('rel', b[2], kind)}
        elif isinstance(b[1], tuple) and b[1][0] == 'ld' and b[2] == 0:
            st.flags = st.flags | {('reld', b[1][1], b[1][2], kind)}
        r = st.res.get(b)
        if r is not None and r[0] == 'freed':
            if self.uaf:
                self.report('double-release', inst, '%s released twice (first: %s)' % (r[1], r[2]), st,
                            key='%s %s' % (self.nameof(b), r[1]))
            return
        if r is not None:
            st.res.pop(b)
        if self.uaf and b[2] != 2:
            if kind not in FDKINDS:
                # what was stored in there is gone
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
            st.res[b] = ('freed', kind, inst.callee or '?', inst.id)

    def nameof(self, s):
        if s[1] == 'a':
            return self.fn.args[s[2]][0]
        k = s[1]
        if isinstance(k, tuple):
            k = k[0]
        i = self.fn.defs.get(k)
        if i is None:
            return '?'
        if i.name:
            return i.name
        if i.callee:
            return i.callee + '()'
        return i.op

    def escape(self, st, t):
        acc = syms(base_of(t), set())
        for b in acc:
            if b in st.res and st.res[b][0] == 'open':
                st.res.pop(b)
                st.flags = st.flags
            if b[1] == 'a':
                st.flags = st.flags | {('esc', b[2])}
            elif isinstance(b[1], tuple) and b[1][0] == 'ld' and b[2] == 0:
                st.flags = st.flags | {('escd', b[1][1], b[1][2])}

    # -------------------------------------------------------- hooks
    def on_store(self, st, inst, base, off, t):
        if t[0] not in ('s', 'p'):
            return
        b = base_of(t)
        if b[0] != 's':
            return
        if base[0] == 'al':
            if base in st.esc or off == '?':
                self.escape(st, t)
            return
        if base[0] == 's' and base[1] == 'a' and off != '?' and not (b[1] == 'a'):
            r = st.res.get(b)
            if r is None or r[1] not in OWNED or inst.op != 'store' or self.cls_of(inst, inst.o[1]) == 'raw':
                return      # out parameter: stays tracked, described in the summary
            # memory hung into a structure that belongs to someone else is owned by it
        self.escape(st, t)

    def keep_cell(self, st, b):
        return b in st.res and st.res[b][0] == 'open'

    def on_handover(self, st, t):
        b = base_of(t)
        if b[0] == 's' and b[1] == 'a':
            st.flags = st.flags | {('esc', b[2])}

    def on_lost(self, st, s, r, inst):
        if r[0] == 'open':
            if self.leaks and not self.invalid(st, s, r[1]):
                # reported when (and only if) the function returns: fatal exits are no leaks
                st.res[s] = ('lost', r[1], r[2], r[3], inst.oline or inst.line)
            else:
                st.res.pop(s)
        elif r[0] == 'freed':
            st.res.pop(s)

    def leaked(self, st, s, r, inst):
        if not self.leaks or self.fn.name == 'main' or self.invalid(st, s, r[1]):
            return
        a = self.fn.defs.get(r[3])
        self.report('leak', a, '%s obtained from %s (%s) is never released on a path returning at line %s%s' % (
            r[1], r[2], self.nameof(s), inst.oline or inst.line, ', last reference dropped at line %s' % r[4] if len(r) > 4 else ''),
            st, key='%s %s %s' % (r[1], r[2], self.nameof(s)))

    def on_return(self, st, inst, t):
        reach = set()
        if t is not None:
            syms(t, reach)
        for (b, o), (x, z, cl) in st.mem.items():
            if b[0] == 's' and b[1] == 'a':
                syms(x, reach)
        for s, r in list(st.res.items()):
            if r[0] == 'lost' or (r[0] == 'open' and s not in reach):
                self.leaked(st, s, r, inst)

    def distinct(self, st, a, b):
        """a resource obtained here differs from every other value"""
        x, y = base_of(a), base_of(b)
        if x == y:
            return False
        for s, o in ((x, y), (y, x)):
            r = st.res.get(s)
            if r is not None and r[0] in ('open', 'freed') and s[2] < 2:
                if o[0] == 's' and o[1] in (None,):
                    continue
                if r[0] == 'open' and o[0] in ('s', 'g', 'al', 'str'):
                    return True
        return False

    def fresh_desc(self, st, t):
        if t is None or t[0] not in ('s', 'p'):
            return None
        b = base_of(t)
        r = st.res.get(b)
        if r is not None and r[0] == 'open':
            if self.invalid(st, b, r[1]):
                return None
            return (r[1], 1 if r[1] not in FDKINDS else 0)
        return None

    def bind_fresh(self, st, inst, s, desc):
        self.acquire(st, inst, s, desc[0])
        if desc[0] in FDKINDS:
            self.setfact(st, s, 0, INF, frozenset())
        else:
            self.setfact(st, s, -INF, INF, frozenset([0]))

    def case_effects(self, st, ret):
        return frozenset(x for x in st.flags if isinstance(x, tuple) and x[0] in ('rel', 'esc', 'reld', 'escd'))

    def apply_effect(self, st, inst, e, args):
        if e[0] == 'rel' and e[1] < len(args):
            self.release(st, inst, args[e[1]], e[2])
        elif e[0] == 'esc' and e[1] < len(args):
            self.escape(st, args[e[1]])
            b = base_of(args[e[1]])
            if b[0] == 'al':
                # what the local holds is now reachable from elsewhere
                st.esc = st.esc | {b}
                for k, v in list(st.mem.items()):
                    if k[0] == b:
                        self.escape(st, v[0])
        elif e[0] in ('reld', 'escd') and e[1] < len(args):
            a = mkp(args[e[1]], e[2])
            b = base_of(a)
            o = a[2] if a[0] == 'p' else 0
            m = st.mem.get((b, o))
            if m is not None:
                if e[0] == 'reld':
                    self.release(st, inst, m[0], e[3])
                else:
                    self.escape(st, m[0])
            elif b[0] == 's' and b[1] == 'a' and o != '?' and (b[2], o) not in self.W:
                st.flags = st.flags | {('reld', b[2], o, e[3]) if e[0] == 'reld' else ('escd', b[2], o)}
        return True

    def on_call(self, st, inst, name, args):
        if self.uaf:
            for a in args:
                b = base_of(a)
                r = st.res.get(b)
                if r is not None and r[0] == 'freed' and not (name in REL) and r[1] not in FDKINDS:
                    f = self.prog.resolve(name, self.fn.tu) if name else None
                    if f is None or f.key not in self.sums:
                        self.report('use-after-release', inst, '%s passed to %s after %s' % (self.nameof(b), name, r[2]), st,
                                    key='%s %s' % (self.nameof(b), name))

    def on_deref(self, st, inst, addr, via=False):
        b = base_of(addr)
        if b[0] == 's':
            if self.uaf:
                r = st.res.get(b)
                if r is not None and r[0] == 'freed' and r[1] not in FDKINDS:
                    self.report('use-after-release', inst, '%s used after %s' % (self.nameof(b), r[2]), st, key=self.nameof(b))
                if b[1] == 'a':
                    self.uses.add(b[2])

    def on_libc(self, st, inst, args):
        if self.uaf and not (inst.callee in REL):
            for a in args:
                b = base_of(a)
                if b[0] == 's' and b[1] == 'a':
                    self.uses.add(b[2])

    def on_pass_use(self, st, inst, f, t, i):
        b = base_of(t)
        if b[0] == 's':
            if b[1] == 'a':
                self.uses.add(b[2])
            r = st.res.get(b)
            if self.uaf and r is not None and r[0] == 'freed' and r[1] not in FDKINDS:
                self.report('use-after-release', inst, '%s passed to %s after %s' % (self.nameof(b), f.name, r[2]), st,
                            key='%s %s' % (self.nameof(b), f.name))

    # -------------------------------------------------------- external functions
    def spec(self, st, inst, name, args):
        if name in NORETURN:
            return []
        if name in ('execv', 'execvp', 'execve', 'execl', 'execlp', 'execle', 'execvpe'):
            st.val[inst.id] = ('k', -1)
            return [st]
        f = self.specs_extra.get(name)
        if f is not None:
            return f(self, st, inst, args)
        if name in ACQ:
            kind, bad = ACQ[name]
            if kind in self.kinds and name in MODELLED or self.prog.resolve(name, self.fn.tu) is None:
                out = []
                if bad is not None:
                    s0 = st.copy()
                    s0.val[inst.id] = ('k', bad)
                    if self.fail_paths:
                        out.append(s0)
                s1 = st
                s = self.fresh(s1, inst.id)
                s1.val[inst.id] = s
                self.acquire(s1, inst, s, kind)
                if kind in FDKINDS:
                    self.setfact(s1, s, 0, INF, frozenset())
                else:
                    self.setfact(s1, s, -INF, INF, frozenset([0]))
                if name == 'calloc':
                    s1.mem[(s, '*')] = (ZERO, 0, '*')
                elif name == 'malloc':
                    s1.mem[(s, '*')] = (UNDEF, 0, '*')
                out.append(s1)
                return out
        if name in REL:
            if REL[name] in self.kinds and name in MODELLED or self.prog.resolve(name, self.fn.tu) is None:
                t = args[1] if name == 'pBat_EsCacheFree' else args[0]
                self.release(st, inst, t, REL[name])
                if inst.ty:
                    st.val[inst.id] = self.fresh(st, inst.id)
                return [st]
        if name == 'realloc' and self.prog.resolve(name, self.fn.tu) is None:
            s0 = st.copy()
            s0.val[inst.id] = ZERO
            s1 = st
            b = base_of(args[0])
            self.release(s1, inst, args[0], 'heap')
            s = self.fresh(s1, inst.id)
            s1.val[inst.id] = s
            self.acquire(s1, inst, s, 'heap')
            self.setfact(s1, s, -INF, INF, frozenset([0]))
            return [s0, s1] if self.fail_paths else [s1]
        if name in ('fdopen', '_fdopen') and self.prog.resolve(name, self.fn.tu) is None:
            s0 = st.copy()
            s0.val[inst.id] = ZERO
            s1 = st
            self.release(s1, inst, args[0], 'fd')
            s = self.fresh(s1, inst.id)
            s1.val[inst.id] = s
            self.acquire(s1, inst, s, 'file')
            self.setfact(s1, s, -INF, INF, frozenset([0]))
            return [s0, s1]
        if name == 'pBat_AttributesSplitFileList' and 'list' in self.kinds:
            # splits the list into two new heads, either of which may be empty
            self.release(st, inst, args[1], 'list')
            out = []
            for m in range(4):
                s = st.copy()
                for n in (0, 1):
                    if m >> n & 1:
                        x = self.fresh(s, (inst.id, 'o', n + 2, 0))
                        self.setfact(s, x, -INF, INF, frozenset([0]))
                        self.store(s, self.oper(s, inst.o[n + 2]), x, 8, inst)
                        self.acquire(s, inst, x, 'list')
                    else:
                        self.store(s, args[n + 2], ZERO, 8, inst)
                s.val[inst.id] = self.fresh(s, inst.id)
                out.append(s)
            return out
        if name in ('pipe', '_pipe') and self.prog.resolve(name, self.fn.tu) is None:
            s0 = st.copy()
            s0.val[inst.id] = ('k', -1)
            s1 = st
            s1.val[inst.id] = ZERO
            for n in (0, 1):
                s = self.fresh(s1, (inst.id, 'o', 0, 4 * n))
                self.store(s1, mkp(self.oper(s1, inst.o[0]), 4 * n), s, 4, inst)
                self.acquire(s1, inst, s, 'fd')
                self.setfact(s1, s, 0, INF, frozenset())
            return [s0, s1]
        if name in KEEP and self.prog.resolve(name, self.fn.tu) is None:
            for k in KEEP[name]:
                if k < len(args):
                    self.escape(st, args[k])
            return self.unknown_call(st, inst, args, False)
        return None

    fail_paths = True


if __name__ == '__main__':
    import sys, time, ir
    t = time.time()
    p = ir.Program(sys.argv[2] if len(sys.argv) > 2 else 'linux')
    print('load', time.time() - t)
    kinds = set(sys.argv[1].split(',')) if len(sys.argv) > 1 else {'file', 'fd', 'dir', 'pipe'}
    e = Resources(p)
    e.kinds = kinds - {'uaf'}
    e.uaf = 'uaf' in kinds
    import resource as rs
    rs.setrlimit(rs.RLIMIT_AS, (6<<30, 6<<30))
    oa = e.analyse
    def an(f):
        t0 = time.time(); v0 = e.stats['visits']
        r = oa(f)
        if time.time() - t0 > 1.5: print('slow', f.key, '%.1f' % (time.time() - t0), e.stats['visits'] - v0, len(f.blocks), len(r.cases), flush=True)
        return r
    e.analyse = an
    e.run()
    print('run', time.time() - t, dict(e.stats), 'incomplete', e.incomplete)
    for k, r in sorted(e.reports.items()):
        print(r['kind'], r['func'], r['loc'], r['detail'], r['path'][-14:])
