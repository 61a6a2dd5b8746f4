"""Null pointers: failed allocations/opens and pointers the code itself tested, then dereferenced."""
from sym import Engine, UNDEF, ZERO, base_of, mkp, INF
from resources import NORETURN

# library functions that look for something
SEARCHES = {'bsearch', 'lfind', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'memchr', 'wcschr', 'wcsrchr', 'wcsstr', 'wcspbrk'}
# library functions that may fail with NULL
NULLABLE = SEARCHES | {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'fopen', 'fdopen', 'freopen', 'popen', 'opendir', 'tmpfile', 'getenv',
            'localtime', 'gmtime', 'fgets', 'readdir', 'getcwd', 'dlopen', 'dlsym', 'getpwnam', 'getpwuid',
            '_wfopen', '_wopendir', '_wreaddir', '_wcsdup', 'wcsdup', '_strdup', '_fdopen', '_popen', '_wgetenv', '_wgetcwd', '_getcwd'}
ACCEPTNULL = {'free', 'realloc', 'setlocale', 'time', 'fflush', 'signal', 'sigaction', 'waitpid', 'wait', 'pthread_create', 'pthread_join',
              'execl', 'execlp', 'execv', 'execvp', 'setvbuf', 'getcwd', 'dlopen', 'strtol', 'strtoul', 'strtod', 'nanosleep', 'select',
              'sigprocmask', 'pthread_sigmask', 'gettimeofday', 'settimeofday', 'utime', 'utimes', 'pthread_exit', 'realpath', 'setbuf',
              'pthread_mutex_init', 'pthread_attr_init', 'fork', 'system', 'ioctl', 'poll', 'snprintf', 'vsnprintf', 'freopen', 'strtok',
              'strtok_r', 'mbtowc', 'bindtextdomain', 'textdomain', 'tcsetattr', 'strtoll', 'strtoull', 'strtof', '__errno_location'}
# pointer arguments a library function dereferences: position list (absent: every pointer argument)
VARARG = {'printf': 1, 'fprintf': 2, 'sprintf': 2, 'execl': 99}


def same(f, a, b, n=0):
    if tuple(a[:2]) == tuple(b[:2]):
        return True
    if n > 5 or a[0] != 'i' or b[0] != 'i':
        return False
    x, y = f.defs.get(a[1]), f.defs.get(b[1])
    return x is not None and y is not None and x.op == y.op and x.op in ('load', 'getelementptr', 'sext', 'zext', 'trunc', 'bitcast') and x.path == y.path \
        and len(x.o) == len(y.o) and all(same(f, u, v, n + 1) for u, v in zip(x.o, y.o))


class Nullness(Engine):
    all_ret = True
    nonnull_fields = frozenset(['struct.ESTR.str'])

    def on_return(self, st, inst, t):
        for (b, o), (x, z, cl) in st.mem.items():
            if cl in self.nonnull_fields and self.bad(st, x):
                self.report('null', inst, '%s is left NULL' % cl, st, key='left %s' % cl)

    def bad(self, st, t):
        if t == ZERO or (t[0] == 'p' and t[1] == ZERO):
            return True
        b = base_of(t)
        if b[0] == 's':
            r = self.rng(st, b)
            return r[0] == r[1] == 0
        return False

    def name(self, st, inst, v):
        n = 0
        while v[0] == 'i' and n < 6:
            d = self.fn.defs.get(v[1])
            if d is None:
                break
            if d.name:
                return d.name
            if d.op in ('getelementptr', 'bitcast'):
                v = d.o[0]
            elif d.op == 'load':
                x = d.o[0]
                g = self.fn.defs.get(x[1]) if x[0] == 'i' else None
                if g is not None and g.op == 'getelementptr' and g.path and g.path[-1][0] == 'f':
                    return g.path[-1][2]
                if g is not None and g.op == 'alloca':
                    return g.name or 'local'
                if x[0] == 'g':
                    return x[1]
                return 'load'
            elif d.callee:
                return d.callee + '()'
            else:
                break
            n += 1
        if v[0] == 'a':
            return self.fn.args[v[1]][0]
        if v[0] == 'g':
            return v[1]
        return v[0]

    def on_deref(self, st, inst, addr):
        if self.bad(st, addr):
            k = inst.o[1] if inst.op == 'store' else inst.calleev if inst.op == 'call' and not inst.callee else inst.o[0]
            n = self.name(st, inst, k)
            self.report('null', inst, '%s may be NULL here and is dereferenced' % n, st, key='deref %s' % n)
        else:
            b = base_of(addr)
            if b[0] == 's' and b[1] == 'a':
                self.uses.add(b[2])
            if b[0] == 's':
                self.setfact(st, b, -INF, INF, frozenset([0]))

    def on_libc(self, st, inst, args):
        if inst.callee in ACCEPTNULL or inst.callee[0].isupper() or inst.callee.startswith(('llvm.', 'is', 'to')):
            return
        f = self.prog.decls.get(inst.callee, {}).get(self.fn.tu)
        lim = VARARG.get(inst.callee, 99)
        tys = self.prog.argtypes(inst)
        for n, a in enumerate(args):
            if n >= lim or n >= len(tys) or tys[n] != 'ptr':
                continue
            if self.bad(st, a):
                nm = self.name(st, inst, inst.o[n])
                self.report('null', inst, '%s may be NULL here and is passed to %s' % (nm, inst.callee), st, key='%s to %s' % (nm, inst.callee))
            else:
                b = base_of(a)
                if b[0] == 's':
                    if b[1] == 'a':
                        self.uses.add(b[2])
                    self.setfact(st, b, -INF, INF, frozenset([0]))

    def searched(self, inst):
        """was the same search made, and its result tested, on every way here"""
        f = inst.fn
        if not hasattr(f, 'twice'):
            f.twice = {}
        if inst.id not in f.twice:
            r = False
            for i in f.calls(inst.callee):
                if i is not inst and len(i.o) == len(inst.o) and all(same(f, a, b) for a, b in zip(i.o, inst.o)) \
                        and any(u.op == 'icmp' for u in f.insts() if any(tuple(x[:2]) == ('i', i.id) for x in u.o)) \
                        and (i.blk in f.dominators()[inst.blk] and i.blk != inst.blk or i.blk == inst.blk and i.id < inst.id):
                    r = True
            f.twice[inst.id] = r
        return f.twice[inst.id]

    def spec(self, st, inst, name, args):
        if name in NORETURN:
            return []
        if name in SEARCHES and self.searched(inst):
            return None
        if name in NULLABLE and self.prog.resolve(name, self.fn.tu) is None:
            self.stats['nullable'] += 1
            s0 = st.copy()
            s0.val[inst.id] = ZERO
            r = self.unknown_call(st, inst, args, False)
            out = [s0]
            for s in r:
                if self.assume(s, s.val[inst.id], True):
                    out.append(s)
            return out
        return None


if __name__ == '__main__':
    import sys, time, ir
    t = time.time()
    p = ir.Program(sys.argv[1] if len(sys.argv) > 1 else 'linux')
    e = Nullness(p)
    import resource as rs
    rs.setrlimit(rs.RLIMIT_AS, (6<<30, 6<<30))
    e.run()
    print('run', time.time() - t, dict(e.stats), 'incomplete', e.incomplete)
    for k, r in sorted(e.reports.items()):
        print(r['kind'], r['func'], r['loc'], r['detail'], r['path'][-14:])
