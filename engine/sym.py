"""Path-sensitive, summary-based abstract interpretation of the SSA form.

One abstract state per (block, client state) maps SSA values and memory cells
to terms (constants, symbols, addresses) and keeps interval/disequality facts
per symbol, so that correlated branches (`if (f) ...; if (f) fclose(f)`) are
decided the way the code decides them.  Functions are analysed bottom-up; each
yields a set of *cases* (argument conditions, effects, return value, values
written through arguments) that its callers apply.  No solver, no execution.
"""
import time
from collections import defaultdict
import ir as IR

INF = 1 << 70
TOP = (-INF, INF, frozenset())
NZ = (-INF, INF, frozenset([0]))
UNDEF = ('undef',)
ZERO = ('k', 0)
LOOPK = 3           # constants folded by loop arithmetic
KSTATES = 16        # distinct states kept per (block, client state)
MAXCASES = 24
BUDGET = 60000      # block visits per function

INV = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge',
       'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge',
        'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}


# which arguments external functions write through (absent and not pure: all)
EXT_WRITES = {
    'CreateProcessW': (9,), 'CreateProcessA': (9,), 'ShellExecuteExW': (), 'ShellExecuteExA': (),
    'fgets': (0,), 'read': (1,), 'fread': (0,), 'recv': (1,), 'sprintf': (0,), 'snprintf': (0,), 'vsnprintf': (0,),
    'vsprintf': (0,), 'strcpy': (0,), 'strcat': (0,), 'strncpy': (0,), 'strncat': (0,), 'strtol': (1,), 'strtod': (1,),
    'stpcpy': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'stat': (1,), 'lstat': (1,), 'fstat': (1,),
    'stat64': (1,), 'fstat64': (1,), 'fstatat': (2,), 'getcwd': (0,), 'readlink': (1,), 'realpath': (1,), 'time': (0,), 'localtime_r': (1,),
    'gettimeofday': (0,), 'clock_gettime': (1,), 'waitpid': (1,), 'wait': (0,), 'tcgetattr': (1,), 'tcgetpgrp': (), 'tcsetattr': (),
    'ioctl': (2,), 'pipe': (0,), 'sscanf': (1, -1), 'fscanf': (1, -1), 'scanf': (0, -1), 'sigaction': (2,), 'poll': (0,),
    'select': (1, 2, 3, 4), 'pthread_create': (0,), 'pthread_join': (1,), 'nanosleep': (1,), 'strftime': (0,),
    'pthread_mutex_init': (0,), 'mbtowc': (0,), 'mbstowcs': (0,), 'wcstombs': (0,), 'gethostname': (0,), 'qsort': (0,),
    'bind_textdomain_codeset': (), 'getline': (0, 1), 'modf': (1,), 'frexp': (1,), 'ungetc': (), 'getopt_long': (), 'sigemptyset': (0,),
    'sigaddset': (0,), 'pthread_sigmask': (2,), 'getpwnam_r': (1, 2), 'strtok': (0,), 'strtok_r': (0, 2), 'rename': (), 'utime': (),
    'pthread_mutex_lock': (), 'pthread_mutex_unlock': (), 'pthread_mutex_trylock': (), 'pthread_mutex_destroy': (),
}
EXT_PURE = set("""strchr strrchr strlen strcmp strncmp strcasecmp strncasecmp strstr strpbrk strspn strcspn memchr memcmp
 atoi atol atof toupper tolower isalpha isdigit isspace isalnum isupper islower isprint __ctype_b_loc __ctype_toupper_loc
 __ctype_tolower_loc fputs fputc puts putc putchar printf fprintf vfprintf fwrite fclose fopen freopen fdopen fileno
 fflush fseek ftell rewind feof ferror clearerr getc fgetc getchar setvbuf setbuf opendir readdir closedir popen pclose
 open close dup dup2 write lseek isatty unlink remove rmdir mkdir chmod chdir access getenv setenv unsetenv putenv
 malloc calloc realloc free strdup strndup exit _exit abort fork execv execvp execve execl execlp kill getpid getppid
 signal raise sleep usleep alarm localtime gmtime mktime difftime ctime asctime setlocale localeconv nl_langinfo
 strerror perror __errno_location system tolower wcwidth iswprint towupper towlower getuid geteuid getpwuid getpwnam
 pow sqrt exp log sin cos tan floor ceil fabs fmod rand srand random srandom qsort bsearch umask sysconf fcntl ftruncate
 dlopen dlsym dlclose dlerror pthread_self pthread_exit pthread_detach pthread_equal sched_yield setpgid getpgrp tcsetpgrp
 symlink link chown fchmod creat mkstemp tmpfile utimes futimes sync fsync uname getlogin ttyname symlink rename utime""".split())


def told(x):
    """a symbol whose facts are told to the callers"""
    return x[1] == 'a' or isinstance(x[1], tuple) and x[1] and x[1][0] in ('ld', 'lit')


def hull(f, g):
    """what holds of a value that is in one range or the other"""
    ne = frozenset(x for x in f[2] | g[2] if (x in f[2] or x < f[0] or x > f[1]) and (x in g[2] or x < g[0] or x > g[1]))
    if f[1] < g[0] and 1 < g[0] - f[1] <= 8:
        ne |= frozenset(range(f[1] + 1, g[0]))
    elif g[1] < f[0] and 1 < f[0] - g[1] <= 8:
        ne |= frozenset(range(g[1] + 1, f[0]))
    return (min(f[0], g[0]), max(f[1], g[1]), ne)


class State:
    __slots__ = ('val', 'mem', 'facts', 'res', 'esc', 'flags', 'trace')

    def __init__(self):
        self.val = {}; self.mem = {}; self.facts = {}; self.res = {}
        self.esc = frozenset(); self.flags = frozenset(); self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.val = dict(self.val); s.mem = dict(self.mem); s.facts = dict(self.facts); s.res = dict(self.res)
        s.esc = self.esc; s.flags = self.flags; s.trace = self.trace
        return s

    def ckey(self):
        return (frozenset(self.res.items()), self.flags)

    def key(self):
        return (frozenset(self.val.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.res.items()), self.esc, self.flags)


class Case:
    __slots__ = ('argf', 'eff', 'ret', 'out', 'unk', 'flags')

    def __init__(self, argf, eff, ret, out, unk, flags):
        self.argf = argf; self.eff = eff; self.ret = ret; self.out = out; self.unk = unk; self.flags = flags

    def key(self):
        return (self.argf, self.eff, self.ret, self.out, self.unk, self.flags)

    def __repr__(self):
        return 'Case(argf=%s eff=%s ret=%s out=%s unk=%s flags=%s)' % (
            dict(self.argf), sorted(map(str, self.eff)), self.ret, dict(self.out), sorted(self.unk), sorted(map(str, self.flags)))


class Summary:
    def __init__(self, cases, mods, heapw, complete=True, W=frozenset(), uses=frozenset(), argw=frozenset()):
        self.cases = cases; self.mods = mods; self.heapw = heapw; self.complete = complete
        self.argw = argw        # (argument, class): written through the argument itself
        self.W = W; self.uses = uses


def syms(t, acc):
    if t[0] == 's':
        acc.add(t)
    elif t[0] in ('p', 'op', 'cmp'):
        for x in t[1:]:
            if isinstance(x, tuple):
                syms(x, acc)
    return acc


def base_of(t):
    if t[0] == 'p':
        return t[1]
    return t


def depth(t):
    if t[0] in ('op', 'cmp'):
        return 1 + max([depth(x) for x in t[1:] if isinstance(x, tuple)] or [0])
    return 0


def subst(t, a, b):
    if t == a:
        return b
    if t[0] in ('p', 'op', 'cmp'):
        n = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
        if n[0] == 'p' and n[1][0] == 'p':
            return mkp(n[1], n[2])
        return n
    return t


def unat(t):
    if t and t[0] == '@':
        return t[1:]
    return tuple(unat(x) if isinstance(x, tuple) else x for x in t)


def mkp(b, off):
    if b[0] == 'p':
        o = b[2]
        off = '?' if (o == '?' or off == '?') else o + off
        b = b[1]
    if off == 0:
        return b
    return ('p', b, off)


class Budget(Exception):
    pass


class Engine:
    """client hooks: subclass and override."""
    specs = {}          # callee name -> method(self, st, inst, args) -> [states] (value bound by hook) or None
    track_mem_null = True

    def __init__(self, prog, log=None):
        self.ldsz = {}
        self.prog = prog
        self.sums = {}
        self.reports = {}
        self.incomplete = {}
        self.stats = defaultdict(int)
        self.retnull = {}
        self.kst = KSTATES
        self.joins = 0

    # ------------------------------------------------------------ reporting
    DEEP = 4        # comparisons of deeper terms stay opaque

    def report(self, kind, inst, detail, st=None, key=None, extra=None):
        f = self.fn
        k = (kind, f.key, key or detail)
        if k in self.reports:
            return
        tr = []
        t = st.trace if st is not None else None
        while t is not None and len(tr) < 40:
            tr.append(t[1]); t = t[0]
        self.reports[k] = dict(kind=kind, func=f.name, tu=f.tu, loc=inst.loc() if inst else '%s:%d' % (f.tu, f.line),
                               detail=detail, path=tr[::-1], extra=extra)

    # ------------------------------------------------------------ terms
    def oper(self, st, v):
        k = v[0]
        if k == 'i' or k == 'a':
            t = st.val.get(v[1])
            if t is None:
                return ('s', v[1], 0)
            return t
        if k == 'c':
            return ('k', v[1] & 1 if v[2] == 1 else v[1])
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return ('g', self.prog.gkey(v[1], self.fn.tu))
        if k == 'fn':
            return ('fn', v[1])
        if k == 's':
            return ('str', v[1], v[2])
        if k == 'gep':
            b = self.oper(st, v[1])
            return self.gep(st, b, v[2], None)
        if k == 'cast':
            return self.oper(st, v[2])
        if k == 'fp':
            return ('fp', v[1])
        return ('s', ('x', str(v)[:40]), 0)

    def loopvar(self, n):
        """is the instruction a value that changes from one turn of a loop to the next?"""
        r = self._lv.get(n)
        if r is None:
            self._lv[n] = False
            d = self.fn.defs.get(n)
            if d is None:
                r = False
            elif d.op == 'phi':
                r = d.blk in self.headers
            elif d.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'mul', 'shl'):
                r = any(o[0] == 'i' and self.loopvar(o[1]) for o in d.o)
            else:
                r = False
            self._lv[n] = r
        return r

    def gep(self, st, b, path, inst):
        off = 0
        for s in path:
            if s[0] == 'f':
                off = off + s[3] if off != '?' else '?'
            elif s[0] == 'x':
                t = self.oper(st, s[1])
                c = self.const(st, t)
                if c is None or (s[1][0] == 'i' and self.loopvar(s[1][1])):
                    off = '?'
                elif off != '?':
                    off += c * s[2]
            else:
                off = '?'
        if b == ZERO and off != '?':
            # offset from a null pointer: keep it recognisable as null based
            return ('p', ZERO, off) if off else ZERO
        if b == UNDEF:
            return UNDEF
        r = mkp(b, off)
        return r

    def rng(self, st, t):
        k = t[0]
        if k == 'k':
            return (t[1], t[1], frozenset())
        f = st.facts.get(t)
        if f is not None:
            return f
        if k in ('g', 'al', 'str', 'fn'):
            return NZ
        if k == 'p':
            b = t[1]
            if b[0] in ('g', 'al', 'str', 'fn'):
                return NZ
            r = self.rng(st, b)
            if 0 in r[2] or r[0] > 0:
                return NZ
            return TOP
        if k == 'cmp':
            d = self.decide(st, t)
            if d is None:
                return (0, 1, frozenset())
            return (d, d, frozenset())
        if k == 'op':
            o = t[1]
            if o == 'and':
                for x in (t[2], t[3]):
                    if x[0] == 'k' and x[1] >= 0:
                        return (0, x[1], frozenset())
            if o == 'or':
                for x in (t[2], t[3]):
                    r = self.rng(st, x)
                    if 0 in r[2] or r[0] > 0 or r[1] < 0:
                        return NZ
            if o.startswith('zext'):
                n = int(o[4:])
                return (0, (1 << n) - 1, frozenset())
            if o in ('urem', 'srem') and t[3][0] == 'k' and t[3][1] > 0:
                m = t[3][1] - 1
                return (0 if o == 'urem' or self.rng(st, t[2])[0] >= 0 else -m, m, frozenset())
            if o == 'add':
                a, b = self.rng(st, t[2]), self.rng(st, t[3])
                lo = a[0] + b[0] if a[0] > -INF and b[0] > -INF else -INF
                hi = a[1] + b[1] if a[1] < INF and b[1] < INF else INF
                return (lo, hi, frozenset())
            if o == 'sub':
                a, b = self.rng(st, t[2]), self.rng(st, t[3])
                lo = a[0] - b[1] if a[0] > -INF and b[1] < INF else -INF
                hi = a[1] - b[0] if a[1] < INF and b[0] > -INF else INF
                return (lo, hi, frozenset())
        return TOP

    def const(self, st, t):
        if t[0] == 'k':
            return t[1]
        if t[0] == 'fp':
            return None
        r = self.rng(st, t)
        if r[0] == r[1]:
            return r[0]
        return None

    def setfact(self, st, t, lo, hi, ne):
        """intersect; False when infeasible"""
        o = self.rng(st, t)
        lo = max(lo, o[0]); hi = min(hi, o[1]); ne = ne | o[2]
        while lo in ne and lo <= hi:
            lo += 1
        while hi in ne and hi >= lo:
            hi -= 1
        if lo > hi:
            return False
        ne = frozenset(x for x in ne if lo <= x <= hi)
        if len(ne) > 24:
            ne = frozenset(sorted(ne, key=abs)[:24])
        if t[0] == 'k':
            return True
        if t[0] in ('g', 'al', 'str', 'fn'):
            return not (lo == hi == 0)
        if t[0] == 'p':
            if lo == hi == 0:
                b = t[1]
                if b[0] in ('g', 'al', 'str', 'fn'):
                    return False
                if t[2] == '?':
                    return True
                r = self.rng(st, b)
                if 0 in r[2] or r[0] > 0:
                    return False
                return True
            return True
        st.facts[t] = (lo, hi, ne)
        if t[0] == 'op' and t[1].startswith('zext') and depth(t) < 3:
            if lo > 0 or 0 in ne:
                return self.setfact(st, t[2], -INF, INF, frozenset([0]))
            if lo == hi == 0:
                return self.setfact(st, t[2], 0, 0, frozenset())
        if t[0] == 'op' and t[1] == 'add' and t[3][0] == 'k':
            k = t[3][1]
            return self.setfact(st, t[2], lo - k if lo > -INF else -INF, hi - k if hi < INF else INF, frozenset(x - k for x in ne))
        return True

    def decide(self, st, c):
        """truth of a ('cmp', pred, a, b) term, or None"""
        p, a, b = c[1], c[2], c[3]
        if a == b and a[0] not in ('undef', 'fp'):
            return 1 if p in ('eq', 'sge', 'sle', 'uge', 'ule') else 0 if p in INV else None
        f = st.facts.get(c)
        if f is not None and f[0] == f[1]:
            return f[0]
        ra, rb = self.rng(st, a), self.rng(st, b)
        if p in ('eq', 'ne'):
            r = None
            if ra[1] < rb[0] or rb[1] < ra[0]:
                r = 0
            elif ra[0] == ra[1] == rb[0] == rb[1]:
                r = 1
            elif (rb[0] == rb[1] and rb[0] in ra[2]) or (ra[0] == ra[1] and ra[0] in rb[2]):
                r = 0
            elif self.distinct(st, a, b):
                r = 0
            elif a[0] in ('al', 'fn', 'g') and b[0] in ('al', 'fn', 'g') and a != b:
                r = 0
            if r is None:
                return None
            return r if p == 'eq' else 1 - r
        if p in ('ugt', 'uge', 'ult', 'ule'):
            # comparisons of pointers or sizes: decide only for non-negative intervals
            if ra[0] < 0 or rb[0] < 0:
                if p == 'ult' and rb[0] == rb[1] == 0:
                    return 0
                return None
            p = 's' + p[1:]
        if p == 'sgt':
            return 1 if ra[0] > rb[1] else 0 if ra[1] <= rb[0] else None
        if p == 'sge':
            return 1 if ra[0] >= rb[1] else 0 if ra[1] < rb[0] else None
        if p == 'slt':
            return 1 if ra[1] < rb[0] else 0 if ra[0] >= rb[1] else None
        if p == 'sle':
            return 1 if ra[1] <= rb[0] else 0 if ra[0] > rb[1] else None
        return None

    def distinct(self, st, a, b):
        return False

    def assume(self, st, t, truth):
        """refine st with t being non-zero / zero; False when infeasible"""
        if t[0] == 'k':
            return bool(t[1]) == truth
        if t[0] == 'cmp':
            p, a, b = t[1], t[2], t[3]
            if p not in INV:
                f = st.facts.get(t)
                if f is not None and f[0] == f[1]:
                    return bool(f[0]) == truth
                st.facts[t] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
                return True
            # (cmp) compared with a constant
            if a[0] == 'cmp' and b[0] == 'k' and b[1] in (0, 1) and p in ('eq', 'ne'):
                return self.assume(st, a, truth ^ ((b[1] == 0) == (p == 'eq')))
            d = self.decide(st, t)
            if d is not None:
                return bool(d) == truth
            if not truth:
                p = INV[p]
            if b[0] != 'k' and a[0] == 'k':
                a, b, p = b, a, SWAP[p]
            ra, rb = self.rng(st, a), self.rng(st, b)
            ok = True
            if p == 'eq':
                ok = self.setfact(st, a, rb[0], rb[1], rb[2]) and self.setfact(st, b, ra[0], ra[1], ra[2])
            elif p == 'ne':
                if rb[0] == rb[1]:
                    ok = self.setfact(st, a, -INF, INF, frozenset([rb[0]]))
                elif ra[0] == ra[1]:
                    ok = self.setfact(st, b, -INF, INF, frozenset([ra[0]]))
            else:
                u = p[0] == 'u'
                q = p[1:]
                if p in ('ult', 'ugt'):
                    ok = self.setfact(st, b if p == 'ult' else a, -INF, INF, frozenset([0]))
                if u and not (rb[0] >= 0):
                    q = None
                if ok and q == 'lt':
                    ok = self.setfact(st, a, 0 if u else -INF, rb[1] - 1 if rb[1] < INF else INF, frozenset())
                    if ok and ra[0] > -INF and (not u or ra[0] >= 0):
                        ok = self.setfact(st, b, ra[0] + 1, INF, frozenset())
                elif ok and q == 'le':
                    ok = self.setfact(st, a, 0 if u else -INF, rb[1], frozenset())
                    if ok and ra[0] > -INF and (not u or ra[0] >= 0):
                        ok = self.setfact(st, b, ra[0], INF, frozenset())
                elif ok and q == 'gt' and (not u or ra[0] >= 0):
                    ok = self.setfact(st, a, rb[0] + 1 if rb[0] > -INF else -INF, INF, frozenset())
                    if ok and ra[1] < INF:
                        ok = self.setfact(st, b, -INF, ra[1] - 1, frozenset())
                elif ok and q == 'ge' and (not u or ra[0] >= 0):
                    ok = self.setfact(st, a, rb[0], INF, frozenset())
                    if ok and ra[1] < INF:
                        ok = self.setfact(st, b, -INF, ra[1], frozenset())
            if ok and not (b[0] == 'k'):
                st.facts[t] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
            return ok
        if truth:
            return self.setfact(st, t, -INF, INF, frozenset([0]))
        return self.setfact(st, t, 0, 0, frozenset())

    # ------------------------------------------------------------ memory
    def fresh(self, st, iid):
        s = ('s', iid, 0)
        self.age(st, s)
        return s

    def age(self, st, s):
        """s is about to be (re)defined: the previous instance becomes ('s',id,1),
        anything older ('s',id,2), which may stand for several values"""
        old = ('s', s[1], 1)
        if not self.bound(st, s):
            st.facts.pop(s, None)
            # composite facts mentioning s
            bad = [t for t in st.facts if t[0] != 's' and s in syms(t, set())]
            for t in bad:
                del st.facts[t]
            return
        if self.bound(st, old):
            self.rename(st, old, ('s', s[1], 2))
        self.rename(st, s, old)

    def bound(self, st, s):
        if s in st.res or s in st.facts and isinstance(s[1], tuple) and s[1][0] == 'ld':
            return True
        for t in st.val.values():
            if t == s or (t[0] in ('p', 'op', 'cmp') and s in syms(t, set())):
                return True
        for k, v in st.mem.items():
            if k[0] == s:
                return True
            t = v[0]
            if t == s or (t[0] in ('p', 'op', 'cmp') and s in syms(t, set())):
                return True
        for fl in st.flags:
            if isinstance(fl, tuple) and any(isinstance(x, tuple) and x and x[0] in ('s', 'p') and base_of(x) == s for x in fl):
                return True
        return False

    def rename(self, st, s, new):
        many = new[2] == 2
        merge = many and self.bound(st, new)
        for k in list(st.val):
            st.val[k] = subst(st.val[k], s, new)
        nm = {}
        for (b, o), (t, z, cl) in st.mem.items():
            nb = subst(b, s, new)
            if many and nb == new:
                continue        # contents of several objects: nothing known
            nm[(nb, o)] = (subst(t, s, new), z, cl)
        st.mem = nm
        fs = {}
        for t, f in st.facts.items():
            t2 = subst(t, s, new)
            if merge and (t2 != t or new in syms(t, set())):
                if t2 == t:
                    # known about the ones already in there: must hold for the newcomer too
                    back = subst(t, new, s)
                    g = st.facts.get(back)
                else:
                    g = st.facts.get(t2)
                if g is None:
                    continue
                f = (min(f[0], g[0]), max(f[1], g[1]), f[2] & g[2])
            fs[t2] = f
        st.facts = fs
        r = st.res.pop(s, None)
        if many:
            o = st.res.get(new)
            if r is not None and r[0] != 'freed':
                st.res[new] = self.join_res(o, r) if o is not None else r
            elif o is not None and o[0] == 'freed':
                st.res.pop(new)
        elif r is not None:
            st.res[new] = r
        st.flags = frozenset(tuple(subst(x, s, new) if isinstance(x, tuple) and x and x[0] in ('s', 'p') else x for x in fl)
                             if isinstance(fl, tuple) else fl for fl in st.flags)

    def join_res(self, a, b):
        return a if 'open' in a else b

    def kill_overlap(self, st, base, off, sz, cls='*'):
        for k in [k for k in st.mem if k[0] == base and not isinstance(k[1], str)]:
            o = k[1]
            z = st.mem[k][1]
            if off == '?' and '.' in cls and '.' in st.mem[k][2] and st.mem[k][2] != cls:
                continue        # an element of one field, another field
            if off == '?' or (o < off + sz and off < o + z and o != off) or (o == off and z != sz):
                del st.mem[k]
                if base[0] == 'al' and off != '?' and (o < off or o + z > off + sz) and st.mem.get((base, '*'), (None,))[0] == UNDEF:
                    # the rest of the old cell still holds something
                    st.mem[(base, '*')] = (('any',), 0, '*')

    def cls_of(self, inst, v):
        """alias class of the memory a pointer operand designates"""
        if v is None:
            return 'raw'
        if v[0] == 'i':
            d = self.fn.defs.get(v[1])
            if d is not None and d.op == 'getelementptr':
                for stp in reversed(d.path):
                    if stp[0] == 'f':
                        return stp[1] + '.' + stp[2]
                return self.cls_of(d, d.o[0]) if d.path and d.path[-1][0] == 'x' and d.o[0][0] == 'i' \
                    and self.fn.defs.get(d.o[0][1]) is not None and self.fn.defs[d.o[0][1]].op == 'getelementptr' else 'raw'
        elif v[0] == 'gep':
            for stp in reversed(v[2]):
                if stp[0] == 'f':
                    return stp[1] + '.' + stp[2]
        return 'raw'

    def store(self, st, addr, t, sz, inst, cls=None):
        if cls is None:
            cls = self.cls_of(inst, inst.o[1]) if inst.op == 'store' else '*'
            if cls == 'raw':
                cls = 'raw%d' % sz
        b = base_of(addr)
        off = addr[2] if addr[0] == 'p' else 0
        self.on_store(st, inst, b, off, t)
        if b[0] == 'k' or b == UNDEF:
            return
        if b[0] == 's':
            self.heap_write(b, {cls})
            if b not in self.noalias(st):
                # may alias other unknown pointers of the same class
                for k in [k for k in st.mem if k[0][0] == 's' and k[0] != b and not isinstance(k[1], str)]:
                    c = st.mem[k][2]
                    if b[1] == 'a' and k[0][1] == 'a':
                        continue            # assumption: two pointer parameters do not overlap
                    if (c == cls or c == '*' or cls == '*') and k[0] not in self.noalias(st):
                        del st.mem[k]
        elif b[0] == 'g':
            self.mods.add(b[1])
        self.note_write(st, b, off, t, cls)
        self.kill_overlap(st, b, off, sz, cls)
        if off == '?':
            # anything may now be there
            d = st.mem.get((b, '*'))
            if d is None or d[0] != ('any',):
                if b[0] == 'al' or d is not None:
                    st.mem[(b, '*')] = (('any',), 0, '*')
        else:
            st.mem[(b, off)] = (t, sz, cls)

    def heap_write(self, b, cls):
        if b[1] == 'a':
            self.argw.update((b[2], c) for c in cls)
        else:
            self.heapw = self.heapw | cls

    def note_write(self, st, b, off, t=None, cls='*'):
        if b[0] == 's' and b[1] == 'a':
            self.W.add((b[2], ('?', cls) if off == '?' and '.' in cls else off))
            if off == '?' or not self.out_flag(st, t):
                if off == '?' and self.keep_undef_outs:
                    fl = ('wu', b[2])
                elif off != '?' and ('w', b[2], off) in st.flags:
                    st.flags = st.flags - {('w', b[2], off)}
                    return
                else:
                    return
            else:
                fl = ('w', b[2], off)
            if fl not in st.flags:
                st.flags = st.flags | {fl}

    keep_undef_outs = False

    def out_flag(self, st, t):
        """is the value written through an argument worth describing per case?"""
        return t is not None and (self.keep_undef_outs or base_of(t) in st.res or t[0] == 'k')

    def noalias(self, st):
        return st.res

    def load(self, st, addr, sz, inst):
        b = base_of(addr)
        off = addr[2] if addr[0] == 'p' else 0
        self.on_deref(st, inst, addr)
        if b[0] == 'k' or b == UNDEF:
            return self.fresh(st, inst.id)
        if b[0] == 'str' and off != '?' and sz == 1:
            e = b[1].encode('utf-8', 'replace')
            if 0 <= off < len(e):
                return ('k', e[off] if e[off] < 128 else e[off] - 256)
            if off == len(e):
                return ZERO
        if b[0] == 'g' and off != '?':
            g = self.prog.globals.get(b[1])
            if g is not None and g['const'] and False:
                pass
        if off != '?':
            m = st.mem.get((b, off))
            if m is not None and m[1] == sz:
                return m[0]
            if m is None:
                d = st.mem.get((b, '*'))
                if d is not None and d[0] != ('any',):
                    over = any(k[0] == b and not isinstance(k[1], str) and k[1] < off + sz and off < k[1] + st.mem[k][1] for k in st.mem)
                    if not over:
                        if d[0] == UNDEF:
                            return UNDEF
                        return d[0]
        if b[0] == 's' and b[1] == 'a' and off != '?':
            s = self.fresh(st, ('ld', b[2], off))
            self.ldsz[(self.fn.key, b[2], off)] = sz
        else:
            s = self.fresh(st, inst.id)
        if inst.op == 'load':
            # (the address itself may have been renamed by fresh)
            addr = self.oper(st, inst.o[0])
            b = base_of(addr)
            off = addr[2] if addr[0] == 'p' else 0
        if off != '?' and sz and (b[0] in ('g', 'al', 's')):
            if not any(k[0] == b and not isinstance(k[1], str) and (k[1] != off or st.mem[k][1] > sz) and k[1] < off + sz and off < k[1] + st.mem[k][1] for k in st.mem):
                c = self.cls_of(inst, inst.o[0]) if inst.op == 'load' else '*'
                st.mem[(b, off)] = (s, sz, 'raw%d' % sz if c == 'raw' else c)
                if c in self.nonnull_fields:
                    self.setfact(st, s, -INF, INF, frozenset([0]))
        return s

    # fields the allocating functions never leave NULL (storing NULL into one is reported by the null check)
    nonnull_fields = frozenset()

    def havoc_base(self, st, b, reinit=True):
        if reinit:
            self.note_write(st, b, '?')
        for k in [k for k in st.mem if k[0] == b]:
            del st.mem[k]
        if b[0] == 'al' and reinit:
            st.mem[(b, '*')] = (('any',), 0, '*')

    def havoc_globals(self, st, mods):
        if mods is None:
            for k in [k for k in st.mem if k[0][0] == 'g']:
                del st.mem[k]
        elif mods:
            for k in [k for k in st.mem if k[0][0] == 'g' and k[0][1] in mods]:
                del st.mem[k]

    def havoc_heap(self, st, cl):
        """memory behind unknown pointers after a callee wrote classes cl"""
        al = '*' in cl
        for k in [k for k in st.mem if k[0][0] == 's']:
            c = st.mem[k][2]
            if al or c in cl or c == '*':
                if k[0][1] == 'a' and self.keep_cell(st, base_of(st.mem[k][0])):
                    continue        # what this function hung into its caller's variable stays accounted for
                del st.mem[k]
        self.havoc_heap_al(st, cl)

    def havoc_heap_al(self, st, cl):
        al = '*' in cl
        for a in st.esc:
            if al:
                self.havoc_base(st, a)
                continue
            for k in [k for k in st.mem if k[0] == a]:
                if k[1] == '*':
                    st.mem[k] = (('any',), 0, '*')
                elif st.mem[k][2] in cl or st.mem[k][2] == '*':
                    del st.mem[k]
            st.mem.setdefault((a, '*'), (('any',), 0, '*'))

    def block_cls(self, inst, v, n):
        """alias classes written by a block copy/fill of n bytes through v"""
        c = self.cls_of(inst, v)
        if c != 'raw':
            return frozenset((c,))
        if n is None:
            return frozenset(('raw1',))
        r = self.prog.size_cls(n)
        return r if r else frozenset(('*',))

    # ------------------------------------------------------------ client hooks
    def on_deref(self, st, inst, addr):
        pass

    def on_store(self, st, inst, base, off, t):
        pass

    def on_use(self, st, inst, t, what):
        pass

    def on_call(self, st, inst, name, args):
        """before the call is applied"""

    def spec(self, st, inst, name, args):
        """return list of states if the client models this callee completely"""
        return None

    def on_libc(self, st, inst, args):
        """call of a function outside the analysed program"""

    def on_lost(self, st, s, r, inst):
        """tracked symbol no longer referenced"""

    def keep_cell(self, st, b):
        return b in st.res

    def on_handover(self, st, t):
        """a callee replaced the cell holding t by something unknown"""

    def on_return(self, st, inst, t):
        pass

    def init_state(self, st):
        pass

    def case_effects(self, st, ret):
        return frozenset()

    def apply_effect(self, st, inst, eff, args):
        return True

    def fresh_desc(self, st, t):
        """description of a tracked symbol for a summary, or None"""
        return None

    def bind_fresh(self, st, inst, s, desc):
        pass

    # ------------------------------------------------------------ calls
    def escape_local(self, st, t):
        b = base_of(t)
        if b[0] == 'al':
            st.esc = st.esc | {b}

    def do_call(self, st, inst):
        name = inst.callee
        if name is not None:
            if name.startswith('llvm.'):
                return self.intrinsic(st, inst, name)
        args = [self.oper(st, v) for v in inst.o]
        for a in args:
            if a == UNDEF:
                self.on_use(st, inst, a, 'argument')
        if name is None:
            cv = self.oper(st, inst.calleev)
            self.on_deref(st, inst, cv)
            if cv[0] == 'fn':
                name = cv[1]
        self.on_call(st, inst, name, args)
        if name:
            r = self.spec(st, inst, name, args)
            if r is not None:
                return r
            f = self.prog.resolve(name, self.fn.tu)
            if f is not None:
                sm = self.sums.get(f.key)
                if sm is not None:
                    return self.apply_summary(st, inst, f, sm, args)
                return self.unknown_call(st, inst, args, True)
        return self.unknown_call(st, inst, args, name is None)

    def unknown_call(self, st, inst, args, internal):
        w = None
        if not internal and inst.callee in ('isatty', 'fileno', '_isatty', '_fileno') and args and depth(args[0]) < 2 and args[0] != UNDEF:
            # same stream, same answer
            self.on_libc(st, inst, args)
            st.val[inst.id] = ('op', inst.callee, args[0])
            return [st]
        if not internal and inst.callee:
            self.on_libc(st, inst, args)
        if internal and not inst.callee:
            tg = self.prog.indirect(inst, len(args))
            if tg and all(t.key in self.sums for t in tg):
                # an indirect call: anything one of the possible targets may write
                hw = frozenset().union(*[self.sums[t.key].heapw for t in tg])
                md = frozenset().union(*[self.sums[t.key].mods for t in tg])
                for a in args:
                    b = base_of(a)
                    if b[0] in ('al', 's'):
                        self.havoc_base(st, b)
                self.havoc_globals(st, None if '*' in md else md)
                self.mods |= md
                self.heapw = self.heapw | hw
                self.havoc_heap(st, hw)
                if inst.ty:
                    st.val[inst.id] = self.fresh(st, inst.id)
                return [st]
        if not internal and inst.callee:
            if inst.callee in EXT_PURE:
                w = ()
            else:
                w = EXT_WRITES.get(inst.callee)
        for n, a in enumerate(args):
            if w is not None and n not in w and not (w and w[-1] == -1 and n > w[0]):
                continue
            b = base_of(a)
            if b[0] == 'al' or b[0] == 's':
                self.havoc_base(st, b)
                if b[0] == 's':
                    c = self.cls_of(inst, inst.o[n])
                    self.heap_write(b, {'raw1' if c == 'raw' else c})
            elif b[0] == 'g' and not internal:
                g = self.prog.globals.get(b[1])
                if g is not None and not g['const']:
                    self.havoc_globals(st, {b[1]})
        if internal:
            self.havoc_globals(st, None)
            self.havoc_heap(st, ('*',))
            self.mods.add('*')
            self.heapw = frozenset(('*',))
        if inst.ty:
            st.val[inst.id] = self.fresh(st, inst.id)
        return [st]

    def apply_summary(self, st, inst, f, sm, args):
        out = []
        args0 = args
        cases = sm.cases
        for i in sm.uses:
            if i < len(args):
                self.on_pass_use(st, inst, f, args[i], i)
        for n, c in enumerate(cases):
            s2 = st.copy() if n + 1 < len(cases) else st
            if n + 1 == len(cases):
                s2 = st.copy()
            args = args0
            if not self.pre_case(s2, inst, c, args):
                continue
            ok = True
            for i, (lo, hi, ne) in c.argf:
                if isinstance(i, tuple) and i[0] == 'lit':
                    # the argument was compared with a literal
                    a = args[i[1]] if i[1] < len(args) else ZERO
                    if a[0] == 'str':
                        x, y = str(a[1]), i[3]
                        if i[2] not in ('strcmp',):
                            x, y = x.lower(), y.lower()
                        if (x == y) == (0 in ne):
                            ok = False; break
                    continue
                if isinstance(i, tuple):
                    if i[0] >= len(args):
                        continue
                    a = mkp(args[i[0]], i[1])
                    b = base_of(a)
                    o = a[2] if a[0] == 'p' else 0
                    m = s2.mem.get((b, o))
                    if m is None and b[0] == 's' and b[1] == 'a' and o != '?' and (f.key,) + i in self.ldsz \
                            and not any(isinstance(x, tuple) and (x[:3] == ('w', b[2], o) or x[:2] == ('wu', b[2])) for x in s2.flags) \
                            and ('s', ('ld', b[2], o), 0) not in s2.facts:
                        # still what the caller's caller put there
                        z = self.ldsz[(f.key,) + i]
                        m = s2.mem[(b, o)] = (('s', ('ld', b[2], o), 0), z, '*')
                        self.ldsz[(self.fn.key, b[2], o)] = z
                    if m is None or m[0] == UNDEF:
                        continue
                    a = m[0]
                elif i < len(args) and args[i] != UNDEF:
                    a = args[i]
                else:
                    continue
                if True:
                    if lo == hi:
                        if not self.assume(s2, ('cmp', 'eq', a, ('k', lo)), True):
                            ok = False; break
                    elif not self.setfact(s2, a, lo, hi, ne):
                        ok = False; break
            if not ok:
                continue
            # effects first (release, escape, ...)
            for e in sorted(c.eff, key=str):
                if not self.apply_effect(s2, inst, e, args):
                    ok = False; break
            if not ok:
                continue
            self.havoc_globals(s2, None if '*' in sm.mods else sm.mods)
            self.mods |= sm.mods
            if sm.heapw:
                self.heapw = self.heapw | sm.heapw
                self.havoc_heap(s2, sm.heapw)
                self.reach_write(s2, args, sm.heapw)
            for i, cls in sm.argw:
                b = base_of(args[i]) if i < len(args) else ('k', 0)
                if b[0] == 'al' and self.keep_undef_outs:
                    esc = s2.esc
                    s2.esc = frozenset([b])
                    self.havoc_heap_al(s2, {cls})
                    s2.esc = esc
                if b[0] == 's':
                    self.heap_write(b, {cls})
                    for k in [k for k in s2.mem if k[0][0] == 's' and k[0] != b and not isinstance(k[1], str)]:
                        if (s2.mem[k][2] == cls or s2.mem[k][2] == '*' or cls == '*') and not (b[1] == 'a' and k[0][1] == 'a') \
                                and b not in self.noalias(s2) and k[0] not in self.noalias(s2):
                            del s2.mem[k]
            for i in c.unk:
                if i < len(args):
                    b = base_of(args[i])
                    if b[0] in ('al', 's', 'g'):
                        self.havoc_base(s2, b)
            if not self.keep_undef_outs:
                for i, off in sm.W:
                    if i < len(args):
                        wc = '*'
                        if isinstance(off, tuple):
                            off, wc = off
                        a = mkp(args[i], off)
                        b = base_of(a)
                        if b[0] not in ('al', 's', 'g'):
                            continue
                        self.note_write(s2, b, a[2] if a[0] == 'p' else 0, None, wc)
                        if wc != '*':
                            self.kill_overlap(s2, b, '?', 1, wc)
                            if b[0] == 'al':
                                s2.mem[(b, '*')] = (('any',), 0, '*')
                        elif a[0] == 'p' and a[2] == '?':
                            self.havoc_base(s2, b)
                        else:
                            o = a[2] if a[0] == 'p' else 0
                            for k in [k for k in s2.mem if k[0] == b and not isinstance(k[1], str) and k[1] < o + 8 and o < k[1] + s2.mem[k][1]]:
                                if not (k[1] == o and self.keep_cell(s2, base_of(s2.mem[k][0]))):
                                    if not any(x == (i, off) + x[2:] and v is not None for x, v in c.out):
                                        self.on_handover(s2, s2.mem[k][0])
                                    # (a tracked cell is kept: the case says so when it replaces it)
                                    del s2.mem[k]
                            if b[0] == 'al':
                                s2.mem[(b, '*')] = (('any',), 0, '*')
            created = {}
            for (i, off, sz), d in c.out:
                if i < len(args):
                    if d is None:
                        a = mkp(args[i], off)
                        m = s2.mem.get((base_of(a), a[2] if a[0] == 'p' else 0))
                        if m is not None and self.keep_cell(s2, base_of(m[0])):
                            continue        # unclear whether it was replaced: keep tracking what is there
                    t = self.from_desc(s2, inst, d, args, ('o', i, off), created)
                    args = [self.oper(s2, v) for v in inst.o]
                    self.store(s2, mkp(args[i], off), t, sz, inst, '*' if base_of(args[i])[0] != 's' else 'out')
            if inst.ty:
                s2.val[inst.id] = self.from_desc(s2, inst, c.ret, args, 'r', created)
            elif c.ret is not None and c.ret[0] == 'fresh':
                pass
            s2.flags = s2.flags | c.flags
            out.append(s2)
        return out

    def reach_write(self, st, args, cl):
        """a callee wrote classes cl through pointers it found: what the arguments lead to is affected"""
        seen = {base_of(a) for a in args}
        todo = [b for b in seen if b[0] == 'al']
        while todo:
            b = todo.pop()
            for k, v in st.mem.items():
                if k[0] == b and v[0][0] in ('s', 'p', 'al'):
                    x = base_of(v[0])
                    if x in seen:
                        continue
                    seen.add(x)
                    if x[0] == 'al':
                        todo.append(x)
                        if x not in st.esc:
                            st2 = st.esc
                            st.esc = frozenset([x])
                            self.havoc_heap_al(st, cl)
                            st.esc = st2
                            todo = [b] + todo
                            break
                    elif x[0] == 's':
                        self.heap_write(x, cl)

    def on_pass_use(self, st, inst, f, t, i):
        pass

    def pre_case(self, st, inst, c, args):
        return True

    def from_desc(self, st, inst, d, args, tag, created):
        if d is None:
            return self.fresh(st, inst.id if tag == 'r' else (inst.id,) + tag)
        if d[0] == 'k':
            return d
        if d[0] == 'arg':
            if d[1] < len(args):
                return mkp(args[d[1]], d[2])
        if d[0] == 'g' or d[0] == 'fn' or d[0] == 'str':
            return d
        if d[0] == 'undef':
            return UNDEF
        if d[0] == 'same':
            pass
        if d[0] == 'fresh':
            if d[1] in created:
                return mkp(created[d[1]], d[3] if len(d) > 3 else 0)
            s = self.fresh(st, inst.id if tag == 'r' else (inst.id,) + tag)
            created[d[1]] = s
            self.bind_fresh(st, inst, s, d[2])
            return s
        s = self.fresh(st, inst.id if tag == 'r' else (inst.id,) + tag)
        if d[0] == 'rng':
            self.setfact(st, s, d[1], d[2], d[3])
        return s

    def intrinsic(self, st, inst, name):
        a = [self.oper(st, v) for v in inst.o]
        if name.startswith("llvm.va_"):
            if name != "llvm.va_end":
                self.havoc_base(st, base_of(a[0]))
            return [st]
        if name.startswith('llvm.threadlocal'):
            st.val[inst.id] = a[0]
            return [st]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.on_deref(st, inst, a[0]); self.on_deref(st, inst, a[1])
            n = self.const(st, a[2])
            db, sb = base_of(a[0]), base_of(a[1])
            do = a[0][2] if a[0][0] == 'p' else 0
            so = a[1][2] if a[1][0] == 'p' else 0
            if n is None or do == '?' or so == '?' or db[0] == 'k':
                if db[0] == 'al':
                    self.havoc_base(st, db)
                else:
                    for c in self.block_cls(inst, inst.o[0], n):
                        self.store(st, mkp(db, '?'), ('any',), 1, inst, c)
                return [st]
            cells = [(k[1], v) for k, v in st.mem.items() if k[0] == sb and not isinstance(k[1], str) and so <= k[1] and k[1] + v[1] <= so + n]
            d = st.mem.get((sb, '*'))
            self.kill_overlap(st, db, do, n)
            for k in [k for k in st.mem if k[0] == db and not isinstance(k[1], str) and do <= k[1] < do + n]:
                del st.mem[k]
            if db[0] == 'g':
                self.mods.add(db[1])
            if db[0] == 's':
                self.heap_write(db, self.block_cls(inst, inst.o[0], n))
            if db[0] == 's' and db[1] == 'a':
                if n <= 128:
                    for x in range(0, n, 8):
                        self.note_write(st, db, do + x)
                else:
                    self.note_write(st, db, '?')
            whole = db[0] == 'al' and do == 0
            if whole:
                st.mem[(db, '*')] = d if d is not None else (('any',), 0, '*')
            elif db[0] == 'al':
                st.mem[(db, '*')] = (('any',), 0, '*')
            for o, v in cells:
                st.mem[(db, o - so + do)] = v
                self.on_store(st, inst, db, o - so + do, v[0])
            return [st]
        if name.startswith('llvm.memset'):
            self.on_deref(st, inst, a[0])
            b = base_of(a[0])
            n = self.const(st, a[2])
            off = a[0][2] if a[0][0] == 'p' else 0
            v = self.const(st, a[1])
            if b[0] == 'g':
                self.mods.add(b[1])
            if b[0] == 's':
                self.heap_write(b, self.block_cls(inst, inst.o[0], n))
            if off == 0 and b[0] in ('al', 's'):
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
                if v == 0:
                    st.mem[(b, '*')] = (ZERO, 0, '*')
                elif b[0] == 'al':
                    st.mem[(b, '*')] = (('any',), 0, '*')
            else:
                self.havoc_base(st, b)
            return [st]
        if inst.ty:
            st.val[inst.id] = self.fresh(st, inst.id)
        return [st]

    # ------------------------------------------------------------ instructions
    def step(self, st, i):
        """execute one non-terminator; returns list of successor states"""
        op = i.op
        if op == 'call' or op == 'invoke':
            self.stats['calls'] += 1
            return self.do_call(st, i)
        if op == 'alloca':
            b = ('al', i.id)
            st.val[i.id] = b
            self.havoc_base(st, b, False)
            st.mem[(b, '*')] = (UNDEF, 0, '*')
            return [st]
        if op == 'undefval':
            st.val[i.id] = UNDEF
            return [st]
        if op == 'load':
            a = self.oper(st, i.o[0])
            st.val[i.id] = self.load(st, a, i.sz, i)
            t = st.val[i.id]
            if t == ('any',):
                st.val[i.id] = self.fresh(st, i.id)
            return [st]
        if op == 'store':
            t = self.oper(st, i.o[0])
            a = self.oper(st, i.o[1])
            self.on_deref(st, i, a)
            if base_of(t)[0] == 'al' and base_of(a)[0] != 'al':
                self.escape_local(st, t)
            self.store(st, a, t, i.sz, i)
            return [st]
        if op == 'getelementptr':
            b = self.oper(st, i.o[0])
            st.val[i.id] = self.gep(st, b, i.path, i)
            return [st]
        if op == 'icmp':
            a, b = self.oper(st, i.o[0]), self.oper(st, i.o[1])
            if a == UNDEF or b == UNDEF:
                self.on_use(st, i, UNDEF, 'comparison')
                st.val[i.id] = self.fresh(st, i.id)
                return [st]
            t = ('cmp', i.pred, a, b)
            d = self.decide(st, t)
            if d is not None:
                t = ('k', d)
            elif depth(t) > self.DEEP:
                t = self.fresh(st, i.id)
            st.val[i.id] = t
            return [st]
        if op in ('sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            st.val[i.id] = self.oper(st, i.o[0])
            return [st]
        if op == 'zext':
            a = self.oper(st, i.o[0])
            if i.frm == 'i1' or a == UNDEF:
                st.val[i.id] = a
            elif a[0] == 'k':
                n = int(i.frm[1:])
                st.val[i.id] = ('k', a[1] & ((1 << n) - 1))
            else:
                r = self.rng(st, a)
                if r[0] >= 0:
                    st.val[i.id] = a
                else:
                    st.val[i.id] = ('op', 'zext' + i.frm[1:], a) if depth(a) < 3 else self.fresh(st, i.id)
            return [st]
        if op == 'trunc':
            a = self.oper(st, i.o[0])
            if a[0] == 'k':
                n = int(i.ty[1:])
                v = a[1] & ((1 << n) - 1)
                if n > 1 and v >= (1 << (n - 1)):
                    v -= 1 << n
                st.val[i.id] = ('k', v)
            elif a == UNDEF:
                st.val[i.id] = a
            elif i.ty == 'i1' or i.ty == 'i32':
                st.val[i.id] = a
            else:
                st.val[i.id] = ('op', 'trunc' + i.ty[1:], a) if depth(a) < 3 else self.fresh(st, i.id)
            return [st]
        if op == 'select':
            c = self.oper(st, i.o[0])
            if c == UNDEF:
                self.on_use(st, i, c, 'condition')
                st.val[i.id] = self.fresh(st, i.id)
                return [st]
            res = []
            for truth, k in ((True, 1), (False, 2)):
                s2 = st.copy()
                if self.assume(s2, c, truth):
                    s2.val[i.id] = self.oper(s2, i.o[k])
                    res.append(s2)
            return res
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.oper(st, i.o[0]), self.oper(st, i.o[1])
            if a == UNDEF or b == UNDEF:
                st.val[i.id] = UNDEF
                return [st]
            self.on_arith(st, i, a, b)
            ca, cb = self.const(st, a), self.const(st, b)
            if ca is not None and cb is not None:
                v = None
                if op == 'add': v = ca + cb
                elif op == 'sub': v = ca - cb
                elif op == 'and': v = ca & cb
                elif op == 'or': v = ca | cb
                elif op == 'xor': v = ca ^ cb
                elif op == 'mul': v = ca * cb
                elif op == 'shl' and 0 <= cb < 63: v = ca << cb
                if v is not None and i.ty == 'i1':
                    v &= 1
                if v is not None and (i.blk not in self.inloop or abs(v) <= LOOPK or op in ('and', 'or', 'xor')) and abs(v) < INF:
                    st.val[i.id] = ('k', v)
                    return [st]
                st.val[i.id] = self.fresh(st, i.id)
                return [st]
            # negation of a condition
            if op == 'xor' and cb in (1, -1) and i.ty == 'i1':
                if a[0] == 'cmp' and a[1] in INV:
                    st.val[i.id] = ('cmp', INV[a[1]], a[2], a[3])
                else:
                    st.val[i.id] = ('cmp', 'eq', a, ZERO)
                return [st]
            if op in ('add', 'or', 'xor', 'shl', 'sub', 'ashr', 'lshr') and cb == 0:
                st.val[i.id] = a
                return [st]
            # pointer arithmetic through integers
            if op in ('add', 'sub', 'and', 'or', 'urem', 'srem', 'xor') and depth(a) < 2 and depth(b) < 2 \
                    and not (i.blk in self.inloop and op in ('add', 'sub')):
                if op == 'sub' and b[0] == 'k':
                    st.val[i.id] = ('op', 'add', a, ('k', -b[1]))
                elif op == 'add' and a[0] == 'k':
                    st.val[i.id] = ('op', 'add', b, a)
                else:
                    st.val[i.id] = ('op', op, a, b)
                return [st]
            s = self.fresh(st, i.id)
            st.val[i.id] = s
            ra, rb = self.rng(st, a), self.rng(st, b)
            if op == 'or' and any(0 in r[2] or r[0] > 0 or r[1] < 0 for r in (ra, rb)):
                st.facts[s] = NZ
            if op == 'add' and ra[0] > -INF and rb[0] > -INF:
                st.facts[s] = (max(-4, min(ra[0] + rb[0], 1)), INF, frozenset())
            return [st]
        if op in ('fptosi', 'fptoui'):
            a = self.oper(st, i.o[0])
            if a != UNDEF and a[0] != 'k':
                # the same number converts to the same integer
                st.val[i.id] = ('op', op + i.ty[1:], a) if depth(a) < 3 else self.fresh(st, i.id)
                return [st]
        if op == 'fcmp':
            a, b = self.oper(st, i.o[0]), self.oper(st, i.o[1])
            st.val[i.id] = ('cmp', 'f' + (i.pred or ''), a, b) if depth(a) < 2 and depth(b) < 2 and a != UNDEF and b != UNDEF else self.fresh(st, i.id)
            return [st]
        if i.ty:
            for v in i.o:
                if self.oper(st, v) == UNDEF and op not in ('insertvalue', 'extractvalue', 'insertelement'):
                    self.on_use(st, i, UNDEF, 'operand')
            st.val[i.id] = self.fresh(st, i.id)
        return [st]

    def on_arith(self, st, i, a, b):
        pass

    # ------------------------------------------------------------ per function
    def gc(self, st, blk, extra=()):
        """keep what block blk can still see; report tracked symbols that got lost"""
        live = self.live[blk] if blk is not None else ()
        if blk is not None:
            st.val = {k: v for k, v in st.val.items() if k in live}
        seen = set()
        for t in st.val.values():
            syms(t, seen)
        for t in extra:
            syms(t, seen)
        for fl in st.flags:
            if isinstance(fl, tuple):
                for x in fl:
                    if isinstance(x, tuple) and x and x[0] in ('s', 'p'):
                        syms(x, seen)
        for j in range(len(self.fn.args)):
            seen.add(('s', 'a', j))
        for t in st.facts:
            if t[0] == 's' and isinstance(t[1], tuple) and t[1][0] in ('ld', 'lit') and t[2] == 0:
                seen.add(t)
        work = True
        done = set()
        while work:
            work = False
            for k, v in st.mem.items():
                if k in done:
                    continue
                b = k[0]
                if b[0] in ('al', 'g') or b in seen:
                    done.add(k)
                    n = len(seen)
                    syms(v[0], seen)
                    work = True
        if len(done) != len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in done}
        lost = [s for s in st.res if s not in seen]
        st.facts = {t: f for t, f in st.facts.items() if syms(t, set()) <= seen or t in st.res}
        return lost

    def refs(self, st):
        """bindings to tracked symbols (must agree for two states to be merged)"""
        r = []
        for k, t in st.val.items():
            b = base_of(t)
            if b in st.res:
                r.append((k, t))
        for k, (t, z, cl) in st.mem.items():
            if base_of(t) in st.res:
                r.append((k, t))
        for s in st.res:
            r.append((s, st.facts.get(s)))
        return frozenset(r)

    def join(self, a, b, blk):
        """join two states with the same client state"""
        j = State()
        j.res = dict(a.res); j.flags = a.flags; j.esc = a.esc | b.esc; j.trace = a.trace
        for k in a.val:
            if k in b.val:
                ta, tb = a.val[k], b.val[k]
                if ta == tb:
                    j.val[k] = ta
                else:
                    if (ta == UNDEF) or (tb == UNDEF):
                        j.val[k] = UNDEF if self.keep_undef else ('s', ('m', blk, k), 0)
                        if self.keep_undef:
                            continue
                    s = ('s', ('m', blk, k), 0)
                    ra = self.rng(a, ta); rb = self.rng(b, tb)
                    j.val[k] = s
                    h = hull(ra, rb)
                    if h != TOP:
                        j.facts[s] = h
        for k in a.mem:
            if k in b.mem:
                va, vb = a.mem[k], b.mem[k]
                if va == vb:
                    j.mem[k] = va
                elif k[1] == '*':
                    j.mem[k] = (('any',), 0, '*')
                elif k[0][0] == 's' and k[0][1] != 'a':
                    continue
                elif va[1] == vb[1]:
                    if UNDEF in (va[0], vb[0]) and self.keep_undef:
                        j.mem[k] = (UNDEF, va[1], va[2]); continue
                    s = ('s', ('m', blk, k), 0)
                    j.mem[k] = (s, va[1], va[2])
                    ra = self.rng(a, va[0]); rb = self.rng(b, vb[0])
                    h = hull(ra, rb)
                    if h != TOP:
                        j.facts[s] = h
                elif k[0][0] == 'al':
                    j.mem[k] = (('s', ('m', blk, k), 0), min(va[1], vb[1]), '*')
        # an alloca default must never silently become "undef" for a cell only one side wrote
        for side, oth in ((a, b), (b, a)):
            for k in side.mem:
                if k not in oth.mem and k[0][0] == 'al' and not isinstance(k[1], str):
                    d = oth.mem.get((k[0], '*'))
                    if d is not None and d[0] == UNDEF:
                        if self.keep_undef:
                            j.mem[k] = (UNDEF,) + side.mem[k][1:]
                        else:
                            j.mem[k] = (('s', ('m', blk, k), 0),) + side.mem[k][1:]
        for t, f in a.facts.items():
            if t in j.facts:
                continue
            g = b.facts.get(t)
            if g is not None:
                h = hull(f, g)
                if h != TOP:
                    j.facts[t] = h
        return j

    keep_undef = False

    def subsumes(self, a, b):
        """a is at least as general as b (up to renaming of untracked symbols)"""
        if a.val.keys() != b.val.keys() or a.esc != b.esc:
            return False
        m = {}

        def match(x, y):
            if x[0] == 's':
                if x in a.res or y in b.res:
                    return x == y
                if told(x):
                    # what holds of these is told to the callers: nothing else can stand for them
                    return x == y
                o = m.get(x)
                if o is not None:
                    return o == y
                if y == UNDEF or y == ('any',):
                    return False
                f = a.facts.get(x)
                if f is not None:
                    g = self.rng(b, y)
                    if g[0] < f[0] or g[1] > f[1] or not all(z in g[2] or z < g[0] or z > g[1] for z in f[2]):
                        return False
                m[x] = y
                return True
            if x == y and x[0] not in ('p', 'op', 'cmp'):
                return True
            if x[0] != y[0] or len(x) != len(y):
                return False
            for p, q in zip(x[1:], y[1:]):
                if isinstance(p, tuple) and isinstance(q, tuple):
                    if not match(p, q):
                        return False
                elif p != q:
                    return False
            return True
        for k, t in a.val.items():
            if not match(t, b.val[k]):
                return False
        # memory: every cell a knows must hold in b (after renaming)
        for (base, o), (t, z, cl) in a.mem.items():
            if base[0] == 's':
                nb = m.get(base, base)
                if nb[0] not in ('s',):
                    return False
            else:
                nb = base
            v = b.mem.get((nb, o))
            if v is None:
                d = b.mem.get((nb, '*'))
                if t[0] == 's' and t not in m and t not in a.facts and t not in a.res:
                    continue
                return False
            if v[1] != z or not match(t, v[0]):
                return False
        # cells only b knows: fine unless a would read them as uninitialised/zero defaults
        for (base, o) in b.mem:
            if o != '*' and base[0] == 'al' and (base, o) not in a.mem:
                d = a.mem.get((base, '*'))
                if d is not None and d[0] != ('any',):
                    return False
        for t, f in a.facts.items():
            if t[0] == 's':
                if t in m:
                    continue
                y = t
            else:
                y = t
                for x, z in m.items():
                    if x != z:
                        y = subst(y, x, ('@',) + z)
                y = unat(y)
            g = self.rng(b, y) if y[0] != 'cmp' else b.facts.get(y) or self.rng(b, y)
            if g[0] < f[0] or g[1] > f[1] or not all(x in g[2] or x < g[0] or x > g[1] for x in f[2]):
                return False
        return True

    def analyse(self, f):
        import heapq
        self.fn = f
        self.live = f.live_in()
        rpo = f.rpo()
        pos = {b: k for k, b in enumerate(rpo)}
        self.inloop = set()
        self.headers = {}
        for h, body in f.loops():
            self.inloop |= body
            self.headers[h] = body
        self.mods = set()
        self.heapw = frozenset()
        self.argw = set()
        self._lv = {}
        self._phi = {}
        self.joins = 0
        self.cases = {}
        self.W = set()
        self.uses = set()
        self.t0 = time.time()
        st = State()
        for j in range(len(f.args)):
            st.val[j] = ('s', 'a', j)
        self.init_state(st)
        seen = defaultdict(list)      # (blk, ckey) -> [states]
        wl = []
        cnt = 0
        n = 0

        def push(blk, s):
            nonlocal cnt
            k = (blk, s.ckey())
            lst = seen[k]
            for o in lst:
                if self.subsumes(o, s):
                    return
            keep = [o for o in lst if not self.subsumes(s, o)]
            if len(keep) >= self.kst:
                r = (self.refs(s), self.phikey(s, blk))
                same = [o for o in keep if (self.refs(o), self.phikey(o, blk)) == r]
                if same:
                    o = min(same, key=lambda o: self.distance(o, s))
                    j = self.join(o, s, blk)
                    self.joins += 1
                    self.gc(j, blk)
                    if self.subsumes(o, j):
                        return
                    keep = [x for x in keep if not self.subsumes(j, x)]
                    s = j
                elif len(keep) > 6 * self.kst:
                    raise Budget()
            keep.append(s)
            seen[k] = keep
            cnt += 1
            heapq.heappush(wl, (pos.get(blk, 0), cnt, blk, s))

        push(0, st)
        complete = True
        try:
            while wl:
                _, _, blk, s = heapq.heappop(wl)
                if not any(o is s for o in seen[(blk, s.ckey())]):
                    continue
                n += 1
                self.stats['visits'] += 1
                if n > self.budget(f) or (n % 64 == 0 and time.time() - self.t0 > self.tbudget):
                    raise Budget()
                self.block(f, blk, s.copy(), push)
        except Budget:
            complete = False
            self.incomplete[f.key] = n
        cases = self.compress(list(self.cases.values()))
        if not complete:
            cases.append(Case((), frozenset(), None, (), frozenset(), frozenset()))
        return Summary(cases, frozenset(self.mods), self.heapw, complete, frozenset(self.W), frozenset(self.uses), frozenset(self.argw))

    tbudget = 10 ** 6

    def budget(self, f):
        return BUDGET

    def block(self, f, blk, st, push):
        b = f.blocks[blk]
        states = [st]
        for i in b.insts[:-1]:
            if i.op == 'phi':
                continue
            nxt = []
            for s in states:
                r = self.step(s, i)
                if i.op == 'call' and s.res is not None:
                    pass
                nxt += r
            states = nxt
            if not states:
                return
            if len(states) > 1 and i.op == 'call':
                # drop duplicates early, join what the client state does not tell apart
                uniq = {}
                for s in states:
                    uniq.setdefault(s.key(), s)
                states = list(uniq.values())
                if len(states) > max(6, self.kst // 4):
                    states = self.reduce(states, blk, i)
        t = b.insts[-1]
        for s in states:
            self.term(f, b, t, s, push)

    def phikey(self, st, blk):
        """truth values a block is entered with: what a short-circuit test decided must not be merged away"""
        ph = self._phi.get(blk)
        if ph is None:
            ph = self._phi[blk] = [i.id for i in self.fn.blocks[blk].insts if i.op == 'phi' and i.ty == 'i1']
        return tuple(self.rng(st, st.val.get(k, UNDEF))[:2] for k in ph)

    def distance(self, a, b):
        d = 0
        for x, y, w in ((a.mem, b.mem, 2), (a.val, b.val, 1), (a.facts, b.facts, 1)):
            for k in x.keys() | y.keys():
                if x.get(k) != y.get(k):
                    # a constant against another constant is what tells paths apart
                    d += w
        return d

    def reduce(self, states, blk, i):
        groups = {}
        for s in states:
            groups.setdefault((s.ckey(), self.refs(s)), []).append(s)
        out = []
        for g in groups.values():
            while len(g) > max(4, self.kst // 4):
                self.joins += 1
                a, b = g.pop(), g.pop()
                g.insert(0, self.join(a, b, (blk, i.id)))
            out += g
        return out

    def edge(self, f, frm, to, s, push, inst):
        s.trace = (s.trace, inst.oline or inst.line) if inst.line else s.trace
        newv, nz, was = {}, set(), {}
        for i in f.blocks[to].insts:
            if i.op != 'phi':
                break
            for v, p in i.phi:
                if p == frm:
                    t = self.oper(s, v)
                    if to in self.headers and frm in self.headers[to]:
                        d = f.defs.get(v[1]) if v[0] == 'i' else None
                        if t[0] == 'p' and d is not None and d.op in ('getelementptr', 'phi', 'load', 'call', 'select'):
                            if t[1][0] in ('s', 'al', 'g', 'str'):
                                t = ('p', t[1], '?')
                        elif t[0] == 'k' and d is not None and d.op in ('add', 'sub', 'mul', 'shl') and abs(t[1]) > LOOPK - 1:
                            t = None
                        elif t[0] == 'op':
                            if t[1] == 'or' and self.rng(s, t) == NZ:
                                nz.add(i.id)
                            t = None
                    if t is None:
                        was[i.id] = self.widened(s, self.oper(s, v), f.defs.get(v[1]) if v[0] == 'i' else None)
                    newv[i.id] = t
                    break
        for k, t in newv.items():
            if t is None:
                # the phi itself becomes a symbol of its own
                sy = ('s', k, 0)
                self.age(s, sy)
                newv[k] = sy
                if k in nz:
                    s.facts[sy] = NZ
                elif was.get(k):
                    s.facts[sy] = was[k]
        # renamings done by age() above must also reach the other new bindings
        s.val.update(newv)
        lost = self.gc(s, to)
        for x in lost:
            self.on_lost(s, x, s.res[x], inst)
        push(to, s)

    def widened(self, st, t, d):
        """what stays known of a value that comes round a loop once more"""
        return None

    def term(self, f, b, t, s, push):
        if t.op == 'br':
            if len(t.s) == 1:
                self.edge(f, b.id, t.s[0], s, push, t)
                return
            c = self.oper(s, t.o[0])
            if c == UNDEF:
                self.on_use(s, t, c, 'condition')
                c = ('s', ('u', t.id), 0)
            if t.s[0] == t.s[1]:
                self.edge(f, b.id, t.s[0], s, push, t)
                return
            for k, truth in ((0, True), (1, False)):
                s2 = s.copy()
                if self.assume(s2, c, truth):
                    s2 = self.on_branch(s2, t, c, truth)
                    if s2 is not None:
                        self.edge(f, b.id, t.s[k], s2, push, t)
        elif t.op == 'switch':
            c = self.oper(s, t.o[0])
            if c == UNDEF:
                self.on_use(s, t, c, 'condition')
                c = ('s', ('u', t.id), 0)
            bydest = {}
            for v, d in t.sw:
                if v == 'd':
                    continue
                s2 = s.copy()
                if self.assume(s2, ('cmp', 'eq', c, ('k', v)), True):
                    self.edge(f, b.id, d, s2, push, t)
            dd = [d for v, d in t.sw if v == 'd'][0]
            s2 = s.copy()
            ok = True
            for v, d in t.sw:
                if v != 'd' and not self.assume(s2, ('cmp', 'ne', c, ('k', v)), True):
                    ok = False
                    break
            if ok:
                self.edge(f, b.id, dd, s2, push, t)
        elif t.op == 'ret':
            r = self.oper(s, t.o[0]) if t.o else None
            self.do_return(f, t, s, r)

    def on_branch(self, st, inst, c, truth):
        return st

    # ------------------------------------------------------------ summaries
    def describe(self, st, t, f):
        if t is None:
            return None
        if t == UNDEF:
            return ('undef',)
        d = self.fresh_desc(st, t)
        if d is not None:
            b = base_of(t)
            return ('fresh', self.symname(b), d, t[2] if t[0] == 'p' else 0)
        c = self.const(st, t)
        if c is not None:
            return ('k', c)
        b = base_of(t)
        off = t[2] if t[0] == 'p' else 0
        if b[0] == 's' and b[1] == 'a':
            return ('arg', b[2], off)
        if t[0] == 'g':
            return t
        if t[0] in ('str', 'fn'):
            return t
        r = self.rng(st, t)
        if r == TOP:
            return None
        lo, hi = r[0], r[1]
        lo = -INF if lo < -1 else min(lo, 2)
        hi = INF if hi > 1 else hi
        return ('rng', lo, hi, frozenset(x for x in r[2] if abs(x) <= 1))

    def symname(self, s):
        return str(s[1:])

    def do_return(self, f, inst, st, r):
        if r == UNDEF and f.ret != 'void':
            self.on_use(st, inst, r, 'return value')
        self.on_return(st, inst, r)
        lost = self.gc(st, None)
        argf = []
        for j in range(len(f.args)):
            fa = st.facts.get(('s', 'a', j))
            if fa is not None and fa != TOP:
                lo = fa[0] if abs(fa[0]) < 100000 else (-INF if fa[0] < 0 else 100000)
                hi = fa[1] if abs(fa[1]) < 100000 else INF
                argf.append((j, (lo, hi, frozenset(x for x in fa[2] if abs(x) < 100000))))
        for t, fa in st.facts.items():
            if t[0] == 's' and isinstance(t[1], tuple) and t[1][0] == 'lit' and fa != TOP and (0 in fa[2] or fa[0] == fa[1] == 0):
                argf.append((t[1], (0, 0, frozenset()) if fa[0] == fa[1] == 0 else NZ))
            if t[0] == 's' and isinstance(t[1], tuple) and t[1][0] == 'ld' and t[2] == 0 and fa != TOP:
                lo = fa[0] if abs(fa[0]) < 100000 else (-INF if fa[0] < 0 else 100000)
                hi = fa[1] if abs(fa[1]) < 100000 else INF
                argf.append((t[1][1:], (lo, hi, frozenset(x for x in fa[2] if abs(x) < 100000))))
        argf.sort(key=str)
        out, unk = [], set()
        for fl in st.flags:
            if not isinstance(fl, tuple):
                continue
            if fl[0] == 'wu':
                unk.add(fl[1])
            elif fl[0] == 'w':
                m = st.mem.get((('s', 'a', fl[1]), fl[2]))
                if m is None:
                    out.append(((fl[1], fl[2], 1), None))
                else:
                    out.append(((fl[1], fl[2], m[1]), self.describe(st, m[0], f)))
        eff = self.case_effects(st, r)
        ret = self.describe(st, r, f) if r is not None else None
        # out cells through a fresh object share its name
        keepfl = frozenset(x for x in st.flags if self.flag_out(x))
        c = Case(tuple(argf), eff, ret, tuple(sorted(out, key=str)), frozenset(unk), keepfl)
        self.cases[c.key()] = c

    def flag_out(self, fl):
        return False

    def compress(self, cases):
        if len(cases) <= 1:
            return cases
        def hullf(A, B):
            a, b = dict(A), dict(B)
            r = []
            for i in a:
                if i in b:
                    f, g = a[i], b[i]
                    h = hull(f, g)
                    if h != TOP:
                        r.append((i, h))
            return tuple(sorted(r, key=str))
        def group(cs, keyf, joinret):
            d = {}
            for c in cs:
                k = keyf(c)
                if k in d:
                    o = d[k]
                    ret = o.ret if o.ret == c.ret else joinret(o.ret, c.ret)
                    oo, co = dict(o.out), dict(c.out)
                    out = []
                    unk = set(o.unk | c.unk)
                    for kk in oo:
                        if kk in co and oo[kk] == co[kk]:
                            out.append((kk, oo[kk]))
                        else:
                            out.append((kk, None))
                    for kk in co:
                        if kk not in oo:
                            out.append((kk, None))
                    d[k] = Case(hullf(o.argf, c.argf), o.eff, ret, tuple(sorted(out, key=str)), frozenset(unk), o.flags)
                else:
                    d[k] = c
            return list(d.values())
        def jr(a, b):
            if a is None or b is None:
                return None
            if a[0] in ('k', 'rng') and b[0] in ('k', 'rng'):
                ra = (a[1], a[1], frozenset()) if a[0] == 'k' else a[1:]
                rb = (b[1], b[1], frozenset()) if b[0] == 'k' else b[1:]
                h = (min(ra[0], rb[0]), max(ra[1], rb[1]), frozenset(x for x in (ra[2] | rb[2] | {0}) if (x in ra[2] or x < ra[0] or x > ra[1]) and (x in rb[2] or x < rb[0] or x > rb[1])))
                return ('rng',) + h if h != TOP else None
            return None
        def rc(r):
            if r is None:
                return None
            if r[0] == 'k':
                return r if self.fine and -1 <= r[1] <= 1 else ('k', (r[1] > 0) - (r[1] < 0))
            if r[0] == 'rng':
                lo, hi, ne = r[1:]
                if 0 in ne or lo > 0 or hi < 0:
                    return ('k', 1 if lo >= 0 else -1 if hi <= 0 else 'nz')
                return None
            if r[0] in ('g', 'str', 'fn'):
                return ('k', 'nz')
            return r
        def fo(c):
            return frozenset((k, v) for k, v in c.out if v is not None and v[0] == 'fresh')
        if not self.fine and all(not c.eff and not c.flags and not fo(c) for c in cases):
            # nothing the client cares about happens in here
            return group(cases, lambda c: (rc(c.ret), self.argclass(c, False)), jr)
        def ko(c):
            return frozenset((k, v) for k, v in c.out if v is not None and v[0] == 'k' and 0 <= v[1] < 8)
        cs = group(cases, lambda c: (c.eff, c.flags, rc(c.ret), fo(c), self.argclass(c), ko(c)), jr)
        if len(cs) > MAXCASES:
            cs = group(cs, lambda c: (c.eff, c.flags, rc(c.ret), fo(c), self.argclass(c)), jr)
        if len(cs) > MAXCASES:
            cs = group(cs, lambda c: (c.eff, c.flags, rc(c.ret), fo(c)), jr)
        if len(cs) > MAXCASES:
            cs = group(cs, lambda c: (c.eff, c.flags, fo(c)), jr)
        if len(cs) > MAXCASES:
            cs = group(cs, lambda c: (c.eff, c.flags), jr)
        return cs

    def run(self, only=None):
        cg = self.prog.callgraph()
        for comp in self.prog.sccs():
            comp = sorted(k for k in comp if only is None or only(self.prog.funcs[k]))
            rec = len(comp) > 1 or any(k in cg[k] for k in comp)
            if rec:
                for k in comp:
                    self.sums[k] = Summary([], frozenset(), frozenset())
            for rnd in range(4 if rec else 1):
                changed = False
                for k in comp:
                    f = self.prog.funcs[k]
                    for r in [r for r in self.reports if r[1] == k]:
                        del self.reports[r]
                    s = self.finish(f, self.analyse(f))
                    if self.joins and any(r[1] == k for r in self.reports):
                        s = self.confirm(f, s)
                    o = self.sums.get(k)
                    if o is None or set(c.key() for c in o.cases) != set(c.key() for c in s.cases) or o.mods != s.mods or o.heapw != s.heapw or o.argw != s.argw:
                        changed = True
                    self.sums[k] = s
                if not changed:
                    break
            self.stats['functions'] += len(comp)
        return self

    def confirm(self, f, s0):
        """Paths were merged on the way to a report: look again with far more room, believe what stays."""
        first = {r: v for r, v in self.reports.items() if r[1] == f.key}
        for r in first:
            del self.reports[r]
        old = self.kst
        self.stats['confirmations'] += 1
        try:
            self.kst = old * 8
            s = self.finish(f, self.analyse(f))
        finally:
            self.kst = old
        second = {r for r in self.reports if r[1] == f.key}
        for r in second:
            if r not in first:
                del self.reports[r]
        self.incomplete.pop(f.key, None)
        return s if s.complete else s0

    fine = False

    def argclass(self, c, deep=True):
        """argument conditions worth keeping apart: null / not null, and what a field was compared with"""
        return tuple((i, 0 if f[0] == f[1] == 0 else 1) for i, f in c.argf if not isinstance(i, tuple) and (f[0] == f[1] == 0 or 0 in f[2] or f[0] > 0 or f[1] < 0)) \
            + (tuple((i, f[0]) for i, f in c.argf if isinstance(i, tuple) and f[0] == f[1]) if deep else ())

    def finish(self, f, s):
        return s
