"""Path-sensitive clients that track a few facts in the state's flags."""
from sym import Engine, UNDEF, ZERO, base_of, mkp, INF
from resources import NORETURN


class Flagged(Engine):
    """('t', ...) flags are facts the client tracks; ('e', ...) flags are handed to callers as effects."""
    EXEC = ('execv', 'execvp', 'execve', 'execl', 'execlp', 'execle', 'execvpe')

    def case_effects(self, st, ret):
        return frozenset(x for x in st.flags if isinstance(x, tuple) and x[0] == 'e')

    def apply_effect(self, st, inst, e, args):
        st.flags = st.flags | {e}
        return True

    def spec(self, st, inst, name, args):
        if name in NORETURN:
            return []
        if name in self.EXEC:
            st.val[inst.id] = ('k', -1)
            return [st]
        return self.event(st, inst, name, args)

    def event(self, st, inst, name, args):
        return None


LOCK = {'pthread_mutex_lock', 'EnterCriticalSection'}
UNLOCK = {'pthread_mutex_unlock', 'LeaveCriticalSection'}


def gname(t):
    b = base_of(t)
    return (b[1][1] if isinstance(b[1], tuple) else b[1]) if b[0] == 'g' else None


class Locks(Flagged):
    """which mutexes are held, per path"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.edges = {}         # (held, acquired) -> where
        self.acq = {}           # function -> mutexes it may take, callees included
        self.sites = set()
        self.handlers = prog.address_taken()

    def take(self, st, inst, m):
        self.sites.add((self.fn.key, inst.id))
        for h in [x[2] for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'held')]:
            self.edges.setdefault((h, m), (inst.loc(), self.fn.name))
            if h == m and self.prog.cfg != 'windows':
                self.report('self-deadlock', inst, 'mutex %s is taken again while it is held' % m, st, key='again %s' % m)
        st.flags = (st.flags - {('e', 'unlock', m)}) | {('t', 'held', m)} | ({('e', 'lock', m)} if ('e', 'unlock', m) not in st.flags else set())

    def drop(self, st, inst, m):
        self.sites.add((self.fn.key, inst.id))
        if ('t', 'held', m) in st.flags:
            st.flags = st.flags - {('t', 'held', m), ('e', 'lock', m)}
        else:
            st.flags = st.flags | {('e', 'unlock', m)}

    def event(self, st, inst, name, args):
        if name in ('pBat_LockMutex', 'pBat_ReleaseMutex') or name in LOCK or name in UNLOCK:
            m = gname(args[0]) if args else None
            if m is None:
                return None
            (self.take if name == 'pBat_LockMutex' or name in LOCK else self.drop)(st, inst, m)
            self.acq.setdefault(self.fn.key, set())
            if name == 'pBat_LockMutex' or name in LOCK:
                self.acq[self.fn.key].add(m)
            st.val[inst.id] = ZERO      # a mutex operation that fails ends the interpreter
            return [st]
        return None

    def on_call(self, st, inst, name, args):
        held = [x[2] for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'held')]
        f = self.prog.resolve(name, self.fn.tu) if name else None
        if f is None:
            return
        a = self.acq.get(f.key, ())
        if a:
            self.acq.setdefault(self.fn.key, set()).update(a)
        for m in a:
            for h in held:
                self.edges.setdefault((h, m), (inst.loc(), self.fn.name))
                if h == m and self.prog.cfg != 'windows':
                    self.report('self-deadlock', inst, 'mutex %s is held across the call of %s, which takes it' % (m, name), st,
                                key='across %s %s' % (m, name))

    def apply_effect(self, st, inst, e, args):
        if e[1] == 'lock':
            st.flags = st.flags | {('t', 'held', e[2])} | ({e} if ('e', 'unlock', e[2]) not in st.flags else set())
        elif e[1] == 'unlock':
            if ('t', 'held', e[2]) in st.flags:
                st.flags = st.flags - {('t', 'held', e[2]), ('e', 'lock', e[2])}
            else:
                st.flags = st.flags | {e}
        return True

    def finish(self, f, s):
        """all exits agree; entry points leave with what they came with"""
        per = [frozenset(c.eff) for c in s.cases]
        if len(set(per)) > 1 or (per and per[0] and self.root(f)):
            for e in sorted(frozenset().union(*per)):
                if len(set(per)) > 1 and all(e in p for p in per) and not self.root(f):
                    continue
                w = 'still held when it returns' if e[1] == 'lock' else 'released without being held'
                k = ('lock', f.key, '%s %s' % (e[1], e[2]))
                self.reports[k] = dict(kind='lock', func=f.name, tu=f.tu, loc='%s:%d' % (f.tu, f.line),
                                       detail='mutex %s is %s on %s path' % (e[2], w, 'a' if len(set(per)) > 1 else 'every'), path=[], extra=None)
            # report once, here: callers see a balanced function
            import sym
            s.cases = [sym.Case(c.argf, frozenset(), c.ret, c.out, c.unk, c.flags) for c in s.cases]
        return s

    def root(self, f):
        if not hasattr(self, '_callers'):
            self._callers = set().union(*self.prog.callgraph().values()) if self.prog.funcs else set()
        return f.key in self.handlers or f.key not in self._callers
