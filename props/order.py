"""D05: what the interpreter printed reaches its stream before anyone else writes there, or the stream is pointed elsewhere."""
import context, flow

STREAMS = {'fOutput': 'fOutput', '_fOutput': 'fOutput', 'fError': 'fError', '_fError': 'fError'}
STARTS = {'fork', 'vfork', 'CreateProcessA', 'CreateProcessW', 'ShellExecuteExA', 'ShellExecuteExW', 'popen', '_popen', 'system', '_wsystem',
          'pthread_create', 'CreateThread', '_beginthreadex', 'posix_spawn'}
# what can reach the streams of an interpreter at all: the string, file and conversion libraries below it have no access to them
PRINTS = ('pbat/', 'libpbat/')
NOWRITE = {'fileno', '_fileno', 'isatty', 'setvbuf', 'setbuf', 'clearerr', 'ferror', 'feof', 'ftell', 'flockfile', 'funlockfile', 'ftello'}
WAIVED = {
    ('pBat_SigHandler', 'fOutput'): 'runs in a thread of the console that has no interpreter state and replaces the process',
    ('pBat_SigHandler', 'fError'): 'runs in a thread of the console that has no interpreter state and replaces the process',
    ('pBat_StartFile', 'fError'): 'only the report of a variable that could not be set for the program can be unwritten there',
}
BOTH = frozenset(('fOutput', 'fError'))


def stream_of(f, v):
    """the interpreter streams a FILE* value may be"""
    out = set()
    for a in flow.origin(f, v):
        if a[0] == 'load' and a[1][0] == 'tls' and a[1][1] in STREAMS:
            out.add(STREAMS[a[1][1]])
    return out


class Flush:
    """forward must-analysis: which streams hold nothing unwritten, at every instruction; meets over call sites"""

    def __init__(self, p, cfg):
        self.p, self.cfg = p, cfg
        self.fs = {f.key: f for f in p.funcs.values() if f.tu.startswith(('pbat/', 'libpbat/', 'libcu8/', 'microgettext/', 'libfasteval/')) or cfg == 'selftest'}
        self.sum = {}       # key -> {stream: 'id' | 'clean' | 'dirty'}
        self.summaries()

    def effect(self, f, i):
        """{stream: 'clean'|'dirty'} of one instruction, or None if it does not come back"""
        c = i.callee
        if i.op not in ('call', 'invoke'):
            return {}
        if i.noret or context.fatal(i) or (c in context.NORETURN):
            return None
        if c is None:
            if not f.tu.startswith(PRINTS) and self.cfg != 'selftest':
                return {}
            e = {}
            for t in self.p.indirect(i, len(i.o)):
                for s, x in self.sum.get(t.key, {}).items():
                    if x != 'id':
                        e[s] = 'dirty'
            return e
        if c.startswith('llvm.'):
            return {}
        t = self.p.resolve(c, f.tu)
        if t is not None and t.key in self.fs:
            e = dict((s, x) for s, x in self.sum.get(t.key, {}).items() if x != 'id')
            for v in i.o:
                for s in stream_of(f, v) if v[0] == 'i' else ():
                    if not self.quiet(t):
                        e[s] = 'dirty'
            return e
        if c in ('fflush', 'fclose', '_commit'):
            if i.o[0][0] == 'null':
                return dict.fromkeys(BOTH, 'clean')
            s = stream_of(f, i.o[0])
            return dict.fromkeys(s, 'clean') if len(s) == 1 else {}
        if c in NOWRITE:
            return {}
        e = {}
        for v in i.o:
            for s in stream_of(f, v) if v[0] == 'i' else ():
                e[s] = 'dirty'
        return e

    def quiet(self, t, seen=None):
        """a function that does not print to a stream it is given"""
        seen = seen or set()
        if t.key in seen:
            return True
        seen.add(t.key)
        for i in t.calls():
            for v in i.o:
                if any(a[0] == 'a' for a in flow.origin(t, v)) and i.callee in ('fputs', 'fputc', 'putc', 'fwrite', 'fprintf', 'vfprintf'):
                    return False
                if i.callee and any(a[0] == 'a' for a in flow.origin(t, v)):
                    u = self.p.resolve(i.callee, t.tu)
                    if u is not None and not self.quiet(u, seen):
                        return False
        return True

    def transfer(self, f, b, st, at=None):
        for i in f.blocks[b].insts:
            if at is not None:
                at(i, st)
            e = self.effect(f, i)
            if e is None:
                return None
            for s, x in e.items():
                st = st | {s} if x == 'clean' else st - {s}
        return st

    def solve(self, f, entry, at=None):
        """states at block entries; at exit: meet over returns"""
        ins = {0: entry}
        work = [0]
        child = context.child_blocks(self.p, f)
        while work:
            b = work.pop()
            o = self.transfer(f, b, ins[b])
            if o is None:
                continue
            for s in f.blocks[b].succ:
                if s in child and b not in child:
                    continue
                n = o if s not in ins else ins[s] & o
                if s not in ins or n != ins[s]:
                    ins[s] = n
                    work.append(s)
        ex = None
        for b in ins:
            if at is not None:
                self.transfer(f, b, ins[b], at)
            if f.blocks[b].insts[-1].op == 'ret':
                o = self.transfer(f, b, ins[b])
                if o is not None:
                    ex = o if ex is None else ex & o
        return ex

    def summaries(self):
        order = [k for c in self.p.sccs() for k in c if k in self.fs]
        for _ in range(8):
            ch = False
            for k in order:
                f = self.fs[k]
                a, z = self.solve(f, BOTH), self.solve(f, frozenset())
                r = {}
                for s in BOTH:
                    r[s] = 'clean' if a is None or (z is not None and s in z) else 'id' if s in a else 'dirty'
                if self.sum.get(k) != r:
                    self.sum[k] = r
                    ch = True
            if not ch:
                break

    def entries(self):
        """state at the entry of every function: meet over all calls (threads and the program start with nothing unwritten)"""
        callers = set()
        ent = {}
        at = self.p.address_taken()
        called = set()
        for f in self.fs.values():
            for i in f.calls():
                t = self.p.resolve(i.callee, f.tu) if i.callee else None
                if t is not None:
                    called.add(t.key)
        work = [k for k in self.fs if k not in called]
        for k in work:
            ent[k] = BOTH
        pend = list(work)
        while pend:
            k = pend.pop()
            f = self.fs[k]
            out = []

            def see(i, st):
                if i.op not in ('call', 'invoke'):
                    return
                if i.callee is None:
                    ts = self.p.indirect(i, len(i.o))
                else:
                    t = self.p.resolve(i.callee, f.tu)
                    ts = [t] if t is not None else []
                for t in ts:
                    if t.key in self.fs:
                        out.append((t.key, st))
            self.solve(f, ent[k], see)
            for t, st in out:
                n = st if t not in ent else ent[t] & st
                if t not in ent or n != ent[t]:
                    ent[t] = n
                    pend.append(t)
        return ent


def analyse(p, cfg, report):
    a = Flush(p, cfg)
    ent = a.entries()
    n = {'program or thread starts': 0, 'streams pointed elsewhere': 0}
    for k, f in a.fs.items():
        if k not in ent:
            continue
        child = context.child_blocks(p, f)

        def see(i, st):
            c = i.callee
            if i.op not in ('call', 'invoke') or c is None or i.blk in child:
                return
            if c in STARTS and p.resolve(c, f.tu) is None:
                n['program or thread starts'] += 1
                for s in sorted(BOTH - st):
                    if (f.name, s) in WAIVED:
                        continue
                    report('start %s %s' % (f.name, s), i.loc(), '%s starts a program or thread while text printed to %s may still be in its buffer' % (f.name, s))
            if c in ('dup2', '_dup2') and p.resolve(c, f.tu) is None and len(i.o) > 1 and i.o[1][0] == 'i':
                for x in flow.origin(f, i.o[1]):
                    if x[0] == 'call' and x[1] in ('fileno', '_fileno'):
                        for s in stream_of(f, f.defs[x[2]].o[0]):
                            n['streams pointed elsewhere'] += 1
                            if s not in st:
                                report('redirect %s %s' % (f.name, s), i.loc(), '%s points %s elsewhere while text printed to it may still be in its buffer' % (f.name, s))
        a.solve(f, ent[k], see)
    return n, len(a.fs)


def run(pid, ctx):
    cov = {}
    for cfg in ctx.cfgs:
        n, fs = analyse(ctx.prog(cfg), cfg, lambda k, l, m: ctx.violation(k, l, m, cfg))
        ctx.need(n['program or thread starts'], 3, '%s: program starts' % cfg)
        ctx.need(n['streams pointed elsewhere'], 4, '%s: redirected streams' % cfg)
        cov[cfg] = dict(n, functions=fs)
    ctx.cov(waived=['%s %s: %s' % (a, b, r) for (a, b), r in WAIVED.items()], **cov)
