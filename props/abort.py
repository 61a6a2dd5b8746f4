"""D08: once a GOTO, an EXIT or a break has been asked for, nothing more of what it leaves is run."""
import os
import re
import sys
from multiprocessing import get_context
from typestate import Flagged
from sym import UNDEF
from props import status

ABORT = 'bAbortCommand'
LEVEL, BLOCK = -1, 2
OWNERS = {'main': 'starts the first execution level'}
RAN = ('t', 'ran')


class Abort(Flagged):
    def __init__(self, prog, cut, **kw):
        super().__init__(prog, **kw)
        self.cut = cut
        self.runs, self.again, self.resets = set(), set(), set()
        self.direct = {}

    def asked(self, st):
        """may an abort be pending here"""
        g = ('g', self.prog.gkey(ABORT, self.fn.tu))
        m = st.mem.get((g, 0))
        if m is None:
            return True
        lo, hi, ne = self.rng(st, m[0])
        return not (lo == 0 == hi)

    def helpers(self):
        """functions that run nothing and look at the request, or forget it, for those that call them"""
        if not hasattr(self, '_help'):
            looks, forgets = set(), set()
            for f in self.prog.funcs.values():
                if f.name in self.cut or f.name in self.hd or f.name in OWNERS or '/' in f.tu and not f.tu.startswith('pbat/'):
                    continue
                tls = {i.id for i in f.calls() if i.o and tuple(i.o[0][:2]) == ('g', ABORT)}
                def here(v):
                    return tuple(v[:2]) == ('g', ABORT) or v[0] == 'i' and v[1] in tls
                for i in f.insts():
                    if i.op == 'load' and here(i.o[0]):
                        looks.add(f.name)
                    elif i.op == 'store' and here(i.o[1]) and i.o[0][0] != 'i':
                        forgets.add(f.name)
            self._help = looks, forgets
        return self._help

    def on_call(self, st, inst, name, args):
        looks, forgets = self.helpers()
        if name in forgets and self.fn.name not in forgets:
            self.forget(st, inst, st.mem.get((('g', self.prog.gkey(ABORT, self.fn.tu)), 0)))
        if name in looks and RAN in st.flags:
            st.flags = self.without(st)
        if RAN in st.flags and not self.asked(st):
            st.flags = self.without(st)
        f = self.prog.resolve(name, self.fn.tu) if name else None
        if f is not None and f.name in self.cut or f is None and inst.id in runs_commands(self.prog, self.fn, self.hd):
            self.dispatch(st, inst)

    def on_store(self, st, inst, base, off, t):
        if base != ('g', self.prog.gkey(ABORT, self.fn.tu)) or t == UNDEF or self.const(st, t) != 0:
            return
        if self.fn.name not in self.helpers()[1]:
            self.forget(st, inst, self._was)

    def forget(self, st, inst, m):
        self.resets.add(inst.loc())
        lo, hi, ne = self.rng(st, m[0]) if m is not None else (-(1 << 31), (1 << 31) - 1, frozenset())
        may = [v for v in (LEVEL, BLOCK) if lo <= v <= hi and v not in ne]
        names = {i.callee for i in self.fn.calls()}
        if may and self.fn.name not in OWNERS:
            last = [x[3] for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'by')]
            if LEVEL in may and 'pBat_RunBatch' not in last:
                self.report('forgotten', inst, 'the end of the execution level asked for is forgotten here, where the level has not ended', st, key='reset level')
            elif BLOCK in may and 'pBat_RunBatch' not in last and 'pBat_GetLine' not in names:
                self.report('forgotten', inst, 'the end of the block asked for is forgotten here, where the block has not ended', st, key='reset block')

    def store(self, st, addr, t, sz, inst, cls=None):
        self._was = st.mem.get((('g', self.prog.gkey(ABORT, self.fn.tu)), 0))
        return super().store(st, addr, t, sz, inst, cls)

    @staticmethod
    def without(st):
        return frozenset(x for x in st.flags if not (x == RAN or isinstance(x, tuple) and x[:2] == ('t', 'by')))

    def dispatch(self, st, inst):
        k = inst.loc()
        self.runs.add(k)
        if RAN in st.flags:
            self.again.add(k)
            if self.asked(st):
                self.report('abort', inst, 'commands are run here after others (%s) without looking whether those ended the execution' % ' '.join(x[2] for x in st.flags if isinstance(x, tuple) and x[:2] == ('t', 'by')),
                            st, key='abort %s' % (inst.callee or 'command'))
        st.flags = self.without(st) | {RAN, ('t', 'by', k, inst.callee or '')}


def runs_commands(p, f, h):
    """the indirect calls of a function that run a command"""
    if not hasattr(p, '_rc'):
        p._rc = {}
    if f.key not in p._rc:
        out = set()
        for i in f.calls():
            if '/' in f.tu and not f.tu.startswith('pbat/') or i.callee or not any(x.name in h for x in p.indirect(i, len(i.o))):
                continue
            todo, seen, stored = [i.calleev] if i.calleev is not None else [], set(), False
            while todo:
                v = todo.pop()
                if v[0] != 'i' or v[1] in seen:
                    continue
                seen.add(v[1])
                d = f.defs.get(v[1])
                if d is None:
                    continue
                if d.op in ('phi', 'select', 'bitcast', 'freeze'):
                    todo += [x for x, _ in d.phi] if d.op == 'phi' else list(d.o)
                elif d.op == 'load' and d.o[0][0] != 'g':
                    stored = True
            if stored:
                out.add(i.id)
        p._rc[f.key] = out
    return p._rc[f.key]


def runners(p, h):
    """functions that run commands, directly or through others"""
    cg = p.callgraph()
    pred = {}
    for k in cg:
        for x in cg[k]:
            pred.setdefault(x, set()).add(k)
    handlers = {f.key for f in p.funcs.values() if f.name in h}
    direct = {f.key for f in p.funcs.values() if runs_commands(p, f, h)}
    seen, todo = set(), list(direct)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            # what calls a command's handler through a pointer is known already
            todo += [y for y in pred.get(x, ()) if x not in handlers or any(i.callee == p.funcs[x].name for i in p.funcs[y].calls())]
    return {p.funcs[k].name for k in seen}


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    h = status.handlers(p)
    c = runners(p, h)
    e = Abort(p, c)
    e.hd = h
    e.run()
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), sorted(c), sorted(e.runs), sorted(e.again), sorted(e.resets)


def run(pid, ctx):
    import build
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'abort.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, run, calls, again, resets in res:
        if cfg == 'selftest':
            hit = {r['func'] for k, r in reps}
            want = set(re.findall(r'\b(bad_\w+)\(', open(os.path.join(ctx.verif, 'selftest', 'abort.c')).read()))
            for x in want - hit:
                ctx.broken('self-test: %s not reported' % x)
            for x in hit - want:
                ctx.broken('self-test: %s reported' % x)
            continue
        for k, r in reps:
            ctx.violation('%s %s' % (r['func'], k[2]), r['loc'], '%s: %s' % (r['func'], r['detail']), 'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
        ctx.need(len(run), 15, '%s: functions that run commands' % cfg)
        ctx.need(len(calls), 25, '%s: calls that run commands' % cfg)
        ctx.need(len(resets), 2, '%s: places where a request is forgotten' % cfg)
        cov[cfg] = dict(functions_that_run_commands=run, calls=calls, forgotten_at=resets, path_states=stats.get('visits', 0), cut_short=inc)
    ctx.cov(owners=OWNERS, **cov)
