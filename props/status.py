"""D04: a command that reports an error has failed."""
import sys
from multiprocessing import get_context
from typestate import Flagged
from sym import UNDEF, base_of

LEVEL = 'iErrorLevel'
REPORT = 'pBat_ShowErrorMessage'


def handlers(p):
    """functions that stand next to a name in a constant table: {function name: command name}"""
    out = {}

    def walk(v):
        if not isinstance(v, (list, tuple)):
            return
        if v and v[0] == 'agg':
            e = v[1]
            if len(e) >= 2 and e[0][0] == 's' and e[1][0] == 'fn':
                out.setdefault(e[1][1], e[0][1])
            for x in e:
                walk(x)
    for g in p.globals.values():
        if g['tu'].startswith('pbat/') or '/' not in g['tu']:
            walk(g.get('init'))
    return out


# reports that are not those of the command at hand
OTHERS = {'pBat_CloneInstance': 'starts another interpreter: what it reports (memory ran out while copying) is that one\'s failure'}


class Status(Flagged):
    def __init__(self, prog, handlers, cut, **kw):
        super().__init__(prog, **kw)
        self.hd, self.cut = handlers, cut
        self.sites = 0
        self.ends = self.dispatch = 0

    def event(self, st, inst, name, args):
        if name == REPORT:
            self.sites += 1
            x = self.const(st, args[2])
            if x is not None and x != 0:
                return []
            self.seen(st, ('e', 'err', inst.loc()))
            return [st]
        if name in ('strcmp', 'stricmp', '_stricmp', 'strcasecmp') and len(args) == 2 and args[0][:2] == ('s', 'a') and args[1][0] == 'str':
            # remembered by what was compared, so that a caller passing a literal selects the right case
            st.val[inst.id] = ('s', ('lit', args[0][2], name, str(args[1][1])), 0)
            return [st]
        return None

    def on_store(self, st, inst, base, off, t):
        # the failure has been recorded
        if base[0] == 'g' and base[1] == self.prog.gkey(LEVEL, self.fn.tu) and t != UNDEF and not self.maybe0(st, t) and self.fn.name in self.cut:
            st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[:2] == ('e', 'err')))

    def apply_effect(self, st, inst, e, args):
        if inst.callee in OTHERS:
            return True
        if inst.callee in self.hd:
            return True     # what a command reports is its own failure
        if inst.callee in self.cut:
            # so is what a dispatcher reports, if it returns the failure to a caller that looks; other helpers that run commands report for whom they work
            f = self.prog.resolve(inst.callee, self.fn.tu)
            if f is None or self.levels(f) and self.fn.uses().get(inst.id):
                return True
        self.seen(st, e)
        return True

    def maybe0(self, st, t):
        lo, hi, ne = self.rng(st, t)
        return lo <= 0 <= hi and 0 not in ne

    def heard(self, f):
        """does any caller look at what it returns"""
        if not hasattr(self, '_heard'):
            self._heard = {self.prog.resolve(i.callee, g.tu).key for g in self.prog.funcs.values() for i in g.calls()
                           if i.callee and self.prog.resolve(i.callee, g.tu) is not None and g.uses().get(i.id)}
        return f.key in self._heard

    def levels(self, f):
        """does it work on the error level"""
        return any(v[0] == 'g' and v[1] == LEVEL for i in f.insts() for v in i.o)

    def err(self, st):
        return next((x for x in st.flags if isinstance(x, tuple) and x[:2] == ('e', 'err')), None)

    def seen(self, st, e):
        if self.err(st) is None:
            st.flags = st.flags | {e}

    def on_return(self, st, inst, r):
        if self.fn.name in self.cut and self.fn.name not in self.hd and self.levels(self.fn):
            self.dispatch += 1
            e = self.err(st)
            if e:
                g = ('g', self.prog.gkey(LEVEL, self.fn.tu))
                m = st.mem.get((g, 0))
                d = self.fn.defs.get(m[0][1]) if m is not None and m[0][0] == 's' and isinstance(m[0][1], int) else None
                if d is not None and d.op == 'load' and base_of(self.oper(st, d.o[0])) == g:
                    m = None        # only read, never set
                if (m is None or self.const(st, m[0]) == 0) and not (r is not None and r != UNDEF and self.heard(self.fn) and not self.maybe0(st, r)):
                    self.report('status', inst, 'the error reported at %s leaves the error level %s' % (e[2], 'as it was before' if m is None else 'possibly 0'), st, key=e[2].rsplit(':', 1)[0])
                if m is not None or not self.heard(self.fn):
                    st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[:2] == ('e', 'err')))
        if self.fn.name in self.hd:
            self.ends += 1
            e = self.err(st)
            if e and r is not None and r != UNDEF:
                if self.maybe0(st, r):
                    d = self.const(st, r) == 0
                    self.report('status', inst, 'the error reported at %s leaves the command with %s' % (e[2], 'status 0, success' if d else 'a status that may be 0, success'), st, key=e[2].rsplit(':', 1)[0])


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    h = handlers(p)
    e = Status(p, h, cut(p, h))
    e.run()
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), h, e.sites, e.ends, e.dispatch


def cut(p, h):
    """functions that run other commands: what those report is their own failure"""
    t = {f.key for f in p.funcs.values() if f.name in h}
    direct = set()
    for f in p.funcs.values():
        for i in f.calls():
            if not i.callee and t & {x.key for x in p.indirect(i, len(i.o))}:
                direct.add(f.key)
    cg = p.callgraph()
    pred = {}
    for k in cg:
        for x in cg[k]:
            pred.setdefault(x, set()).add(k)
    seen, todo = set(), list(direct)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += pred.get(x, ())
    return {p.funcs[k].name for k in seen}


def run(pid, ctx):
    import build
    jobs = [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, h, sites, ends, disp in res:
        for k, r in reps:
            ctx.violation('%s %s' % (r['func'], k[2]), r['loc'], '%s: %s' % (r['func'], r['detail']), 'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
        cov[cfg] = dict(commands=len(h), reports=sites, returns=ends, dispatcher_returns=disp, path_states=stats.get('visits', 0), cut_short=inc)
        ctx.need(len(h), 30, '%s: commands' % cfg)
        ctx.need(sites, 300, '%s: error reports on paths' % cfg)
        ctx.need(ends, 200, '%s: ends of commands' % cfg)
        ctx.need(disp, 20, '%s: ends of dispatchers' % cfg)
    ctx.cov(not_the_commands_own=OTHERS, **cov)
