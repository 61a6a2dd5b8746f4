"""D07: an operation on a file, directory or process that fails makes the command fail."""
import os
import re
import sys
from multiprocessing import get_context
from sym import UNDEF
from props import status

# operation -> the outcome that means failure: -1, 0 (no handle), or 'nz' (anything but 0)
OPS = {'remove': -1, 'unlink': -1, 'rename': -1, 'mkdir': -1, 'rmdir': -1, 'chmod': -1, 'utime': -1, 'chdir': -1,
       'fopen': 0, 'fdopen': 0, 'popen': 0, 'open': -1, 'creat': -1, 'fork': -1, 'pipe': -1, '_pipe': -1, 'dup': -1, 'read': -1, 'write': -1, 'ferror': 'nz',
       'CreateProcessA': 0, 'CreateProcessW': 0, 'ShellExecuteExA': 0, 'ShellExecuteExW': 0, 'SetFileAttributesA': 0, 'SetFileAttributesW': 0,
       'CreateDirectoryA': 0, 'CopyFileA': 0, 'MoveFileA': 0, 'MoveFileExA': 0, 'DeleteFileA': 0, 'symlink': -1, 'link': -1, 'truncate': -1, 'ftruncate': -1}
for k in list(OPS):
    OPS['libcu8_' + k] = OPS[k]
NONNEG = {'open', 'creat', 'fork', 'read', 'write', 'dup'}

# reads that tell neither a failure from the end of the file
ENDS = {'fgets': 0, 'fread': 0, 'fgetc': -1, 'getc': -1, 'fgetwc': -1, '_IO_getc': -1}
# 0 for a line (the last one may lack its end), else the end
ENDS['pBat_EsGet'] = 'nz'
for k in list(ENDS):
    ENDS['libcu8_' + k] = ENDS[k]

# starting a program: a later attempt replaces an earlier one
START = {'fork', 'pipe', '_pipe', 'read', 'CreateProcessA', 'CreateProcessW', 'ShellExecuteExA', 'ShellExecuteExW'}
STARTED = ('e', 'started')

# operations that only try something
TRIED = {
    'pbat/linenoise/': 'reads from and writes to the terminal',
    'microgettext/': 'looks for a catalogue of messages; without one the messages stay as they are',
}
PREPARES = {'pBat_SigHandlerBreak chdir': 'on a break a new interpreter takes the place of this one, and shows the directory it is in',
            'pBat_SetFileMode SetFileAttributesW': 'makes a file removable before it is removed; the removal decides'}
WAIVED = {
    'pBat_CmdMakeDirs mkdir': 'the directories on the way may exist already; whether the last one could be made decides',
}


class Failures(status.Status):
    ops = 0

    def spec(self, st, inst, name, args):
        if name in self.EXEC:
            self.execs.add(inst.loc())
            e = self.err(st)
            if e and e[2].endswith(' chdir'):
                super().report('failure', inst, 'a program is run although chdir at %s failed' % e[2].rsplit(' ', 1)[0], st, key='exec chdir')
        return super().spec(st, inst, name, args)

    def event(self, st, inst, name, args):
        e = self.err(st) if name == 'strcmp' else None
        if e and e[2].endswith(' chdir'):
            # already there after all
            same = st.copy()
            same.val[inst.id] = ('k', 0)
            same.flags = same.flags - {e}
            v = self.fresh(st, inst.id)
            st.val[inst.id] = v
            self.setfact(st, v, -(1 << 31), (1 << 31) - 1, frozenset([0]))
            return [same, st]
        if name == status.REPORT:
            x = self.const(st, args[2])
            return [] if x is not None and x != 0 else [st]
        if name in ENDS and not self.fn.tu.startswith(tuple(TRIED)) and not self.fn.tu.startswith('libcu8'):
            out = self.unknown_call(st, inst, args, False) or [st]
            res = []
            for ok in out:
                end = ok.copy()
                v = self.fresh(ok, inst.id)
                ok.val[inst.id] = v
                w = ENDS[name]
                self.setfact(ok, v, *((0, 0, frozenset()) if w == 'nz' else (0, 255, frozenset()) if w else (-(1 << 70), 1 << 70, frozenset([0]))))
                end.val[inst.id] = ('k', 1 if w == 'nz' else w)
                self.then(end, 'ended')
                res += [ok, end]
            return res
        if name == 'fclose' or name == 'libcu8_fclose':
            self.then(st, 'closed')
            return None
        if name not in OPS or self.fn.tu.startswith(tuple(TRIED)) or self.fn.tu.startswith('libcu8'):
            return super().event(st, inst, name, args) if name not in OPS else None
        self.ops += 1
        base = name[7:] if name.startswith('libcu8_') else name
        w = '%s %s' % (self.fn.name, base)
        self.where.setdefault(w, set()).add(inst.loc())
        out = self.unknown_call(st, inst, args, False) or [st]
        res = []
        for s in out:
            bad, ok = s.copy(), s
            v = self.fresh(ok, inst.id)
            ok.val[inst.id] = v
            f = OPS[name]
            if f == 'nz':
                self.setfact(ok, v, 0, 0, frozenset())
                b = self.fresh(bad, inst.id)
                self.setfact(bad, b, -(1 << 31), (1 << 31) - 1, frozenset([0]))
                bad.val[inst.id] = b
            else:
                if f == 0:
                    self.setfact(ok, v, -(1 << 70), 1 << 70, frozenset([0]))
                elif base in NONNEG:
                    self.setfact(ok, v, 0, (1 << 31) - 1, frozenset())
                else:
                    self.setfact(ok, v, 0, 0, frozenset())
                bad.val[inst.id] = ('k', f)
            if w not in PREPARES and not (w in WAIVED and self.attempt(inst, name)):
                self.seen(bad, ('e', 'err', inst.loc() + ' ' + base))
                bad.flags = bad.flags - {STARTED}
            if base == 'fopen' and args[0][0] != 'str' and args[1][0] == 'str' and str(args[1][1]).startswith('r') and self.fn.name not in LINEWISE:
                self.then(ok, 'open', inst.loc())
            if name == 'ferror':
                self.then(ok, 'asked')
                self.then(bad, 'asked')
            if base in START - {'read'}:
                self.started(ok)
            res += [ok, bad]
        return res

    def report(self, kind, inst, detail, st, key=None):
        m = re.match(r'the error reported at (\S+) (\w+) leaves (.*)', detail)
        if m:
            detail = '%s at %s may fail and leave %s' % (m.group(2), m.group(1), m.group(3))
        super().report(kind, inst, detail, st, key=key)

    def started(self, st):
        e = self.err(st)
        st.flags = frozenset(x for x in st.flags if not (x is e and e[2].rsplit(' ', 1)[1] in START)) | {STARTED}

    def apply_effect(self, st, inst, e, args):
        if e[1] == 'rd':
            if e[2]:
                self.then(st, 'open', e[2])
            for x in e[3]:
                self.then(st, x)
            return True
        if e == STARTED:
            self.started(st)
            return True
        return super().apply_effect(st, inst, e, args)

    def on_return(self, st, inst, r):
        super().on_return(st, inst, r)
        if self.fn.name in self.hd and r is not None and r != UNDEF and self.maybe0(st, r):
            opened, seq = self.reading(st)
            if opened and seq[-1:] in (('ended',), ('lost',)):
                super().report('failure', inst, 'a failing read of the file opened at %s is taken for its end, and the command may end with status 0' % opened, st, key=opened.rsplit(':', 1)[0] + ' unasked')

    # a file read: opened here or not, and what happened last: '' | ended | asked | closed, or lost for good (closed after its end, never asked)
    def reading(self, st):
        return next((x[2:4] for x in st.flags if isinstance(x, tuple) and x[:2] == ('e', 'rd')), ('', ()))

    def then(self, st, what, loc=None):
        opened, seq = self.reading(st)
        if opened and seq == ('lost',):
            return
        if what == 'open':
            opened, seq = loc, ()
        elif opened:
            last = seq[-1:]
            if what == 'lost' or what == 'closed' and last == ('ended',):
                seq = ('lost',)
            elif what == 'closed':
                opened, seq = '', ()
            else:
                seq = (what,)
        elif what == 'closed':
            seq = ('lost',) if seq[-1:] == ('ended',) else seq if seq[-1:] == ('lost',) else seq[-1:] + ('closed',) if seq[-1:] == ('asked',) else ('closed',)
        else:
            seq = (what,)
        st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[:2] == ('e', 'rd')))
        if opened or seq:
            st.flags = st.flags | {('e', 'rd', opened, seq)}

    def attempt(self, inst, name):
        """one of several attempts on the way, of which a later one decides"""
        return not self.fn.uses().get(inst.id) and any(i.callee == name and self.fn.uses().get(i.id) for i in self.fn.calls())


LINEWISE = {
    'pBat_GetLine_Cmdly': 'reads a script again for every line of it, as command.com did; the script ends where it cannot be read on',
    'pBat_JumpToLabel_Cmdly': 'the same, looking for a label; what is not found is reported',
}


def work(a):
    cfg, path = a
    import ir
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    h = status.handlers(p)
    e = Failures(p, h, status.cut(p, h))
    e.where, e.execs = {}, set()
    e.run()
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), len(h), {k: sorted(v) for k, v in e.where.items()}, e.ends


def run(pid, ctx):
    import build
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'failures.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    cov = {}
    for cfg, reps, stats, inc, nh, where, ends in res:
        if cfg == 'selftest':
            hit = {r['func'] for k, r in reps}
            src = open(os.path.join(ctx.verif, 'selftest', 'failures.c')).read()
            want = set(re.findall(r'\b(bad_\w+)\(', src))
            for x in want - hit:
                ctx.broken('self-test: %s not reported' % x)
            for x in hit - want:
                ctx.broken('self-test: %s reported' % x)
            continue
        for k, r in reps:
            ctx.violation('%s %s' % (r['func'], k[2]), r['loc'], '%s: %s' % (r['func'], r['detail']), 'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
        ctx.need(nh, 30, '%s: commands' % cfg)
        ctx.need(sum(map(len, where.values())), 20, '%s: operations' % cfg)
        ctx.need(ends, 200, '%s: ends of commands' % cfg)
        cov[cfg] = dict(commands=nh, operations={k: v for k, v in sorted(where.items())}, returns=ends, path_states=stats.get('visits', 0), cut_short=inc)
    ctx.cov(tried=TRIED, not_asked=LINEWISE, waived=dict(WAIVED, **PREPARES), **cov)
