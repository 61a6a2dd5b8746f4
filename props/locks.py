"""L01 mutex discipline, L02 shared state only under its lock."""
import sys
from multiprocessing import get_context


# ------------------------------------------------------------------ shared state
def gnames(v, out):
    """globals an operand names"""
    if isinstance(v, (list, tuple)) and v:
        if v[0] == 'g':
            out.append(v[1])
        else:
            for x in v:
                if isinstance(x, (list, tuple)):
                    gnames(x, out)
    return out


STARTERS = ('pthread_create', 'CreateThread', '_beginthreadex', '_beginthread')
PROGRAM = ('microgettext/', 'libpbat/', 'libfasteval/', 'pbat/', 'libcu8/', 'selftest')
# state no mutex protects, each with the reason
ONCE = {
    ('linux', 'fdStdin'): 'only written by the forked child, which shares no memory with the other threads',
    ('linux', 'fdStdout'): 'only written by the forked child, which shares no memory with the other threads',
    ('linux', 'fdStderr'): 'only written by the forked child, which shares no memory with the other threads',
}
ONCE_TU = {'libcu8/src/iconv/iconv.c': 'bundled converter: entry points of the system library, looked up once, always to the same value'}
# results kept in memory all threads share
HIDDEN = {'strtok', 'asctime', 'ctime', 'tmpnam', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'localtime', 'gmtime', 'ttyname', 'getlogin',
          'ptsname', 'basename', 'dirname', 'crypt', 'gethostbyname', 'l64a', 'ecvt', 'fcvt', 'tempnam'}


def writes_param(p, f, n, seen=None):
    """may this function store through its n-th pointer argument"""
    seen = seen if seen is not None else set()
    if (f.key, n) in seen:
        return False
    seen.add((f.key, n))
    if n >= len(f.args):
        return True
    return addr_written(p, f, ('a', n), seen)


def addr_written(p, f, v, seen):
    import sym
    todo, done = [v], set()
    uses = {}
    for i in f.insts():
        ops = list(enumerate(i.o)) + [(-1, x) for x, _ in i.phi or ()]
        for n, x in ops:
            if x[0] in ('a', 'i'):
                uses.setdefault((x[0], x[1]), []).append((i, n))
            elif x[0] == 'gep':
                y = x[1]
                while y[0] == 'gep':
                    y = y[1]
                uses.setdefault((y[0], y[1]), []).append((i, n))
    while todo:
        v = todo.pop()
        if v in done:
            continue
        done.add(v)
        for u, n in uses.get(v, ()):
            if u.op in ('store', 'atomicrmw', 'cmpxchg'):
                if n == 1:
                    return True
                if u.op == 'store' and n == 0:
                    # kept in a local: what is loaded from it is the same pointer
                    if u.o[1][0] == 'i' and f.defs[u.o[1][1]].op == 'alloca':
                        for w, m in uses.get(('i', u.o[1][1]), ()):
                            if w.op == 'load':
                                todo.append(('i', w.id))
                    else:
                        return True
            elif u.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                todo.append(('i', u.id))
            elif u.op in ('call', 'invoke'):
                if n < 0:
                    continue
                if call_writes(p, f, u, n, seen):
                    return True
    return False


def call_writes(p, f, u, n, seen=None):
    import sym
    if not u.callee:
        return True
    if u.callee.startswith('llvm.'):
        return u.callee.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) and n == 0
    t = p.resolve(u.callee, f.tu)
    if t is not None:
        return writes_param(p, t, n, seen)
    if u.callee in sym.EXT_PURE:
        return False
    ew = sym.EXT_WRITES.get(u.callee)
    return ew is None or n in ew


def shared(p, e):
    """accesses to writable globals that are not thread-local, with the mutexes certainly held"""
    import typestate
    funcs = {k: f for k, f in p.funcs.items() if f.tu.startswith(PROGRAM) or p.cfg == 'selftest'}
    cg = p.callgraph()
    at = set()
    quiet = set()       # addresses handed to atexit: run when the process ends
    for f in funcs.values():
        for i in f.insts():
            ops = [v for v in i.o] + [v for v, _ in i.phi or ()]
            for v in ops:
                for nm in fnames(v, []):
                    t = p.resolve(nm, f.tu)
                    if t is not None:
                        (quiet if i.op == 'call' and i.callee == 'atexit' else at).add(t.key)
    for g in p.globals.values():
        if 'init' in g:
            for nm in fnames(g['init'], []):
                t = p.resolve(nm, g['tu'])
                if t is not None:
                    at.add(t.key)
    succ = {}
    for k, f in funcs.items():
        s = set(x for x in cg[k] if x in funcs)
        for i in f.calls():
            if not i.callee:
                s.update(t.key for t in p.indirect(i, len(i.o)) if t.key in funcs)
        succ[k] = s

    def reach(roots):
        seen, st = set(), list(roots)
        while st:
            x = st.pop()
            if x not in seen and x in succ:
                seen.add(x)
                st += succ[x]
        return seen
    starts = {k for k, f in funcs.items() if any(i.callee in STARTERS for i in f.calls())}
    pred = {}
    for k in funcs:
        for x in cg[k]:
            pred.setdefault(x, set()).add(k)
    can, st = set(), list(starts)
    while st:
        x = st.pop()
        if x not in can:
            can.add(x)
            st += pred.get(x, ())
    mains = [k for k, f in funcs.items() if f.name == 'main']
    roots = set()
    for m in mains:
        f = funcs[m]
        for i in f.calls():
            t = p.resolve(i.callee, f.tu) if i.callee else None
            if t is not None and t.key in can:
                roots.add(t.key)
    # code that runs concurrently: what main calls that may start threads, and everything reached through pointers
    roots |= {k for k in at if k in funcs and k not in mains}
    rt = reach(roots)
    wrap = {}
    for k, s in e.sums.items():
        if s.cases:
            wrap[k] = frozenset.intersection(*[frozenset(c.eff) for c in s.cases])
    LK, UL = typestate.LOCK | {'pBat_LockMutex'}, typestate.UNLOCK | {'pBat_ReleaseMutex'}

    def flow(f):
        IN = [None] * len(f.blocks)
        IN[0] = frozenset()
        work, at_ = [0], {}
        while work:
            b = work.pop()
            cur = IN[b]
            for i in f.blocks[b].insts:
                at_[i.id] = cur
                if i.op in ('call', 'invoke') and i.callee:
                    if i.callee in LK:
                        cur = cur | frozenset(gnames(i.o, [])[:1])
                    elif i.callee in UL:
                        cur = cur - frozenset(gnames(i.o, [])[:1])
                    else:
                        t = p.resolve(i.callee, f.tu)
                        for x in (wrap.get(t.key) or ()) if t is not None else ():
                            cur = cur | {x[2]} if x[1] == 'lock' else cur - {x[2]}
            for s in f.blocks[b].succ:
                new = cur if IN[s] is None else IN[s] & cur
                if IN[s] is None or new != IN[s]:
                    IN[s] = new
                    work.append(s)
        return at_
    points = {k: flow(f) for k, f in funcs.items()}
    entry = {k: None for k in rt}
    for k in roots:
        entry[k] = frozenset()
    ch = True
    while ch:
        ch = False
        for k in rt:
            if entry[k] is None:
                continue
            f = funcs[k]
            for i in f.calls():
                if i.callee:
                    t = p.resolve(i.callee, f.tu)
                    ts = [t] if t is not None else []
                else:
                    ts = p.indirect(i, len(i.o))
                for t in ts:
                    if t.key not in entry:
                        continue
                    h = entry[k] | (points[k].get(i.id) or frozenset())
                    new = h if entry[t.key] is None else entry[t.key] & h
                    if entry[t.key] is None or new != entry[t.key]:
                        entry[t.key] = new
                        ch = True
    acc, hidden, tls = {}, [], set()
    for k in funcs:
        f = funcs[k]
        for i in f.insts():
            if i.op == 'call' and i.callee and i.callee.startswith('llvm.dbg'):
                continue
            if i.op == 'call' and i.callee in HIDDEN and k in rt and p.resolve(i.callee, f.tu) is None and p.cfg != 'windows':
                hidden.append((f.name, i.loc(), i.callee))
            ops = [(g, n) for n, v in enumerate(i.o) for g in gnames(v, [])] + [(g, -1) for v, _ in i.phi or () for g in gnames(v, [])]
            for g, n in ops:
                gk = p.gkey(g, f.tu)
                G = p.globals.get(gk)
                if G is not None and G['tls']:
                    tls.add(gk)
                if G is None or G['const'] or G['tls'] or g.startswith('.str') or G.get('decl'):
                    continue
                if i.op == 'call' and (i.callee in LK or i.callee in UL or i.callee in ('pBat_CreateMutex', 'InitializeCriticalSection', 'pthread_mutex_init')):
                    continue
                if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                    w = n == 1 or (n == 0 and G.get('size', 0) > 8 and not ptr_table(G) and not const_field(p, f, i))
                elif i.op in ('call', 'invoke'):
                    w = call_writes(p, f, i, n)
                elif i.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                    w = addr_written(p, f, ('i', i.id), set())
                else:
                    w = False
                run = k in rt and entry.get(k) is not None
                h = (entry[k] | (points[k].get(i.id) or frozenset())) if run else None
                acc.setdefault(gk, []).append((f.name, f.tu, i.loc(), w, run, sorted(h) if h is not None else None))
    return acc, hidden, len(tls), len(rt), {gk: p.globals[gk].get('dity', '') for gk in acc}


def ptr_table(G):
    return 'char*' in G.get('dity', '')


def const_field(p, f, i):
    # the address is kept in a field declared to point to constant data
    v = i.o[1]
    d = f.defs.get(v[1]) if v[0] == 'i' else None
    path = d.path if d is not None and d.op == 'getelementptr' else v[2] if v[0] == 'gep' else None
    for stp in reversed(path or []):
        if stp[0] == 'f':
            for n, off, sz, ty in p.structs.get(stp[1].split('.', 1)[-1], {}).get('fields', []):
                if n == stp[2]:
                    return ty.startswith('const ')
    return d is not None and (d.nty or '').startswith('const ')


def fnames(v, out):
    if isinstance(v, (list, tuple)) and v:
        if v[0] == 'fn':
            out.append(v[1])
        else:
            for x in v:
                if isinstance(x, (list, tuple)):
                    fnames(x, out)
    return out


def judge(cfg, sh):
    """[(variable, accesses without the lock, lock or None)] for the variables two threads can meet at"""
    acc, hidden, ntls, nrt, ty = sh
    bad, good, waived = [], {}, []
    for gk, l in sorted(acc.items()):
        r = [x for x in l if x[4]]
        if not any(x[3] for x in r):
            continue
        # a message is replaced by storing one pointer; readers may see the old or the new text
        published = ty[gk].startswith('const char*')
        look = [x for x in r if x[3]] if published else r
        h = set.intersection(*[set(x[5]) for x in look])
        if h:
            good[gk[1]] = sorted(h)
        elif (cfg, gk[1]) in ONCE:
            waived.append('%s: %s' % (gk[1], ONCE[(cfg, gk[1])]))
        elif gk[0] in ONCE_TU:
            waived.append('%s: %s' % (gk[1], ONCE_TU[gk[0]]))
        else:
            cnt = {}
            for x in look:
                for m in x[5]:
                    cnt[m] = cnt.get(m, 0) + 1
            lock = max(cnt, key=cnt.get) if cnt else None
            out = [x for x in look if lock is None or lock not in x[5]]
            bad.append((gk, out, lock))
    return bad, good, waived


def work(a):
    cfg, path = a
    import ir, typestate
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    e = typestate.Locks(p)
    e.run()
    sh = shared(p, e)
    return cfg, list(e.reports.items()), e.edges, len(e.sites), dict(e.incomplete), judge(cfg, sh), sh[1], sh[2], sh[3], len(p.funcs), len(p.units), e.stats['visits']


def cycles(edges):
    g = {}
    for a, b in edges:
        if a != b:
            g.setdefault(a, set()).add(b)
    out = []
    for a in sorted(g):
        st, seen = [(a, (a,))], set()
        while st:
            x, path = st.pop()
            for y in sorted(g.get(x, ())):
                if y == a:
                    if min(path) == a:
                        out.append(path + (a,))
                elif y not in seen:
                    seen.add(y)
                    st.append((y, path + (y,)))
    return out


def run(pid, ctx):
    import build, os
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'locks.c'))
    jobs = [('selftest', st)] + [(c, build.facts_dir(c)) for c in ctx.cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    t = res[0]
    if pid == 'L01':
        hit = {r['func'] for k, r in t[1]} | {n for c in cycles(t[2]) for n in [t[2][(c[0], c[1])][1]]}
        for n in ('bad_lock_early_return', 'bad_lock_double', 'bad_lock_across', 'bad_order_ab'):
            if n not in hit:
                ctx.broken('self-test: %s not reported' % n)
        for n in hit:
            if n.startswith('ok_'):
                ctx.broken('self-test: %s reported' % n)
    else:
        hit = {g[1] for g, _, _ in t[5][0]}
        if hit != {'st_bad_plain', 'bad_static.st_n', 'st_bad_forgot'} or not t[6]:
            ctx.broken('self-test: %s' % sorted(hit))
    cov = {}
    for cfg, reps, edges, sites, inc, (bad, good, waived), hidden, ntls, nrt, nf, nu, vis in res[1:]:
        if pid == 'L01':
            ctx.need(sites, {'linux': 8, 'windows': 30}[cfg], '%s: lock operations' % cfg)
            for k, r in reps:
                ctx.violation('%s %s %s' % (r['kind'], r['func'], k[2]), r['loc'], '%s: %s' % (r['func'], r['detail']),
                              'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
            for c in cycles(edges):
                n = list(c)
                w = '; '.join('%s then %s at %s' % (c[i], c[i + 1], edges[(c[i], c[i + 1])][0]) for i in range(len(c) - 1))
                ctx.violation('order %s' % '-'.join(n), edges[(c[0], c[1])][0], 'mutexes are taken in conflicting orders: ' + w, 'configuration %s' % cfg)
            cov[cfg] = dict(units=nu, functions=nf, lock_operations=sites, nesting=['%s > %s' % (a, b) for a, b in sorted(edges)], path_states=vis, cut_short=inc)
        else:
            ctx.need(len(good), 20, '%s: shared variables under a lock' % cfg)
            for gk, out, lock in bad:
                for x in out[:1]:
                    ctx.violation('shared %s' % gk[1], x[2], '%s %s %s, which every interpreter thread shares, %s' % (
                        x[0], 'writes' if x[3] else 'reads', gk[1],
                        'without holding %s as the other accesses do' % lock if lock else 'and no mutex covers its accesses'), 'configuration %s' % cfg)
            for fn, loc, c in hidden:
                ctx.violation('hidden %s %s' % (fn, c), loc, '%s calls %s, whose result lives in memory all interpreter threads share' % (fn, c), 'configuration %s' % cfg)
            cov[cfg] = dict(units=nu, functions=nf, concurrent_functions=nrt, thread_local=ntls, protected=good, waived=waived)
    ctx.cov(**cov)
