"""Which code runs when: concurrently with other interpreters, in a forked child, on the way out."""
from resources import NORETURN

STARTERS = ('pthread_create', 'CreateThread', '_beginthreadex', '_beginthread')
PROGRAM = ('microgettext/', 'libpbat/', 'libfasteval/', 'pbat/', 'libcu8/')


def fnames(v, out):
    if isinstance(v, (list, tuple)) and v:
        if v[0] == 'fn':
            out.append(v[1])
        else:
            for x in v:
                if isinstance(x, (list, tuple)):
                    fnames(x, out)
    return out


def concurrent(p):
    """functions an interpreter may run while others run (keys)"""
    if getattr(p, '_conc', None) is not None:
        return p._conc
    funcs = {k: f for k, f in p.funcs.items() if f.tu.startswith(PROGRAM) or p.cfg == 'selftest'}
    cg = p.callgraph()
    at = set()
    for f in funcs.values():
        for i in f.insts():
            if i.op == 'call' and i.callee == 'atexit':
                continue
            for v in [v for v in i.o] + [v for v, _ in i.phi or ()]:
                for nm in fnames(v, []):
                    t = p.resolve(nm, f.tu)
                    if t is not None:
                        at.add(t.key)
    for g in p.globals.values():
        for nm in fnames(g.get('init'), []):
            t = p.resolve(nm, g['tu'])
            if t is not None:
                at.add(t.key)
    succ = {}
    for k, f in funcs.items():
        s = set(x for x in cg[k] if x in funcs)
        for i in f.calls():
            if not i.callee:
                s.update(t.key for t in p.indirect(i, len(i.o)) if t.key in funcs)
        succ[k] = s
    pred = {}
    for k in funcs:
        for x in cg[k]:
            pred.setdefault(x, set()).add(k)
    can, st = set(), [k for k, f in funcs.items() if any(i.callee in STARTERS for i in f.calls())]
    while st:
        x = st.pop()
        if x not in can:
            can.add(x)
            st += pred.get(x, ())
    mains = [k for k, f in funcs.items() if f.name == 'main']
    roots = {k for k in at if k in funcs and k not in mains}
    for m in mains:
        for i in funcs[m].calls():
            t = p.resolve(i.callee, funcs[m].tu) if i.callee else None
            if t is not None and t.key in can:
                roots.add(t.key)
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x not in seen and x in succ:
            seen.add(x)
            st += succ[x]
    p._conc = seen
    p._succ = succ
    return seen


def dying(p, f):
    """blocks from which the function can only end the program"""
    if not hasattr(f, '_dying'):
        ends = set()
        for b in f.blocks:
            if any(i.op in ('call', 'invoke') and (i.callee in NORETURN or i.noret or fatal(i)) for i in b.insts):
                ends.add(b.id)
        live = {b.id for b in f.blocks if b.insts[-1].op == 'ret' and b.id not in ends}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                if b.id not in live and b.id not in ends and any(s in live for s in b.succ):
                    live.add(b.id)
                    ch = True
        f._dying = {b.id for b in f.blocks} - live
    return f._dying


def fatal(i):
    """an error report with a non-zero exit status ends the interpreter"""
    return i.callee == 'pBat_ShowErrorMessage' and len(i.o) > 2 and i.o[2][0] == 'c' and i.o[2][1] != 0


def child_blocks(p, f):
    """blocks only reached when fork() returned 0"""
    if not hasattr(f, '_child'):
        out = set()
        forks = {i.id for i in f.calls() if i.callee in ('fork', 'vfork')}
        if forks:
            for b in f.blocks:
                t = b.insts[-1]
                zero = None
                if t.op == 'br' and t.o and t.o[0][0] == 'i':
                    c = f.defs.get(t.o[0][1])
                    if c is not None and c.op == 'icmp' and c.o[0][0] == 'i' and c.o[0][1] in forks and c.o[1][0] == 'c' and c.o[1][1] == 0:
                        zero = {'eq': t.s[0], 'ne': t.s[1]}.get(c.pred)
                elif t.op == 'switch' and t.o and t.o[0][0] == 'i' and t.o[0][1] in forks:
                    zero = next((s for v, s in t.sw if v == 0 or v == ['c', 0, 32]), None)
                if zero is not None:
                    # dominated by that edge
                    dom = f.dominators()
                    if len(f.blocks[zero].pred) == 1:
                        out |= {x for x in dom if zero in dom[x]}
        f._child = out
    return f._child


def child_only(p):
    """functions that only ever run in a forked child (keys)"""
    if getattr(p, '_childf', None) is None:
        callers = {}
        for f in p.funcs.values():
            for i in f.calls():
                t = p.resolve(i.callee, f.tu) if i.callee else None
                if t is not None:
                    callers.setdefault(t.key, []).append((f, i))
        at = p.address_taken()
        out = {k for k in callers if k not in at}
        ch = True
        while ch:
            ch = False
            for k in list(out):
                for f, i in callers[k]:
                    if f.key not in out and i.blk not in child_blocks(p, f):
                        out.discard(k)
                        ch = True
                        break
        p._childf = out
    return p._childf
