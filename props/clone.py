"""L03: a new interpreter thread gets its own copy of its parent's state."""
import flow, ir

STARTERS = {'pthread_create', 'CreateThread', '_beginthreadex', '_beginthread'}
PROGRAM = ('microgettext/', 'libpbat/', 'libfasteval/', 'pbat/', 'libcu8/')
# per-thread variables that are not carried over, with the reason
FRESH = {
    'bIgnoreExit': 'false in every new thread: EXIT of a cloned interpreter ends that interpreter',
    'lpesEnv': 'SETLOCAL levels belong to the interpreter that opened them',
    'lpAltPromptString': 'set to nothing by the new thread',
    'ecEstrCache': 'built empty by the new thread',
    '_fOutput': 'set to the new thread\'s own stream', '_fError': 'set to the new thread\'s own stream',
    'ok': 'result of one expression evaluation', 'result': 'result of one expression evaluation', 'input_string': 'input of one expression evaluation',
    'latest': 'last colour the thread sent to the console',
    'pBat_MoreWriteLine.blank': 'position inside one MORE output', 'pBat_MoreWriteLine.cr': 'position inside one MORE output',
    'more_fputc_u8_wrapper.chrs': 'bytes of the character being assembled', 'more_fputc_u8_wrapper.i': 'bytes of the character being assembled',
}
BUILT = {'lpAltPromptString', 'ecEstrCache', '_fOutput', '_fError'}      # must be set by the new thread itself
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'fdopen', 'fopen', 'dup', '_dup', '_fdopen', 'libcu8_strdup', '_strdup'}
# a resource no copy may be made of with a plain assignment is a pointer; these are not owned by anyone
CODE_FIELD = ('lpCommandProc',)


def entries(p):
    """functions handed to a thread starter, directly or through a wrapper that passes its argument on"""
    st = set(STARTERS)
    out = set()
    changed = True
    while changed:
        changed = False
        for f in p.all(*PROGRAM):
            for i in f.calls():
                if i.callee not in st:
                    continue
                for v in i.o:
                    if v[0] == 'fn':
                        t = p.resolve(v[1], f.tu)
                        if t is not None:
                            out.add(t.key)
                    elif v[0] == 'a' and not f.internal and f.args[v[1]][1] == 'ptr' and f.name not in st:
                        st.add(f.name)
                        changed = True
        # a wrapper may pass the function inside a block it allocates
        for f in p.all(*PROGRAM):
            if f.name not in st and any(i.callee in STARTERS for i in f.calls()):
                st.add(f.name)
                changed = True
    return out


def reach_without(f, start, avoid):
    return f.reach(start, avoid)


def run(pid, ctx):
    cov = {}
    for cfg in ctx.cfgs:
        cov[cfg] = one(ctx, ctx.prog(cfg), cfg)
    ctx.cov(**cov)


def one(ctx, p, cfg):
    tlsv = {k[1]: g for k, g in p.globals.items() if g['tls'] and not g.get('decl') and g['tu'].startswith(PROGRAM)}
    ctx.need(len(tlsv), 25, '%s: per-thread variables' % cfg)
    # the entry that fills per-thread variables from a block it is given
    ents = []
    for k in entries(p):
        f = p.funcs[k]
        n = sum(1 for i in f.insts() if i.op == 'store' and flow.place(f, i.o[1])[0][0] == 'tls')
        if n >= 5:
            ents.append(f)
    ctx.need(len(ents), 1, '%s: entry of a cloned interpreter' % cfg)
    E = ents[0]
    struct = None
    for i in E.insts():
        if i.op == 'getelementptr' and i.path and i.path[0][0] == 'f':
            r, o, t, u = flow.place(E, ['i', i.id])
            if r[0] == 'a':
                struct = t[-1][0]
                break
    ctx.need(1 if struct else 0, 1, '%s: the block handed to the new thread' % cfg)
    size = p.structs[struct.split('.', 1)[1]]['size']
    # ---- what the entry puts into the per-thread variables
    dest = {}       # (var, off, size) -> set of ('field', off) / other atoms ; with inst
    for i in E.insts():
        if i.op == 'store':
            r, o, _, _ = flow.place(E, i.o[1])
            if r[0] == 'tls':
                dest.setdefault((r[1], o), []).append((i, fields_of(E, i.o[0], struct), None))
        elif i.op == 'call' and flow.copyargs(i):
            a, b = flow.copyargs(i)
            r, o, _, _ = flow.place(E, i.o[a])
            if r[0] == 'tls':
                fo = flow.fieldplace(E, i.o[b], struct)
                n = i.o[2][1] if len(i.o) > 2 and i.o[2][0] == 'c' else None
                dest.setdefault((r[1], o), []).append((i, {fo} if fo is not None else set(), n))
        elif i.op == 'call' and not (i.callee or '').startswith('llvm.'):
            for v in i.o:
                r, o, _, _ = flow.place(E, v) if v[0] in ('i', 'gep') else (('?',), 0, 0, 0)
                if r[0] == 'tls' and flow.place(E, v)[1] == o:
                    d = E.defs.get(v[1]) if v[0] == 'i' else None
                    if d is None or d.op != 'load':
                        dest.setdefault((r[1], o), []).append((i, set(), None))
    run_ = [i for i in E.insts() if i.op == 'call' and not i.callee and i.calleev]
    ctx.need(len(run_), 1, '%s: the call of the thread\'s own function' % cfg)
    dom = E.dominators()
    # ---- what the parent puts into the block
    src = {}        # field offset -> list of (func, inst, tls atoms, kind)
    for f in p.all(*PROGRAM):
        if f is E:
            continue
        for i in f.insts():
            if i.op == 'store':
                fo = flow.fieldplace(f, i.o[1], struct)
                if fo is not None:
                    src.setdefault(fo, []).append((f, i, flow.slice_tls(p, f, i.o[0]), kind(p, f, i.o[0])))
            elif i.op in ('call', 'invoke') and i.callee:
                ca = flow.copyargs(i)
                for n, v in enumerate(i.o):
                    fo = flow.fieldplace(f, v, struct) if v[0] in ('i', 'gep') else None
                    if fo is None:
                        continue
                    if ca:
                        if n == ca[0]:
                            src.setdefault(fo, []).append((f, i, flow.slice_tls(p, f, i.o[ca[1]]), ('bytes', i)))
                    elif not i.callee.startswith('llvm.'):
                        t = p.resolve(i.callee, f.tu)
                        at = flow.reads_tls(p, t) if t is not None else set()
                        at = {(n_, 0) for n_, _ in at} | at
                        src.setdefault(fo, []).append((f, i, at, ('into', i)))
    fillers = {f.key for l in src.values() for f, _, _, _ in l}
    pairs, copiers = [], set()
    for v in sorted(tlsv):
        mine = {k: l for k, l in dest.items() if k[0] == v}
        if v in FRESH:
            if v in BUILT and not mine:
                ctx.violation('fresh %s' % v, '%s:%d' % (E.tu, E.line), '%s no longer sets the per-thread variable %s of a new interpreter' % (E.name, v), cfg)
            for k, l in mine.items():
                for i, fo, n in l:
                    if fo and v in ('lpesEnv', 'bIgnoreExit', 'lpAltPromptString'):
                        ctx.violation('shared %s' % v, i.loc(), 'a new interpreter takes over %s, which belongs to its parent (%s)' % (v, FRESH[v]), cfg)
                    elif v in ('_fOutput', '_fError'):
                        want = v[1:]
                        if (want, 0) not in flow.slice_tls(p, E, i.o[0]):
                            ctx.violation('fresh %s' % v, i.loc(), '%s of a new interpreter is not its own %s' % (v, want), cfg)
            continue
        if not mine:
            ctx.violation('lost %s' % v, '%s:%d' % (E.tu, E.line), 'a new interpreter does not receive %s from its parent' % v, 'configuration %s; %s restores %d variables' % (cfg, E.name, len({k[0] for k in dest})))
            continue
        for (name, off), l in sorted(mine.items()):
            done = {i.blk for i, _, _ in l if not any(i.blk == r.blk and E.blocks[i.blk].insts.index(i) > E.blocks[i.blk].insts.index(r) for r in run_)}
            if 0 not in done and any(r.blk in E.reach(0, done) for r in run_ if r.blk not in done):
                ctx.violation('late %s' % name, l[0][0].loc(), '%s is set only on some paths before the new interpreter runs' % name, cfg)
            for i, fo, n in l:
                if not fo:
                    continue
                for o in fo:
                    pairs.append((name, off, o))
                    s = src.get(o)
                    if not s:
                        ctx.violation('unset %s' % name, i.loc(), '%s of a new interpreter is taken from a place its parent never fills' % name, cfg)
                        continue
                    for f, j, atoms, k in s:
                        null = k[0] == 'val' and k[1] <= {('null',), ('c',)}
                        if null and v == 'lppsStreamStack':
                            continue
                        if (name, off) not in atoms:
                            ctx.violation('wrong %s' % name, j.loc(), '%s of a new interpreter is filled from %s' % (name, ', '.join(sorted(a for a, _ in atoms)) or 'a constant'), cfg)
                            continue
                        g = tlsv[name]
                        ptr = pointerish(p, g['dity'])
                        if ptr and k[0] == 'val' and any(a[0] == 'load' for a in k[1]):
                            ctx.violation('alias %s' % name, j.loc(), 'the parent hands its own %s to the new interpreter instead of a copy' % name, cfg)
                        if ptr and k[0] == 'bytes':
                            ctx.violation('alias %s' % name, j.loc(), '%s is copied byte by byte into the new interpreter: what it points to is shared' % name, cfg)
                        if ptr and k[0] in ('val', 'into'):
                            for c in calls_in(f, j, k):
                                t = p.resolve(c, f.tu)
                                if t is not None:
                                    copiers.add(t.key)
                        # on every path of the filling function
                        if ret_without(f, j.blk):
                            ctx.violation('skip %s' % name, j.loc(), '%s is handed over on some paths of %s only' % (name, f.name), cfg)
    # variables with several parts: every part that is filled is restored
    restored = {o for _, _, o in pairs}
    other = {flow.fieldplace(E, i.o[0], struct) for i in E.insts() if i.op == 'load'}
    for o, l in sorted(src.items()):
        if o not in restored and o not in other:
            f, i, atoms, _ = l[0]
            ctx.violation('dropped %d' % o, i.loc(), 'the parent fills offset %d of the block for a new interpreter (from %s), which the new interpreter never looks at' % (
                o, ', '.join(sorted(a for a, _ in atoms)) or 'a constant'), cfg)
    ctx.need(len(pairs), 18, '%s: variables carried over' % cfg)
    # ---- copies are deep
    todo, seen, nst = list(copiers), set(), 0
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = p.funcs[k]
        more, n = deep(ctx, p, f, cfg)
        nst += n
        todo += more
    ctx.need(len(seen), 4, '%s: copying functions' % cfg)
    # ---- and the thread cleans up
    ends = {'pBat_Exit', 'pBat_ExitInt'}
    after = [i for i in E.calls() if i.callee in ends and any(r.blk in dom[i.blk] for r in run_)]
    if not after:
        ctx.violation('no cleanup', '%s:%d' % (E.tu, E.line), '%s does not release the state of the interpreter it ran' % E.name, cfg)
    return dict(entry=E.name, block=struct, per_thread_variables=len(tlsv), carried_over=sorted({a for a, _, _ in pairs}), fresh={k: FRESH[k] for k in sorted(tlsv) if k in FRESH},
                copying_functions=sorted(p.funcs[k].name for k in seen), pointer_stores=nst, filled_by=sorted(p.funcs[k].name for k in fillers))


def fields_of(f, v, struct):
    out = set()
    for a in flow.origin(f, v):
        if a[0] == 'load':
            fo = flow.fieldplace(f, f.defs[a[-1]].o[0], struct)
            if fo is not None:
                out.add(fo)
    return out


def kind(p, f, v):
    return ('val', frozenset(a[:3] if a[0] != 'load' else a for a in flow.origin(f, v)))


def calls_in(f, j, k):
    if k[0] == 'into':
        return [j.callee]
    return [a[1] for a in k[1] if a[0] == 'call' and a[1]]


def pointerish(p, dity):
    t = dity.strip()
    if t.endswith('*') or t.startswith('LP'):
        return True
    n = t.split(' ')[-1]
    if '[' in t:
        return t.split('[')[0].endswith('*')
    s = p.structs.get(n)
    if s is None or n == 'INPUT_FILE':
        return False
    return any(pointerish(p, x[3]) for x in s['fields'])


def ret_without(f, blk):
    """can the function return without passing this block (a report that ends the program does not return)"""
    if blk == 0:
        return False
    for b in f.reach(0, {blk}):
        if f.blocks[b].insts[-1].op == 'ret':
            return True
    return False


def fresh_fns(p):
    if not hasattr(p, '_fresh'):
        p._fresh = {}
    return p._fresh


def is_fresh(p, name, tu, seen=frozenset()):
    """does this function return memory of its own (or nothing)"""
    if name in ALLOC:
        return True
    t = p.resolve(name, tu) if name else None
    if t is None:
        return False
    if t.key in seen:
        return True
    c = fresh_fns(p)
    if t.key not in c:
        ok = True
        for i in t.insts():
            if i.op == 'ret' and i.o:
                for a in flow.origin(t, i.o[0]):
                    if a[0] in ('null', 'c'):
                        continue
                    if a[0] == 'call' and is_fresh(p, a[1], t.tu, seen | {t.key}):
                        continue
                    ok = False
        c[t.key] = ok
    return c[t.key]


def deep(ctx, p, f, cfg):
    """a copying function: nothing reachable from the original is stored into the copy"""
    n = 0
    more = []
    if f.ret == 'ptr' and not is_fresh(p, f.name, f.tu):
        ctx.violation('not fresh %s' % f.name, '%s:%d' % (f.tu, f.line), '%s, which makes the copy for a new interpreter, may return memory it did not allocate' % f.name, cfg)
    stores = {}
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.callee:
            t = p.resolve(i.callee, f.tu)
            if t is not None and t.ret == 'ptr' and i.ty == 'ptr' and is_fresh(p, i.callee, f.tu) and t.tu.startswith(PROGRAM):
                more.append(t.key)
            ca = flow.copyargs(i)
            if ca and elem_pointer(p, f, i.o[ca[0]]):
                n += 1
                ctx.violation('shallow %s' % f.name, i.loc(), '%s copies pointers of the parent into the new interpreter\'s copy' % f.name, cfg)
            continue
        if i.op != 'store':
            continue
        r, o, types, u = flow.place(f, i.o[1])
        if r[0] == 'i' and f.defs.get(r[1]) is not None and f.defs[r[1]].op == 'alloca':
            continue
        at = flow.origin(f, i.o[0])
        if not ptr_value(f, i.o[0]):
            if r[0] in ('i', 'a') and types and f.ret == 'ptr':
                # a field is filled from the same field
                ld = {a[3][0] for a in at if a[0] == 'load' and a[3]}
                if ld and types[0] not in ld and {x[0] for x in ld} == {types[0][0]}:
                    ctx.violation('mixed %s' % f.name, i.loc(), '%s fills %s of the copy from %s of the original' % (f.name, types[0][1], ', '.join(sorted(x[1] for x in ld))), cfg)
            continue
        n += 1
        stores.setdefault(types[0] if types else None, []).append((i, at))
    for fld, l in stores.items():
        anyfresh = any(a[0] == 'call' for _, at in l for a in at)
        for i, at in l:
            for a in at:
                if a[0] in ('null', 'c'):
                    continue
                if a[0] == 'call':
                    if not is_fresh(p, a[1], f.tu):
                        ctx.violation('borrowed %s' % f.name, i.loc(), '%s stores what %s returned, which is not memory of the copy' % (f.name, a[1]), cfg)
                elif a[0] == 'load':
                    r = a[1]
                    root = flow.origin(f, ['i', r[1]]) if r[0] == 'i' else {r}
                    if fld and fld[1] in CODE_FIELD and anyfresh and code_side(f, i):
                        continue
                    if r[0] == 'i' and f.defs.get(r[1]) is not None and f.defs[r[1]].op == 'alloca':
                        continue
                    ctx.violation('alias %s' % f.name, i.loc(), '%s stores a pointer of the original into the copy' % f.name, cfg)
                elif a[0] == 'a' and fld is not None:
                    ctx.violation('alias %s' % f.name, i.loc(), '%s stores its argument into the copy' % f.name, cfg)
    return more, n


def code_side(f, i):
    """the store happens only where the flags say the entry is a built-in handler"""
    dom = f.dominators()
    for b in f.blocks:
        t = b.insts[-1]
        if t.op != 'br' or not t.o or t.o[0][0] != 'i' or b.id not in dom.get(i.blk, ()):
            continue
        c = f.defs.get(t.o[0][1])
        if c is None or c.op != 'icmp' or c.pred not in ('eq', 'ne'):
            continue
        a = f.defs.get(c.o[0][1]) if c.o[0][0] == 'i' else None
        if a is None or a.op != 'and' or not any(x[0] == 'load' and x[3] and 'lag' in x[3][0][1] for x in flow.origin(f, ['i', a.id])):
            continue
        for s in t.s:
            if i.blk not in f.reach(s):
                return True
    return False


def ptr_value(f, v):
    if v[0] == 'null':
        return True
    if v[0] == 'a':
        return f.args[v[1]][1] == 'ptr'
    if v[0] == 'i':
        d = f.defs.get(v[1])
        return d is not None and d.ty == 'ptr'
    return v[0] in ('g', 'gep', 's', 'fn')


def elem_pointer(p, f, v):
    """does this address point at an array of pointers or at a structure that contains pointers"""
    if v[0] == 'i':
        d = f.defs.get(v[1])
        if d is None:
            return False
        if d.op == 'load':
            for fn, off, sz, ty in fieldinfo(p, f, d.o[0]):
                return ty.count('*') > 1
            return False
    return False


def fieldinfo(p, f, v):
    r, o, types, u = flow.place(f, v)
    if types:
        s, n = types[0]
        for x in p.structs.get(s.split('.', 1)[-1], {}).get('fields', []):
            if x[0] == n:
                return [x]
    return []
