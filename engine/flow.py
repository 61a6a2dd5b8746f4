"""Where values come from: backward tracing over the SSA form of one function."""


def gtls(f, i):
    """the global whose per-thread address this instruction yields"""
    if i is not None and i.op == 'call' and (i.callee or '').startswith('llvm.threadlocal.address') and i.o[0][0] == 'g':
        return i.o[0][1]
    return None


def place(f, v):
    """(root, offset, path types, unknown?) of an address: root is ('g',name) | ('tls',name) | ('a',n) | ('i',id) | ..."""
    off, types, unk = 0, [], False
    while True:
        if v[0] == 'gep':
            path, nv = v[2], v[1]
        elif v[0] == 'i':
            d = f.defs.get(v[1])
            t = gtls(f, d)
            if t is not None:
                return ('tls', t), off, types, unk
            if d is None or d.op not in ('getelementptr', 'bitcast', 'addrspacecast'):
                return ('i', v[1]), off, types, unk
            path, nv = d.path or [], d.o[0]
        else:
            return tuple(v[:2]) if len(v) > 1 else tuple(v), off, types, unk
        for s in reversed(path):
            if s[0] == 'f':
                off += s[3]
                types.append((s[1], s[2]))
            elif s[0] == 'x':
                if s[1][0] == 'c':
                    off += s[1][1] * (s[2] if len(s) > 2 else 1) if not (len(s) > 3 and s[2] == 1 and s[1][1] == 0) else 0
                else:
                    unk = True
        v = nv


def fieldplace(f, v, struct):
    """offset inside `struct` an address names, or None"""
    off = 0
    while True:
        if v[0] == 'gep':
            path, nv = v[2], v[1]
        elif v[0] == 'i':
            d = f.defs.get(v[1])
            if d is None or d.op != 'getelementptr':
                return None
            path, nv = d.path or [], d.o[0]
        else:
            return None
        for s in reversed(path):
            if s[0] == 'f':
                off += s[3]
                if s[1] == struct:
                    return off
            elif s[0] == 'x' and s[1][0] != 'c':
                pass
        v = nv


COPY = {'strncpy': (0, 1), 'strcpy': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1), 'strlcpy': (0, 1)}


def copyargs(i):
    c = i.callee or ''
    if c.startswith(('llvm.memcpy', 'llvm.memmove')):
        return 0, 1
    return COPY.get(c)


def origin(f, v, seen=None, depth=40):
    """atoms a value is made of: ('load', root, off, types) ('call', name, inst) ('addr', root, off) ('c',) ('null',) ('a', n) ('arith',)"""
    seen = seen if seen is not None else set()
    if depth == 0:
        return {('?',)}
    if v[0] == 'a':
        return {('a', v[1])}
    if v[0] in ('c', 'cf'):
        return {('c',)}
    if v[0] == 'null':
        return {('null',)}
    if v[0] != 'i':
        if v[0] == 'gep':
            r, o, t, u = place(f, v)
            return {('addr', r, o)}
        return {tuple(v[:2])} if len(v) > 1 and isinstance(v[1], (str, int)) else {('?',)}
    if v[1] in seen:
        return set()
    seen.add(v[1])
    d = f.defs.get(v[1])
    if d is None:
        return {('?',)}
    if d.op == 'load':
        r, o, t, u = place(f, d.o[0])
        return {('load', r, o, tuple(t), d.id)}
    if d.op in ('call', 'invoke'):
        t = gtls(f, d)
        if t is not None:
            return {('addr', ('tls', t), 0)}
        return {('call', d.callee, d.id)}
    if d.op == 'phi':
        out = set()
        for x, _ in d.phi:
            out |= origin(f, x, seen, depth - 1)
        return out
    if d.op == 'select':
        return origin(f, d.o[1], seen, depth - 1) | origin(f, d.o[2], seen, depth - 1)
    if d.op in ('sext', 'zext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
        return origin(f, d.o[0], seen, depth - 1)
    if d.op == 'getelementptr':
        r, o, t, u = place(f, v)
        if r[0] == 'i':
            x = origin(f, list(r), seen, depth - 1)
            return {('at',) + a for a in x} | ({('addr', r, o)} if not x else set())
        return {('addr', r, o)}
    if d.op == 'alloca':
        return {('addr', ('i', d.id), 0)}
    out = {('arith',)}
    for x in d.o:
        out |= origin(f, x, seen, depth - 1)
    return out


def slice_tls(p, f, v, seen=None):
    """per-thread variables (name, offset) a value is computed from, through calls and their arguments"""
    seen = seen if seen is not None else set()
    out = set()
    st = [v]
    while st:
        v = st.pop()
        if v[0] == 'gep':
            r, o, _, _ = place(f, v)
            if r[0] == 'tls':
                out.add((r[1], o))
            st.append(v[1])
            continue
        if v[0] != 'i' or v[1] in seen:
            continue
        seen.add(v[1])
        d = f.defs.get(v[1])
        if d is None:
            continue
        if d.op in ('load', 'getelementptr'):
            r, o, _, _ = place(f, d.o[0] if d.op == 'load' else v)
            if r[0] == 'tls':
                out.add((r[1], o))
                continue
            if r[0] == 'i' and d.op == 'load' and f.defs.get(r[1]) is not None and f.defs[r[1]].op == 'alloca':
                for u in f.uses().get(r[1], ()):
                    if u.op == 'store' and place(f, u.o[1])[0] == r:
                        st.append(u.o[0])
        if d.op == 'phi':
            st += [x for x, _ in d.phi]
        elif d.op in ('call', 'invoke') and gtls(f, d) is not None:
            out.add((gtls(f, d), 0))
        else:
            st += list(d.o)
    return out


def reads_tls(p, f, seen=None):
    """per-thread variables a function (callees included) reads"""
    seen = seen if seen is not None else set()
    if f.key in seen:
        return set()
    seen.add(f.key)
    out = set()
    for i in f.insts():
        if i.op == 'load':
            r, o, _, _ = place(f, i.o[0])
            if r[0] == 'tls':
                out.add((r[1], o))
        elif i.op in ('call', 'invoke') and i.callee:
            for v in i.o:
                r, o, _, _ = place(f, v) if v[0] in ('i', 'gep') else (('?',), 0, 0, 0)
                if r[0] == 'tls':
                    out.add((r[1], o))
            t = p.resolve(i.callee, f.tu)
            if t is not None:
                out |= reads_tls(p, t, seen)
    return out
