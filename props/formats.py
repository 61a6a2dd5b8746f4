"""R08: what is printed matches its format."""
import os, re
import ir

# format argument, first value (None: the values come in a va_list)
LIBC = {'printf': (0, 1), 'fprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'dprintf': (1, 2), 'syslog': (1, 2),
        'vprintf': (0, None), 'vfprintf': (1, None), 'vsprintf': (1, None), 'vsnprintf': (2, None), '_vsnprintf': (2, None), '_snprintf': (2, 3),
        '__mingw_vsnprintf': (2, None), '__mingw_vfprintf': (1, None), '__mingw_vsprintf': (1, None), '__mingw_vprintf': (0, None),
        '__mingw_printf': (0, 1), '__mingw_fprintf': (1, 2), '__mingw_sprintf': (1, 2), '__mingw_snprintf': (2, 3),
        '__isoc99_sscanf': (1, 2), 'sscanf': (1, 2), 'fscanf': (1, 2), '__isoc99_fscanf': (1, 2), 'scanf': (0, 1), '__isoc99_scanf': (0, 1), '__mingw_sscanf': (1, 2)}
TRANSLATE = {'gettext': 0, 'dgettext': 1, 'dcgettext': 1, 'microgettext': 0}
CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|q|j|z|t|L|I64|I32|I|w)?([a-zA-Z%])")


class Bad(Exception):
    pass


def conversions(s, windows, scan=False):
    """types of the values a format takes"""
    out, p = [], 0
    while True:
        p = s.find('%', p)
        if p < 0:
            return out
        if scan:
            m = re.compile(r'%(\*)?(\d+)?()(hh|h|ll|l|q|j|z|t|L|I64|I)?(\[\]?[^\]]*\]|[a-zA-Z%])').match(s, p)
            if not m:
                raise Bad('a conversion that does not exist ("%s")' % s[p:p + 6])
            if m.group(5) != '%' and not m.group(1):
                out.append(('ptr', m.group(0)))
            p = m.end()
            continue
        m = CONV.match(s, p)
        if not m:
            raise Bad('a conversion that does not exist ("%s")' % s[p:p + 6])
        fl, w, pr, ln, c = m.groups()
        p = m.end()
        if c == '%':
            continue
        if w == '*':
            out.append(('i32', m.group(0)))
        if pr == '*':
            out.append(('i32', m.group(0)))
        if c in 'diouxX':
            wide = ln in ('ll', 'q', 'j', 'z', 't', 'I64', 'I') or ln == 'l' and not windows
            out.append(('i64' if wide else 'i32', m.group(0)))
        elif c in 'fFeEgGaA':
            out.append(('x86_fp80' if ln == 'L' else 'double', m.group(0)))
        elif c in 'sSpn':
            if c == 'n':
                raise Bad('a conversion that stores instead of printing ("%s")' % m.group(0))
            out.append(('ptr', m.group(0)))
        elif c in 'cC':
            out.append(('i32', m.group(0)))
        elif c == 'm':
            pass
        else:
            raise Bad('a conversion that does not exist ("%s")' % m.group(0))


def catalogues(repo):
    """{msgid: [(language, translation)]}"""
    out, n = {}, 0
    base = os.path.join(repo, 'po')
    for lang in sorted(os.listdir(base)):
        d = os.path.join(base, lang)
        if not os.path.isdir(d):
            continue
        for fn in sorted(os.listdir(d)):
            if not fn.endswith('.po'):
                continue
            cur, fuzzy, nf = None, False, False
            ids, strs = [], []

            def flush():
                nonlocal ids, strs
                a, b = ''.join(ids), ''.join(strs)
                if a and b and not fuzzy:
                    out.setdefault(a, []).append((lang + '/' + fn, b))
                ids, strs = [], []
            for l in open(os.path.join(d, fn), encoding='utf-8', errors='replace'):
                l = l.strip()
                if l.startswith('#,'):
                    nf = nf or 'fuzzy' in l
                    continue
                m = re.match(r'(msgid|msgstr|msgid_plural|msgstr\[\d+\]|msgctxt)?\s*"(.*)"$', l)
                if not m:
                    continue
                if m.group(1):
                    if m.group(1) == 'msgid':
                        flush()
                        fuzzy, nf = nf, False
                    cur = m.group(1)
                t = re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'v': '\v', 'b': '\b', 'f': '\f'}.get(x.group(1), x.group(1)), m.group(2))
                if cur == 'msgid':
                    ids.append(t)
                elif cur == 'msgstr':
                    strs.append(t)
                n += 1
            flush()
    return out, n


class Formats:
    def __init__(self, prog, cats):
        self.p, self.cats = prog, cats
        self.win = prog.cfg == 'windows'
        self.stores = None
        self.found, self.sites, self.fmts, self.trs = [], 0, 0, 0
        self.waived, self.reports, self.codes = [], 0, set()

    # -- where a format comes from
    def collect(self):
        """stores into global variables: {key: [(index or None, value, function, inst)]}"""
        self.stores = {}
        for f in self.p.funcs.values():
            for i in f.insts():
                if i.op == 'store':
                    g, idx = self.place(f, i.o[1])
                    if g:
                        self.stores.setdefault(g, []).append((idx, i.o[0], f, i))

    def place(self, f, v):
        """(global, constant index or None) an address lies in"""
        idx, hops, known = 0, 0, True
        while hops < 8:
            hops += 1
            if v[0] == 'g':
                return self.p.gkey(v[1], f.tu), (idx if known else None)
            if v[0] == 'gep':
                path = v[2] if len(v) > 2 else []
                v2 = v[1]
            elif v[0] == 'i':
                d = f.defs.get(v[1])
                if d is None:
                    return None, None
                if d.op == 'getelementptr':
                    path, v2 = d.path or [], d.o[0]
                elif d.op == 'bitcast' or d.op == 'call' and (d.callee or '').startswith('llvm.threadlocal'):
                    v = d.o[0]
                    continue
                else:
                    return None, None
            else:
                return None, None
            for st in path:
                if st[0] == 'x':
                    if st[1][0] == 'c':
                        idx += st[1][1]
                    else:
                        known = False
                else:
                    known = False
            v = v2
        return None, None

    def sources(self, f, v, depth=0, seen=None):
        """[(text, translated?, where)] or a None text where it is not fixed"""
        seen = seen if seen is not None else set()
        k = (f.key, str(v))
        if k in seen or depth > 12:
            return []
        seen.add(k)
        if v[0] == 's':
            return [(v[1], False, f.tu)]
        if v[0] == 'null' or v[0] == 'undef':
            return []
        if v[0] == 'g':     # a constant character array
            g = self.p.glob(v[1], f.tu)
            if g and g.get('init') and g['init'][0] == 's' and g.get('const'):
                return [(g['init'][1], False, g['tu'])]
            return [(None, False, 'the contents of %s' % v[1])]
        if v[0] == 'a':
            out, n = [], 0
            for h in self.p.funcs.values():
                for i in h.calls():
                    if i.callee and self.p.resolve(i.callee, h.tu) is f and v[1] < len(i.o):
                        n += 1
                        out += self.sources(h, i.o[v[1]], depth + 1, seen)
            return out if n else [(None, False, 'an argument of %s' % f.name)]
        if v[0] == 'i':
            d = f.defs.get(v[1])
            if d is None:
                return [(None, False, '?')]
            if d.op == 'phi':
                return [x for y, _ in d.phi for x in self.sources(f, y, depth + 1, seen)]
            if d.op == 'select':
                return [x for y in d.o[1:] for x in self.sources(f, y, depth + 1, seen)]
            if d.op in ('bitcast', 'freeze'):
                return self.sources(f, d.o[0], depth + 1, seen)
            if d.op == 'call' and d.callee in TRANSLATE:
                return [(t, True, w) for t, _, w in self.sources(f, d.o[TRANSLATE[d.callee]], depth + 1, seen)]
            if d.op == 'call' and d.callee:
                g = self.p.resolve(d.callee, f.tu)
                if g is not None:
                    out = []
                    for i in g.insts():
                        if i.op == 'ret' and i.o:
                            out += self.sources(g, i.o[0], depth + 1, seen)
                    return out
                return [(None, False, 'the result of %s' % d.callee)]
            if d.op == 'load':
                g, idx = self.place(f, d.o[0])
                if g:
                    out = []
                    for j, val, h, i in self.stores.get(g, ()):
                        if idx is None or j is None or j == idx:
                            out += self.sources(h, val, depth + 1, seen)
                    gl = self.p.globals.get(g)
                    init = gl.get('init') if gl else None
                    if init:
                        if init[0] == 's':
                            out.append((init[1], False, gl['tu']))
                        elif init[0] == 'agg':
                            rows = init[1] if idx is None else init[1][idx:idx + 1]
                            for r in rows:
                                if r[0] == 's':
                                    out.append((r[1], False, gl['tu']))
                                elif r[0] in ('g', 'agg'):
                                    out.append((None, False, 'the contents of %s' % g[1]))
                    return out if out else [(None, False, 'the variable %s' % g[1])]
                # a local array of strings or a local variable
                b = d.o[0]
                while b[0] == 'i' and f.defs.get(b[1]) is not None and f.defs[b[1]].op in ('getelementptr', 'bitcast'):
                    b = f.defs[b[1]].o[0]
                if b[0] == 'i' and f.defs.get(b[1]) is not None and f.defs[b[1]].op == 'alloca':
                    out = []
                    for i in f.insts():
                        if i.op == 'store':
                            c = i.o[1]
                            while c[0] == 'i' and f.defs.get(c[1]) is not None and f.defs[c[1]].op in ('getelementptr', 'bitcast'):
                                c = f.defs[c[1]].o[0]
                            if c == b:
                                out += self.sources(f, i.o[0], depth + 1, seen)
                    if out:
                        return out
            if d.op == 'getelementptr':
                s = self.sources(f, d.o[0], depth + 1, seen)
                if all(t is not None for t, _, _ in s) and d.path and len(d.path) == 1 and d.path[0][0] == 'x' and d.path[0][1][0] == 'c':
                    return [(t[d.path[0][1][1]:], tr, w) for t, tr, w in s]
                return [(None, False, 'a place inside another text')]
            if d.op == 'alloca':
                return [(None, False, 'a buffer')]
            return [(None, False, 'a value computed at run time (%s)' % d.op)]
        return [(None, False, v[0])]

    def type_of(self, f, v):
        if v[0] == 'i':
            return f.defs[v[1]].ty
        if v[0] == 'a':
            return f.args[v[1]][1]
        if v[0] == 'c':
            return 'i%d' % v[2]
        if v[0] in ('s', 'g', 'fn', 'null', 'gep'):
            return 'ptr'
        if v[0] in ('f', 'fp', 'cf'):
            return 'double'
        return None

    def wrappers(self):
        """printing functions of the program: {key: (format argument, first value)}"""
        w = {}
        ch = True
        while ch:
            ch = False
            for f in self.p.funcs.values():
                if f.key in w or not f.vararg:
                    continue
                for i in f.calls():
                    s = self.shape(i, f, w)
                    if s and s[1] is None and s[0] < len(i.o) and i.o[s[0]][0] == 'a':
                        w[f.key] = (i.o[s[0]][1], len(f.args))
                        ch = True
            for f in self.p.funcs.values():     # the v... form of one's own
                if f.key in w or f.vararg:
                    continue
                for i in f.calls():
                    s = self.shape(i, f, w)
                    if s and s[1] is None and s[0] < len(i.o) and i.o[s[0]][0] == 'a':
                        w[f.key] = (i.o[s[0]][1], None)
                        ch = True
        return w

    def shape(self, i, f, w):
        if not i.callee:
            return None
        g = self.p.resolve(i.callee, f.tu)
        if g is not None:
            return w.get(g.key)
        return LIBC.get(i.callee)

    def run(self):
        self.collect()
        w = self.w = self.wrappers()
        for f in self.p.funcs.values():
            for i in f.calls():
                s = self.shape(i, f, w)
                if s is None or s[0] >= len(i.o):
                    continue
                if s[1] is None:
                    if i.o[s[0]][0] == 'a' and f.key in w:
                        continue        # its callers are judged
                    vals = None
                else:
                    vals = [(v, self.type_of(f, v)) for v in i.o[s[1]:]]
                self.sites += 1
                name = i.callee
                t = self.table(f, i.o[s[0]])
                if t and vals is not None and self.per_caller(f, i, t, vals):
                    continue
                if f.key in WAIVED:
                    self.waived.append(f.key)
                    continue
                scan = 'scanf' in name
                for t, tr, where in self.sources(f, i.o[s[0]]):
                    self.fmts += 1
                    if t is None:
                        self.bad(f, i, '%s prints a text that is not fixed as a format: %s' % (name, where), 'not fixed ' + where)
                        continue
                    if tr:
                        for lang, u in self.cats.get(t, ()):
                            self.trs += 1
                            self.match(f, i, name, u, vals, scan, 'the translation in po/%s of "%s"' % (lang, t[:60]))
                    self.match(f, i, name, t, vals, scan, None)
        return self

    # -- messages selected by a number
    def table(self, f, v):
        """the format is an element of a table selected by an argument: (table, argument, mask)"""
        d = f.defs.get(v[1]) if v[0] == 'i' else None
        if d is None or d.op != 'load' or d.o[0][0] != 'i':
            return None
        g = f.defs.get(d.o[0][1])
        if g is None or g.op != 'getelementptr' or g.o[0][0] != 'g':
            return None
        x = [st[1] for st in g.path or () if st[0] == 'x' and st[1][0] != 'c']
        if len(x) != 1:
            return None
        v, mask = x[0], -1
        while v[0] == 'i':
            d = f.defs.get(v[1])
            if d is None:
                return None
            if d.op in ('zext', 'sext', 'trunc'):
                v = d.o[0]
            elif d.op == 'and' and d.o[1][0] == 'c':
                mask &= d.o[1][1]
                v = d.o[0]
            else:
                return None
        return (self.p.gkey(g.o[0][1], f.tu), v[1], mask) if v[0] == 'a' else None

    def numbers(self, f, v, seen=()):
        """the constants a value may be, None among them when it may be something else"""
        if v[0] == 'c':
            return {v[1]}
        d = f.defs.get(v[1]) if v[0] == 'i' and v[1] not in seen else None
        if d is None:
            return {None}
        seen = (*seen, v[1])
        if d.op == 'phi':
            return set().union(*[self.numbers(f, x, seen) for x, _ in d.phi if x != v])
        if d.op == 'select':
            return set().union(*[self.numbers(f, x, seen) for x in d.o[1:]])
        if d.op in ('zext', 'sext'):
            return self.numbers(f, d.o[0], seen)
        if d.op in ('or', 'and'):
            a, b = [self.numbers(f, x, seen) for x in d.o]
            if None in a or None in b:
                return {None}
            return {x | y if d.op == 'or' else x & y for x in a for y in b}
        return {None}

    def per_caller(self, f, i, t, vals):
        g, k, mask = t
        gl = self.p.globals.get(g)
        m = re.search(r'\[(\d+) x', gl['ty']) if gl else None
        size = int(m.group(1)) if m else None
        before = self.reports
        for h in self.p.funcs.values():
            for c in h.calls():
                if not c.callee or self.p.resolve(c.callee, h.tu) is not f or k >= len(c.o):
                    continue
                self.reports += 1
                vs = []
                for v, ty in vals:
                    if v[0] == 'a' and v[1] < len(c.o):
                        v = c.o[v[1]]
                        ty = self.kind(h, v)
                    vs.append((v, ty))
                for n in self.numbers(h, c.o[k]):
                    if n is None:
                        entries = [(val, w) for idx, val, w, _ in self.stores.get(g, ())]
                    else:
                        n &= mask
                        self.codes.add(n)
                        entries = [(val, w) for idx, val, w, _ in self.stores.get(g, ()) if idx == n]
                        if not entries or size is not None and n >= size:
                            self.bad(h, c, '%s reports error %d, which has no message' % (h.name, n), 'error %d' % n)
                            continue
                    for val, w in entries:
                        for txt, tr, where in self.sources(w, val):
                            self.fmts += 1
                            if txt is None:
                                self.bad(h, c, 'the message of error %s is not fixed: %s' % (n, where), 'error %s not fixed' % n)
                                continue
                            for lang, u in (self.cats.get(txt, ()) if tr else ()):
                                self.trs += 1
                                self.match(h, c, c.callee, u, vs, False, 'the translation in po/%s of "%s"' % (lang, txt[:60]))
                            self.match(h, c, c.callee, txt, vs, False, None)

        return self.reports > before

    def kind(self, f, v):
        """a number that was cast to a pointer is still a number"""
        b = v
        while b[0] == 'gep':
            b = b[1]
        if b[0] == 'cast' and b[1] == 'inttoptr':
            return 'i32'
        if v[0] == 'i':
            d = f.defs[v[1]]
            if d.op == 'inttoptr':
                return 'i32'
        return self.type_of(f, v)

    def match(self, f, i, name, t, vals, scan, what):
        q = what or 'the format "%s"' % t.replace('\n', '\\n')[:70]
        try:
            want = conversions(t, self.win, scan)
        except Bad as e:
            self.bad(f, i, '%s: %s has %s' % (name, q, e), '%s %s' % (q, e))
            return
        if vals is None:
            return
        if len(want) > len(vals):
            self.bad(f, i, '%s: %s takes %d value(s), %d given' % (name, q, len(want), len(vals)), '%s few' % q)
            return
        for (ty, c), (v, have) in zip(want, vals):
            if have is None:
                continue
            if ty != have and not (ty == 'i32' and have in ('i8', 'i16')):
                self.bad(f, i, '%s: %s: %s is given a value of another kind (%s for %s)' % (name, q, c, NAMES.get(have, have), NAMES.get(ty, ty)), '%s %s' % (q, c))
            elif ty == 'ptr' and v[0] == 'null' and 's' in c and not scan:
                self.bad(f, i, '%s: %s: %s is given no text' % (name, q, c), '%s %s null' % (q, c))

    def bad(self, f, i, msg, key):
        self.found.append((f.name + ' ' + key, i.loc(), f.name + ': ' + msg))


# formats that are put together at run time
WAIVED = {'dump/dump.c:dump_fd': 'the format is "%0<width><conversion>", put together from a constant table of types when the options are read; the value printed is chosen by the same type'}

NAMES = {'ptr': 'a pointer', 'i32': 'an int', 'i64': 'a 64-bit integer', 'double': 'a double', 'x86_fp80': 'a long double'}


def run(pid, ctx):
    import build
    cats, lines = catalogues(ctx.repo)
    st = ir.Program('selftest', build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'formats.c')))
    r = Formats(st, {'translated %s': [('xx/a.po', 'traduit %d')]}).run()
    hit = {k.split()[0] for k, _, _ in r.found}
    src = open(os.path.join(ctx.verif, 'selftest', 'formats.c')).read()
    names = set(re.findall(r'\b((?:bad|ok)_\w+)\(', src))
    for n in sorted(names):
        if (n in hit) != n.startswith('bad'):
            ctx.broken('selftest: %s is %s' % (n, 'reported' if n in hit else 'not reported'))
    cov = {}
    for cfg in ctx.cfgs:
        r = Formats(ctx.prog(cfg), cats).run()
        for k, loc, msg in r.found:
            ctx.violation(k, loc, msg, 'configuration ' + cfg)
        cov[cfg] = dict(calls=r.sites, formats=r.fmts, translated_formats=r.trs, own_printing_functions=sorted(k for k in r.w), error_reports=r.reports, errors_reported=len(r.codes))
        ctx.need(r.reports, 150, '%s: reports of errors' % cfg)
        ctx.need(len(r.codes), 25, '%s: errors reported' % cfg)
        ctx.need(r.sites, 100, '%s: calls that print by a format' % cfg)
        ctx.need(r.fmts, 150, '%s: formats' % cfg)
    ctx.need(len(cats), 100, 'translated messages')
    ctx.cov(waived=WAIVED)
    ctx.cov(catalogue_messages=len(cats), selftest=sorted(names), **cov)
