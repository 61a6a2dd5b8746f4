"""D02: file names are resolved against the interpreter's directory."""
import os, re
import ir
from context import concurrent
from flow import gtls

# calls that look a name up, and which of their arguments is the name
SINKS = {'fopen': [0], 'freopen': [0], 'open': [0], 'open64': [0], 'fopen64': [0], '_open': [0], 'creat': [0], 'sopen': [0], '_sopen': [0], 'unlink': [0], '_unlink': [0], 'remove': [0], 'rmdir': [0], '_rmdir': [0],
         'mkdir': [0], '_mkdir': [0], 'rename': [0, 1], 'opendir': [0], 'stat': [0], 'lstat': [0], 'stat64': [0], '_stat64': [0], 'access': [0], '_access': [0],
         'chmod': [0], '_chmod': [0], 'utime': [0], 'utimes': [0], 'truncate': [0], 'link': [0, 1], 'symlink': [1], 'readlink': [0], 'realpath': [0], 'execv': [0], 'execve': [0],
         'dlopen': [0], 'bindtextdomain': [1], 'LoadLibraryA': [0], 'CreateFileA': [0], 'DeleteFileA': [0], 'MoveFileA': [0, 1], 'MoveFileExA': [0, 1], 'CopyFileA': [0, 1],
         'RemoveDirectoryA': [0], 'CreateDirectoryA': [0], 'GetFileAttributesA': [0], 'SetFileAttributesA': [0], 'FindFirstFileA': [0], 'CreateProcessA': [0],
         'CreateFileW': [0], 'FindFirstFileW': [0], '_utime': [0], 'GetFileAttributesExA': [0]}
# functions of the program that resolve a name: result or argument holds a full path afterwards
FULL = {'pBat_EsToFullPath': (0, 0), 'pBat_MakeFullPath': (0, None), 'pBat_MakeFullPathEs': (0, None), 'pBat_GetFileFullPath': (0, None),
        'pBat_GetFilePath': (0, None), 'pBat_FullPathDup': (None, 'new')}
# the search takes a name as it is, and the names it finds start with it
SEARCH = {'pBat_GetMatchFileList': 0}
# (function: what holds the text afterwards, what is returned)
RAW = {'pBat_GetNextParameterEs': (1, 0), 'pBat_GetNextParameter': (1, 0), 'pBat_GetEndOfLine': (1, None), 'pBat_GetNextBlockEs': (1, 0), 'pBat_EsGet': (0, None), 'pBat_EsGetN': (0, None),
       'fgets': (0, 0), 'pBat_LineNoise': (0, None)}
COPY = {'strcpy': (0, 1), 'strncpy': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1), 'pBat_EsCpy': (0, 1), 'pBat_EsCpyE': (0, 1), 'pBat_EsCpyN': (0, 1), 'strlcpy': (0, 1)}
CAT = {'strcat': (0, 1), 'strncat': (0, 1), 'pBat_EsCat': (0, 1), 'pBat_EsCatE': (0, 1), 'pBat_EsCatN': (0, 1)}
SAME = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'strpbrk': 0, 'strdup': 0, '_strdup': 0, 'strtok': 0, 'strndup': 0, 'libcu8_xalloc': None}
PRINT = {'snprintf': (0, 2), 'sprintf': (0, 1), '_snprintf': (0, 2), '__mingw_snprintf': (0, 2), '__mingw_sprintf': (0, 1)}
TRUSTED = ('libpbat/dir/', 'libcu8/', 'libpbat/linenoise/', 'microgettext/')      # below the interface where names are full paths already
PROGRAM = ('microgettext/', 'libpbat/', 'libfasteval/', 'pbat/', 'selftest')
FRESH = {'pBat_EsInit': None, 'pBat_EsCacheInit': None, 'pBat_EsInit_Cached': None, 'pBat_GetEnv': None, 'getenv': None}     # what they return was not typed
NONE = ('pBat_EsFree', 'pBat_EsFree_Cached', 'pBat_EsFreeCache', 'pBat_EsCacheFree', 'pBat_EsCacheClean')
KEPT = {('g', 'lpCurrentDir')}         # is a full path, whatever is appended to it
EMPTY = ('lit', '')
TOPSET = None


def full(s):
    return not s or s[0] in '/\\' or s[1:2] == ':' or s.upper() in ('CON', 'NUL', 'CONIN$', 'CONOUT$', 'PRN')


class Names:
    def __init__(self, prog, conc):
        self.p = prog
        self.conc = conc
        self.sum = {}
        self.glob = {}
        self.found = {}
        self.sinks = self.handed = 0
        self.sites = set()
        self.resolvers = 0
        self.fs = [k for comp in prog.sccs() for k in comp if prog.cfg == 'selftest' or prog.funcs[k].tu.startswith(PROGRAM)]

    def given(self):
        """functions that the outside hands texts to: main, and what is registered as a call-back with the terminal"""
        out = {'main'}
        for f in self.p.funcs.values():
            for i in f.insts():
                if i.op == 'call' and (i.callee or '').startswith('libcu8_') or i.op == 'store' and i.o[1][0] == 'g' and i.o[1][1].startswith('libcu8_'):
                    out |= {v[1] for v in i.o if v[0] == 'fn'}
        return out

    def run(self, roots):
        self.roots = set(roots) | self.given()
        for _ in range(4):
            before = (str(sorted(self.sum.items(), key=str)), str(sorted(self.glob.items(), key=str)))
            self.found = {}
            self.sites = set()
            self.resolvers = 0
            for k in self.fs:
                f = self.p.funcs[k]
                if f.name in FULL or f.name in RAW or f.name in COPY or f.name in CAT or f.name in FRESH or f.name in NONE:
                    continue
                self.function(f)
            if (str(sorted(self.sum.items(), key=str)), str(sorted(self.glob.items(), key=str))) == before:
                break
        return self

    def report(self, f, loc, what, via):
        if (f.key in self.conc or f.name == 'main') and not f.tu.startswith(TRUSTED):
            self.found.setdefault((f.name, via, what), (loc, '%s: %s is handed to %s without having been resolved against the directory of the interpreter' % (f.name, what, via)))

    # -- places
    def locs(self, f, v, depth=0):
        """what a pointer leads to: the object it points into, a structure that holds text counting as the text"""
        if depth > 12:
            return set()
        if v[0] == 'a':
            return {('a', v[1])}
        if v[0] == 'g':
            return {('g', v[1])}
        if v[0] == 's':
            return {('lit', v[1])}
        if v[0] == 'gep':
            return self.locs(f, v[1], depth + 1)
        if v[0] == 'i':
            d = f.defs.get(v[1])
            if d is None:
                return set()
            t = gtls(f, d)
            if t is not None:
                return {('g', t)}
            if d.op == 'alloca':
                return {('al', d.id)}
            if d.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                return self.locs(f, d.o[0], depth + 1)
            if d.op == 'getelementptr':
                fl = [x for x in d.path or () if x[0] == 'f']
                b = self.locs(f, d.o[0], depth + 1)
                if fl and not fl[-1][1].endswith('ESTR') and not any(x[0] == 'al' for x in b):
                    return {('fld', fl[-1][1], fl[-1][2])} if not any(x[0] == 'g' for x in b) else {('g', '%s.%s' % (x[1], fl[-1][2])) for x in b if x[0] == 'g'}
                return b
            if d.op == 'load':
                return self.locs(f, d.o[0], depth + 1)
            if d.op == 'phi':
                out = set()
                for x, _ in d.phi:
                    if x != v:
                        out |= self.locs(f, x, depth + 3)
                return out
            if d.op == 'select':
                return self.locs(f, d.o[1], depth + 1) | self.locs(f, d.o[2], depth + 1)
            if d.op == 'call':
                r = self.returned(f, d)
                if r is not None:
                    out = set()
                    for k in r:
                        out |= self.locs(f, d.o[k], depth + 1)
                    return out
                return {('v', d.id)}
        return set()

    def returned(self, f, d):
        """arguments the result of a call points into, None if it is something of its own"""
        c = d.callee
        if c in FULL and FULL[c][1] is not None and FULL[c][1] != 'new':
            return [FULL[c][1]]
        if c in RAW and RAW[c][1] is not None:
            return [RAW[c][1]]
        if c in SAME and SAME[c] is not None and c not in ('strdup', '_strdup', 'strndup'):
            return [SAME[c]]
        if c and c.startswith('pBat_Skip') or c in ('realloc',):
            return [0]
        g = self.p.resolve(c, f.tu) if c else None
        if g is not None and g.key in self.sum and not (c in FULL or c in RAW or c in COPY or c in CAT):
            r = [x[1] for x in self.sum[g.key]['ret'] if x[0] == 'a']
            if r and len(r) == len(self.sum[g.key]['ret']):
                return [k for k in r if k < len(d.o)]
        return None

    def base(self, f, v):
        """the string, or the structure that holds it, a pointer was taken from"""
        while v[0] == 'i':
            d = f.defs[v[1]]
            if d.op in ('getelementptr', 'bitcast') and all(x[0] != 'f' or x[1].endswith('ESTR') for x in d.path or ()):
                v = d.o[0]
            elif d.op == 'load' and d.ty == 'ptr' and d.o[0][0] == 'i' and any(x[0] == 'f' and x[1].endswith('ESTR') for x in f.defs[d.o[0][1]].path or ()):
                v = d.o[0]
            else:
                break
        return v

    def text(self, f, st, v):
        """origins of the text a pointer leads to"""
        out = set()
        v = self.base(f, v)
        if v[0] == 'i' and ('phi', v[1]) in st:
            return st[('phi', v[1])]
        for l in self.locs(f, v):
            if l[0] == 'lit':
                if not full(l[1]) or l[1] == '':
                    out.add(l)
            elif l in KEPT:
                continue
            elif l in st:
                out |= st[l]
            elif l[0] == 'a':
                out.add(l)
            elif l[0] in ('g', 'fld'):
                out |= self.glob.get(l, set())
        return frozenset(out)

    def put(self, f, st, v, o, weak=False):
        ls = self.locs(f, v)
        for k in [k for k in st if k[0] == 'phi']:
            if tuple(self.base(f, v)) == ('i', k[1]):
                st[k] = frozenset(o)
            elif ls & self.locs(f, ('i', k[1])):
                st[k] = st[k] | frozenset(o)
        for l in ls:
            if l[0] == 'lit' or l in KEPT:
                continue
            st[l] = frozenset(o) if len(ls) == 1 and not weak else frozenset(o) | st.get(l, frozenset([l]) if l[0] == 'a' else frozenset())
            if l[0] in ('g', 'fld'):
                self.outg.setdefault(l, set()).update(o)
                r = {x for x in o if x[0] == 'raw'}
                if r:
                    self.glob.setdefault(l, set()).update(r)

    # -- one function
    def function(self, f):
        self.outg = {}
        self.sk = {}
        self.ret = set()
        self.outs = {}
        todo, n = [0], 0
        order = {b: k for k, b in enumerate(f.rpo())}
        inn = {0: {('a', k): frozenset([('raw', 'the text of the command' if f.name != 'main' else 'a word of the command line')])
                   for k in range(len(f.args))} if f.name in self.roots and (f.key in self.conc or f.name == 'main') else {}}
        while todo and n < 3000:
            n += 1
            b = min(todo, key=lambda x: order.get(x, 1e9))
            todo.remove(b)
            st = dict(inn[b])
            for i in f.blocks[b].insts:
                self.step(f, st, i)
            for s in f.blocks[b].succ:
                o = inn.get(s)
                out = st
                st = self.edge(f, out, b, s)
                for i in f.blocks[s].insts:
                    if i.op == 'phi' and i.ty == 'ptr' and len(self.locs(f, ('i', i.id))) > 1:
                        if st is out:
                            st = dict(out)
                        st[('phi', i.id)] = frozenset().union(*[self.text(f, out if x[0] == 'i' and f.defs[x[1]].op == 'phi' and f.defs[x[1]].blk == s else st, x) for x, q in i.phi if q == b and x[0] in ('i', 'a', 'g', 's', 'gep')])
                if o is None:
                    new = dict(st)
                else:
                    new = dict(o)
                    for k in set(o) | set(st):
                        d = frozenset([k]) if k[0] == 'a' else frozenset()
                        new[k] = o.get(k, d) | st.get(k, d)
                if new != o:
                    inn[s] = new
                    if s not in todo:
                        todo.append(s)
                st = out
        self.sum[f.key] = dict(ret=frozenset(self.ret), outs={k: frozenset(v) for k, v in self.outs.items()}, sinks=dict(self.sk),
                               glob={k: frozenset(v) for k, v in self.outg.items()})

    def edge(self, f, st, b, s):
        """where a text was seen to start like a full path, it is one"""
        t = f.blocks[b].insts[-1]
        if t.op != 'br' or len(t.s) != 2 or t.s[0] == t.s[1] or not t.o or t.o[0][0] != 'i':
            return st
        c = f.defs.get(t.o[0][1])
        if c is None or c.op != 'icmp' or c.pred not in ('eq', 'ne') or c.o[1][0] != 'c' or c.o[1][1] not in (47, 92, 58):
            return st
        if s != t.s[0 if c.pred == 'eq' else 1]:
            return st
        v = c.o[0]
        while v[0] == 'i' and f.defs[v[1]].op in ('sext', 'zext'):
            v = f.defs[v[1]].o[0]
        d = f.defs.get(v[1]) if v[0] == 'i' else None
        if d is None or d.op != 'load' or d.ty != 'i8':
            return st
        st = dict(st)
        v = self.base(f, d.o[0])
        if v[0] == 'i' and ('phi', v[1]) in st:
            st[('phi', v[1])] = frozenset()
        for l in self.locs(f, d.o[0]):
            if l[0] != 'lit':
                st[l] = frozenset()
        return st

    def sink(self, f, st, i, v, via, loc=None):
        loc = loc or i.loc()
        self.sites.add(i.loc())
        for o in self.text(f, st, v):
            if o[0] == 'a':
                self.sk.setdefault(o[1], (loc, via))
            elif o[0] == 'raw':
                self.report(f, i.loc(), o[1], via)
            elif o[0] == 'lit' and o[1]:
                self.report(f, i.loc(), 'the relative name "%s"' % o[1], via)

    def step(self, f, st, i):
        if i.op == 'ret':
            if i.o and i.o[0][0] in ('a', 'i', 's'):
                if i.o[0][0] != 'i' or f.defs[i.o[0][1]].ty == 'ptr':
                    self.ret |= self.text(f, st, i.o[0])
            for k in range(len(f.args)):
                v = st.get(('a', k))
                if v is not None:
                    self.outs.setdefault(k, set()).update(v)
                elif k in self.outs:
                    self.outs[k].add(('a', k))
            return
        if i.op == 'store':
            if i.o[0][0] in ('c', 'null'):
                return
            ty = f.defs[i.o[0][1]].ty if i.o[0][0] == 'i' else f.args[i.o[0][1]][1] if i.o[0][0] == 'a' else 'ptr'
            if ty != 'ptr':
                return
            o = self.text(f, st, i.o[0])
            self.put(f, st, i.o[1], o, weak=not all(x[0] == 'al' for x in self.locs(f, i.o[1])))
            return
        if i.op not in ('call', 'invoke'):
            return
        c = i.callee
        if not c or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'):
            return
        if c.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.put(f, st, i.o[0], self.text(f, st, i.o[1]))
            return
        if c in SINKS and self.p.resolve(c, f.tu) is None or c in SINKS and self.p.resolve(c, f.tu).tu.startswith(('libcu8', 'microgettext')):
            for k in SINKS[c]:
                if k < len(i.o):
                    self.sink(f, st, i, i.o[k], c)
            return
        if c in SEARCH:
            self.sink(f, st, i, i.o[SEARCH[c]], 'the search for files')
            return
        if c in FRESH:
            st[('v', i.id)] = frozenset()
            return
        if c in NONE:
            return
        if c in FULL:
            self.resolvers += 1
            a, r = FULL[c]
            if a is not None:
                self.put(f, st, i.o[a], ())
            else:
                st[('v', i.id)] = frozenset()
            return
        if c in RAW:
            a, r = RAW[c]
            self.put(f, st, i.o[a], {('raw', 'a text of the user (%s)' % c)})
            return
        if c in COPY:
            a, b = COPY[c]
            self.put(f, st, i.o[a], self.text(f, st, i.o[b]))
            return
        if c in CAT:
            a, b = CAT[c]
            o = self.text(f, st, i.o[a])
            if EMPTY in o:
                self.put(f, st, i.o[a], (o - {EMPTY}) | self.text(f, st, i.o[b]))
            return
        if c in PRINT:
            a, k = PRINT[c]
            if k < len(i.o):
                fm = [x[1] for x in self.locs(f, i.o[k]) if x[0] == 'lit']
                if len(fm) == 1:
                    m = re.match(r'%[-.*\d]*s', fm[0])
                    if m:
                        n = k + 1 + m.group(0).count('*')
                        self.put(f, st, i.o[a], self.text(f, st, i.o[n]) if n < len(i.o) else ())
                    elif fm[0].startswith('%'):
                        self.put(f, st, i.o[a], ())
                    else:
                        self.put(f, st, i.o[a], () if full(fm[0]) and fm[0] else {('lit', fm[0])})
                else:
                    self.put(f, st, i.o[a], ())
            return
        if c in ('strdup', '_strdup', 'strndup'):
            st[('v', i.id)] = self.text(f, st, i.o[0])
            return
        g = self.p.resolve(c, f.tu)
        if g is None or g.key not in self.sum:
            return
        s = self.sum[g.key]
        vals = [self.text(f, st, v) if v[0] in ('a', 'i', 'g', 'gep', 's') else frozenset() for v in i.o]

        def sub(os_):
            out = set()
            for o in os_:
                if o[0] == 'a':
                    out |= vals[o[1]] if o[1] < len(vals) else set()
                else:
                    out.add(o)
            return out
        for k, (loc, via) in s['sinks'].items():
            if k < len(i.o):
                self.handed += 1
                self.sink(f, st, i, i.o[k], '%s (by %s)' % (via.split(' (by ')[0], c))
        new = {k: sub(v) for k, v in s['outs'].items() if k < len(i.o)}
        for k, o in new.items():
            self.put(f, st, i.o[k], o)
        for l, o in s['glob'].items():
            if l in KEPT:
                continue
            o = sub(o)
            r = {x for x in o if x[0] == 'raw'}
            self.outg.setdefault(l, set()).update(x for x in o if x[0] == 'a')
            if r:
                self.glob.setdefault(l, set()).update(r)
        st[('v', i.id)] = frozenset(sub(s['ret']))


def run(pid, ctx):
    import build
    from props.status import handlers
    st = ir.Program('selftest', build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'names.c')))
    r = Names(st, set(st.funcs)).run({f.name for f in st.funcs.values() if f.name.startswith(('bad_cmd', 'ok_cmd'))})
    hit = {k[0] for k in r.found}
    src = open(os.path.join(ctx.verif, 'selftest', 'names.c')).read()
    names = set(re.findall(r'\b((?:bad|ok)_\w+)\(', src))
    for n in sorted(names):
        if (n in hit) != n.startswith('bad'):
            ctx.broken('selftest: %s is %s' % (n, 'reported' if n in hit else 'not reported'))
    cov = {}
    for cfg in ctx.cfgs:
        p = ctx.prog(cfg)
        r = Names(p, concurrent(p)).run(handlers(p))
        for k, (loc, msg) in sorted(r.found.items()):
            ctx.violation(' '.join(k), loc, msg, 'configuration ' + cfg)
        cov[cfg] = dict(functions=len(r.sum), look_ups=len(r.sites), resolutions=r.resolvers)
        ctx.need(len(r.sites), 40, '%s: places where a name is looked up' % cfg)
        ctx.need(r.resolvers, 25, '%s: places where a name is resolved' % cfg)
    ctx.cov(selftest=sorted(names), **cov)
