"""D01 streams, D03 process-wide environment and directory, L04 forked children: which code may use the process-wide facilities."""
import context, flow, ir

STDIO = {'printf', 'puts', 'putchar', 'getchar', 'scanf', 'gets', 'perror', 'vprintf', '_putch', 'putch', 'wprintf', '_putws', 'gets_s', 'vscanf'}
STDVARS = {'stdin', 'stdout', 'stderr'}
# code that may use the standard streams of the process, with the reason
STD_OK = {
    'pBat_ApplyStreams': 'makes the interpreter\'s streams those of a program being started, under the lock that serializes starting',
    'pBat_UnApplyStreams': 'undoes pBat_ApplyStreams',
    'main': 'before and after the interpreter runs',
    'evaluator_lex': 'default streams of the generated scanner, replaced by a string buffer before it runs',
    'pBat_SigHandler': 'runs in a thread of the console that has no interpreter state',
    'pBat_DumpBatchScript': 'debugging aid', 'pBat_ShowDebug': 'debugging aid', '_Dump_Line_t': 'debugging aid',
    'linenoisePrintKeyCodes': 'debugging aid', 'linenoise': 'line editor of the terminal', 'linenoiseRaw': 'line editor of the terminal',
}
OUT = {'fOutput', 'fError', '_fOutput', '_fError'}
WRITERS = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'libcu8_fprintf': 0, 'libcu8_fputs': 1, 'libcu8_fputc': 1, '_IO_putc': 1, 'fputws': 1}
READERS = {'fgets': 2, 'fgetc': 0, 'getc': 0, 'fread': 3, 'fscanf': 0, 'getline': 2, 'libcu8_fgets': 2, 'libcu8_fgetc': 0, 'fgetws': 2}

ENVSET = {'setenv', 'putenv', 'unsetenv', 'clearenv', '_putenv', '_wputenv', 'SetEnvironmentVariableA', 'SetEnvironmentVariableW', 'libcu8_putenv', '_putenv_s'}
ENVGET = {'getenv', '_wgetenv', 'GetEnvironmentVariableA', 'GetEnvironmentVariableW', 'GetEnvironmentStringsW', 'GetEnvironmentStrings', 'libcu8_getenv', 'libcu8_xgetenv', 'secure_getenv'}
DIR = {'chdir', 'fchdir', '_chdir', '_wchdir', 'SetCurrentDirectoryA', 'SetCurrentDirectoryW', 'libcu8_chdir', '_chdrive'}
DIRGET = {'getcwd', '_getcwd', '_wgetcwd', 'GetCurrentDirectoryA', 'GetCurrentDirectoryW', 'libcu8_getcwd', 'get_current_dir_name', 'getwd', 'realpath', '_fullpath', '_wfullpath', 'GetFullPathNameA', 'GetFullPathNameW'}
ENVVARS = {'environ', '_environ', '__environ', '__imp__environ', '__imp__wenviron'}
PROC_OK = {
    'pBat_SigHandlerBreak': 'replaces the whole process by a fresh interpreter',
    'pBat_GetParameters': 'start-up', 'isUnsupportedTerm': 'asks for the terminal type',
    'libcu8_chdir': 'library entry point', 'libcu8_getcwd': 'library entry point',
}
# windows: the environment of the process is set and unset around starting a program, under this lock
ENV_LOCK = {'pBat_ApplyEnv', 'pBat_UnApplyEnv'}


def gvars(v, out):
    if isinstance(v, (list, tuple)) and v:
        if v[0] == 'g':
            out.append(v[1])
        else:
            for x in v:
                if isinstance(x, (list, tuple)):
                    gvars(x, out)
    return out


def run(pid, ctx):
    cov = {}
    for cfg in ctx.cfgs:
        cov[cfg] = {'D01': streams, 'D03': process, 'L04': children}[pid](ctx, ctx.prog(cfg), cfg)
    ctx.cov(**cov)


def streams(ctx, p, cfg):
    conc = context.concurrent(p)
    childf = context.child_only(p)
    n = uses = 0
    allowed = {}
    for f in p.funcs.values():
        if not f.tu.startswith(context.PROGRAM):
            continue
        n += 1
        for i in f.insts():
            what = None
            if i.op in ('call', 'invoke') and i.callee in STDIO and p.resolve(i.callee, f.tu) is None:
                what = i.callee + '()'
            elif i.op in ('call', 'invoke') and i.callee in STDIO and not f.name.startswith(('printf', 'vprintf')):
                what = i.callee + '()'
            elif i.op == 'call' and i.callee in ('__acrt_iob_func', '__iob_func') and i.o and i.o[0][0] == 'c' and f.name not in ('printf', 'vprintf', 'scanf'):
                what = ['stdin', 'stdout', 'stderr'][i.o[0][1]] if i.o[0][1] < 3 else None
            elif i.op != 'call' or i.callee is None or not i.callee.startswith('llvm.dbg'):
                for v in list(i.o) + [v for v, _ in i.phi or ()]:
                    for g in gvars(v, []):
                        if g in STDVARS and p.glob(g, f.tu) is not None and p.glob(g, f.tu).get('decl'):
                            what = g
            if what is None and i.op in ('call', 'invoke') and i.callee in ('read', 'write', '_read', '_write') and i.o and i.o[0][0] == 'c' and i.o[0][1] in (0, 1, 2):
                what = 'descriptor %d' % i.o[0][1]
            if what is not None:
                uses += 1
                if f.key not in conc:
                    allowed.setdefault('start-up or unused', set()).add(f.name)
                elif f.name in STD_OK:
                    allowed.setdefault(STD_OK[f.name], set()).add(f.name)
                elif i.blk in context.dying(p, f):
                    allowed.setdefault('last words before the program ends', set()).add(f.name)
                elif f.key in childf or i.blk in context.child_blocks(p, f):
                    allowed.setdefault('forked child', set()).add(f.name)
                elif f.tu.startswith('pbat/linenoise/'):
                    allowed.setdefault('line editor of the terminal', set()).add(f.name)
                else:
                    ctx.violation('std %s %s' % (f.name, what), i.loc(), '%s uses %s of the process instead of the streams of the running interpreter' % (f.name, what), cfg)
    # direction of the interpreter's streams
    dirn = 0
    for f in p.all('pbat/', 'libpbat/'):
        for i in f.calls():
            for tab, bad, verb in ((WRITERS, {'fInput'}, 'writes to'), (READERS, OUT, 'reads from')):
                if i.callee in tab and len(i.o) > tab[i.callee]:
                    for a in flow.origin(f, i.o[tab[i.callee]]):
                        if a[0] == 'load' and a[1][0] == 'tls':
                            dirn += 1
                            if a[1][1] in bad:
                                ctx.violation('direction %s' % f.name, i.loc(), '%s %s %s' % (f.name, verb, a[1][1]), cfg)
    ctx.need(dirn, 80, '%s: stream operations on the interpreter\'s streams' % cfg)
    # error reports go to the error stream only
    g = p.fn('pBat_ShowErrorMessage')
    ctx.need(1 if g else 0, 1, '%s: error reporting function' % cfg)
    seen = set()
    for i in g.calls():
        if i.callee in WRITERS:
            for a in flow.origin(g, i.o[WRITERS[i.callee]]):
                if a[0] == 'load' and a[1][0] == 'tls':
                    seen.add(a[1][1])
                    if a[1][1] not in ('fError', '_fError'):
                        ctx.violation('report %s' % a[1][1], i.loc(), 'an error report is written to %s' % a[1][1], cfg)
    ctx.need(1 if seen else 0, 1, '%s: error output' % cfg)
    return dict(functions=n, standard_stream_uses=uses, allowed={k: sorted(v) for k, v in allowed.items()}, stream_operations=dirn)


def process(ctx, p, cfg):
    import typestate
    conc = context.concurrent(p)
    childf = context.child_only(p)
    sites = 0
    allowed = {}
    for f in p.funcs.values():
        if not f.tu.startswith(context.PROGRAM):
            continue
        for i in f.insts():
            what = None
            if i.op in ('call', 'invoke') and i.callee:
                if i.callee in ENVSET:
                    what = 'changes the environment of the process (%s)' % i.callee
                elif i.callee in ENVGET:
                    what = 'reads the environment of the process (%s)' % i.callee
                elif i.callee in DIR:
                    what = 'changes the directory of the process (%s)' % i.callee
                elif i.callee in DIRGET:
                    what = 'depends on the directory of the process (%s)' % i.callee
            for v in list(i.o) + [v for v, _ in i.phi or ()]:
                for g in gvars(v, []):
                    if g in ENVVARS:
                        what = 'uses the environment of the process (%s)' % g
            if what is None:
                continue
            sites += 1
            if f.key not in conc:
                allowed.setdefault('start-up or unused', set()).add(f.name)
            elif f.name in PROC_OK:
                allowed.setdefault(PROC_OK[f.name], set()).add(f.name)
            elif f.key in childf or i.blk in context.child_blocks(p, f):
                allowed.setdefault('forked child', set()).add(f.name)
            elif f.tu.startswith('libcu8/src/spawn'):
                allowed.setdefault('library entry point', set()).add(f.name)
            elif f.name in ENV_LOCK or i.callee in ENVSET and f.name in ENV_LOCK:
                allowed.setdefault('set and unset around starting a program', set()).add(f.name)
            else:
                ctx.violation('process %s %s' % (f.name, i.callee or ''), i.loc(), '%s %s, which all interpreters share' % (f.name, what), cfg)
    ctx.need(sites, {'linux': 6, 'windows': 6}[cfg], '%s: uses of process-wide state' % cfg)
    # the lock-and-undo protocol
    pairs = 0
    for f in p.all('pbat/'):
        for i in f.calls('pBat_ApplyEnv'):
            if f.key in childf or i.blk in context.child_blocks(p, f) or f.name in PROC_OK:
                pairs += 1
                continue
            undo = {j.blk for j in f.calls('pBat_UnApplyEnv')}
            pairs += 1
            if not undo or (i.blk not in undo and any(f.blocks[b].insts[-1].op == 'ret' for b in f.reach(i.blk, undo))):
                ctx.violation('undo %s' % f.name, i.loc(), '%s leaves its environment in the process, where every interpreter meets it' % f.name, cfg)
    ctx.need(pairs, 1, '%s: places that hand the environment to a program' % cfg)
    # a program is started with the environment, the streams and the directory of its interpreter
    spawn = 0
    for f in p.all('pbat/'):
        ex = [i for i in f.calls() if i.callee in ('execv', 'execvp', 'execve', 'execl', 'execlp', 'ShellExecuteExW', 'ShellExecuteExA')]
        for i in ex:
            spawn += 1
            need = {'pBat_ApplyEnv': 'environment'}
            if f.name not in PROC_OK:
                need['pBat_ApplyStreams'] = 'streams'
            if i.callee.startswith('exec'):
                need['chdir'] = 'directory'
            for c, w in need.items():
                blks = {j.blk for j in f.calls(c)}
                roots = [b for b in context.child_blocks(p, f) if i.blk in f.reach(b)] or [0]
                start = min(roots, key=lambda b: len(f.dominators()[b]))
                before = any(j.blk == i.blk and f.blocks[i.blk].insts.index(j) < f.blocks[i.blk].insts.index(i) for j in f.calls(c))
                if c == 'chdir' and f.name == 'pBat_StartFile':
                    if not blks:
                        ctx.violation('spawn %s %s' % (f.name, w), i.loc(), '%s starts a program without the %s of its interpreter' % (f.name, w), cfg)
                    continue        # no directory given: the file itself says where to start
                if not before and (start not in blks) and i.blk in f.reach(start, blks - {i.blk}):
                    ctx.violation('spawn %s %s' % (f.name, w), i.loc(), '%s starts a program without the %s of its interpreter' % (f.name, w), cfg)
    ctx.need(spawn, 1, '%s: program starts' % cfg)
    return dict(sites=sites, allowed={k: sorted(v) for k, v in allowed.items()}, environment_handed_over=pairs, program_starts=spawn)


def children(ctx, p, cfg):
    """a forked child never goes back into the interpreter"""
    forks = 0
    for f in p.funcs.values():
        if not f.tu.startswith(context.PROGRAM):
            continue
        for i in f.calls():
            if i.callee not in ('fork', 'vfork'):
                continue
            forks += 1
            ch = context.child_blocks(p, f)
            if not ch:
                ctx.violation('fork %s' % f.name, i.loc(), '%s does not tell the forked child from its parent' % f.name, cfg)
                continue
            d = context.dying(p, f)
            ex = {}
            for b in ch:
                for j in f.blocks[b].insts:
                    if j.op in ('call', 'invoke') and j.callee and j.callee.startswith('exec'):
                        ex[j.id] = j
            # leaving the child region without having ended the process
            live, st = set(), [b for b in ch if any(q not in ch for q in f.blocks[b].pred)]
            while st:
                b = st.pop()
                if b in live or b in d or b not in ch:
                    continue
                live.add(b)
                if f.blocks[b].insts[-1].op == 'ret':
                    ctx.violation('child %s' % f.name, f.blocks[b].insts[-1].loc(), 'the forked child can return from %s as a second interpreter' % f.name, cfg)
                for s in f.blocks[b].succ:
                    if exec_failed_other(f, b, s, ex):
                        continue
                    if s not in ch and s not in d:
                        ctx.violation('child %s' % f.name, f.blocks[b].insts[-1].loc(), 'the forked child can go on as a second interpreter in %s' % f.name, cfg)
                    st.append(s)
    return dict(forks=forks)


def exec_failed_other(f, b, s, ex):
    """the edge is taken only if exec returned something other than -1, which it never does"""
    t = f.blocks[b].insts[-1]
    if t.op == 'br' and t.o and t.o[0][0] == 'i':
        c = f.defs.get(t.o[0][1])
        if c is not None and c.op == 'icmp' and c.o[0][0] == 'i' and c.o[0][1] in ex and c.o[1][0] == 'c' and c.o[1][1] in (-1, 0xffffffff):
            return (c.pred == 'eq' and t.s[1] == s) or (c.pred == 'ne' and t.s[0] == s)
    return False
