"""Turn /repo's current working tree into analysable facts.

Copies the sources to a scratch directory, configures them the way the
project's own makefiles do, asks `make -n -B` which translation units each
program is made of and with which flags, compiles every one of them with
clang to LLVM bitcode (nothing is executed) and dumps facts with irfacts.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PBSA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'

EXCL = ('.git', '_build', 'tests', 'man', 'po')
SRC_EXT = ('.c', '.h', '.y', '.l', '.in', '.mk', '.inc', '.sh', '')

CFGS = {
    'linux': {
        'env': {'CC': 'gcc'},
        'config': [['make', 'CC=gcc', 'config']],
        'make': ['CC=gcc'],
        'target': [],
        'dirs': ['microgettext', 'libpbat', 'libfasteval', 'pbat', 'pbatize',
                 'dump', 'tea', ('modules/sample', 'sample'), ('modules/batbox', 'batbox')],
    },
    'windows': {
        'env': {'CC': 'x86_64-w64-mingw32-gcc', 'AR': 'x86_64-w64-mingw32-ar',
                'RANLIB': 'x86_64-w64-mingw32-ranlib',
                'WINDRES': 'x86_64-w64-mingw32-windres', 'EXEC_SUFFIX': '.exe'},
        'config': [['make', 'config'], ['make', 'use-libcu8'], ['make', 'no-modules']],
        'make': [],
        'target': ['--target=x86_64-w64-windows-gnu'],
        'dirs': ['microgettext', 'libpbat', 'libfasteval', 'libcu8', 'pbat',
                 'pbatize', 'tea'],
    },
}


class BuildError(Exception):
    pass


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(repo):
        if d == repo:
            ds[:] = [x for x in ds if x not in EXCL]
        ds[:] = sorted(x for x in ds if x != '.git')
        for f in sorted(fs):
            if f.endswith(('.o', '.a', '.exe', '.mo', '.so', '.dll')):
                continue
            p = os.path.join(d, f)
            if os.path.islink(p) or os.path.isfile(p):
                out.append(os.path.relpath(p, repo))
    return out


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for f in source_files(repo):
        h.update(f.encode() + b'\0')
        try:
            with open(os.path.join(repo, f), 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    for f in ('build.py', 'irfacts.cpp', 'known.txt'):
        p = os.path.join(HERE, f)
        if os.path.exists(p):
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def sh(cmd, cwd=None, env=None, ok=True):
    e = dict(os.environ)
    for k in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'LDFLAGS', 'CC', 'AR', 'RANLIB',
              'WINDRES', 'BINDIR', 'EXEC_SUFFIX', 'LANGUAGE'):
        e.pop(k, None)
    e['LC_ALL'] = 'C.UTF-8'
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    out = p.stdout.decode('utf-8', 'replace')
    if ok and p.returncode:
        raise BuildError('%s failed in %s:\n%s' % (cmd, cwd, out[-3000:]))
    return out


def tool():
    src = os.path.join(HERE, 'irfacts.cpp')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irfacts-' + h)
    if os.path.exists(exe):
        return exe
    cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
    cxx = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
    flags = sh([cfg, '--cxxflags']).split()
    ld = sh([cfg, '--ldflags']).split()
    tmp = exe + '.%d' % os.getpid()
    sh([cxx, '-O1', '-fno-rtti', '-w'] + flags + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    os.rename(tmp, exe)
    return exe


def compile_cmds(work, cfg):
    """(unit name, dir, source, flags) for every C unit the makefiles build."""
    res = []
    for d in cfg['dirs']:
        goal = []
        if isinstance(d, tuple):
            d, goal = d[0], [d[1]]
        if not os.path.isdir(os.path.join(work, d)):
            raise BuildError('missing directory ' + d)
        out = sh(['make', '-n', '-B'] + cfg['make'] + goal, cwd=os.path.join(work, d), env=cfg['env'], ok=False)
        out = out.replace('\\\n', ' ')
        for line in out.split('\n'):
            w = line.split()
            if not w or not (w[0].endswith('gcc') or w[0].endswith('clang') or w[0] == 'cc'):
                continue
            srcs = [x for x in w[1:] if x.endswith('.c')]
            flags = []
            i = 1
            while i < len(w):
                x = w[i]
                if x in ('-I', '-D', '-U', '-include'):
                    flags += [x, w[i + 1]]
                    i += 1
                elif x.startswith(('-I', '-D', '-U', '-std')):
                    flags.append(x)
                i += 1
            for s in srcs:
                res.append((os.path.normpath(os.path.join(d, s)), os.path.join(work, d), s, flags))
    # one unit per source file
    seen, out = set(), []
    for r in res:
        if r[0] not in seen:
            seen.add(r[0])
            out.append(r)
    return out


def build(cfgname, dest, repo=None, raw=False):
    """Write facts for configuration cfgname into directory dest."""
    repo = repo or REPO
    cfg = CFGS[cfgname]
    exe = tool()
    tmp = tempfile.mkdtemp(prefix='pbsa-', dir='/tmp')
    try:
        work = os.path.join(tmp, 'w')
        for f in source_files(repo):
            s, d = os.path.join(repo, f), os.path.join(work, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(s, d, follow_symlinks=True)
        # leftovers of an in-tree build must not be used
        for f in ('config.h', 'config.c', 'libfasteval/lib/parser.c', 'libfasteval/lib/parser.h',
                  'libfasteval/lib/scanner.c', 'dump/dump.h'):
            p = os.path.join(work, f)
            if os.path.exists(p):
                os.unlink(p)
        for c in cfg['config']:
            sh(c, cwd=work, env=cfg['env'])
        fe = os.path.join(work, 'libfasteval/lib')
        gen = sh(['make', '-n', '-B'] + cfg['make'], cwd=os.path.join(work, 'libfasteval'), env=cfg['env'], ok=False)
        done = 0
        for line in gen.replace('\\\n', ' ').split('\n'):
            w = line.strip()
            if re.match(r'(flex|bison|lex|yacc)\b', w):
                sh(['sh', '-c', w], cwd=os.path.join(work, 'libfasteval'))
                done += 1
        if done < 2:
            raise BuildError('parser generation commands not found')
        if 'dump' in cfg['dirs']:
            # the constants dump is built from are themselves generated by a program of the tree
            sh(['gcc', '-o', 'dump_h_gen', 'dump_h_gen.c'], cwd=os.path.join(work, 'dump'))
            with open(os.path.join(work, 'dump', 'dump.h'), 'wb') as o:
                subprocess.run([os.path.join(work, 'dump', 'dump_h_gen')], stdout=o, check=True, timeout=60)
        units = compile_cmds(work, cfg)
        if cfgname == 'linux' and len(units) < 100:
            raise BuildError('only %d units found' % len(units))
        known = os.path.join(HERE, 'known.txt')
        if not os.path.exists(known):
            known = '/dev/null'
        os.makedirs(dest, exist_ok=True)

        def one(u):
            name, d, s, flags = u
            bc = os.path.join(tmp, name.replace('/', '__') + '.bc')
            js = os.path.join(dest, name.replace('/', '__') + '.json')
            cmd = [CLANG] + cfg['target'] + ['-std=gnu17', '-O0', '-Xclang', '-disable-O0-optnone',
                   '-fno-discard-value-names', '-ftrivial-auto-var-init=pattern', '-ftrivial-auto-var-init-max-size=8', '-g', '-w', '-Wno-error=implicit-function-declaration',
                   '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-emit-llvm', '-c'] + flags + [s, '-o', bc]
            o = sh(cmd, cwd=d)
            sh([exe, bc, js, known, name] + (['raw'] if raw else []))
            os.unlink(bc)
            return name
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            names = list(ex.map(one, units))
        with open(os.path.join(dest, 'units.lst'), 'w') as f:
            f.write('\n'.join(names) + '\n')
        # generated sources some rules read as text
        for f in ('config.h',):
            shutil.copy(os.path.join(work, f), os.path.join(dest, f))
        return names
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def facts_dir(cfgname, raw=False):
    """Directory with the facts of the current tree (content-addressed cache)."""
    os.makedirs(CACHE, exist_ok=True)
    key = '%s-%s%s' % (cfgname, tree_hash(), '-raw' if raw else '')
    final = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(final, 'units.lst')):
        return final
    with open(os.path.join(CACHE, 'lock-' + cfgname), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, 'units.lst')):
            return final
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE)
                     if x.startswith(cfgname + '-'))
        for _, x in old[:-12]:
            shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
        try:
            build(cfgname, tmp, raw=raw)
            os.rename(tmp, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final


def facts_of_file(path):
    """facts of one stand-alone C file (the self-test examples)"""
    exe = tool()
    h = hashlib.sha256(open(path, 'rb').read() + open(os.path.join(HERE, 'irfacts.cpp'), 'rb').read()).hexdigest()[:20]
    final = os.path.join(CACHE, 'st-' + h)
    if os.path.exists(os.path.join(final, 'units.lst')):
        return final
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
    try:
        name = os.path.basename(path)
        bc = os.path.join(tmp, 'x.bc')
        sh([CLANG, '-std=gnu17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-ftrivial-auto-var-init=pattern', '-ftrivial-auto-var-init-max-size=8', '-g', '-w',
            '-emit-llvm', '-c', path, '-o', bc])
        sh([exe, bc, os.path.join(tmp, name + '.json'), '/dev/null', name])
        os.unlink(bc)
        open(os.path.join(tmp, 'units.lst'), 'w').write(name + '\n')
        try:
            os.rename(tmp, final)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return final


if __name__ == '__main__':
    import time
    t = time.time()
    for c in (sys.argv[1:] or ['linux']):
        d = facts_dir(c)
        print(c, d, len(open(os.path.join(d, 'units.lst')).read().split()), '%.1fs' % (time.time() - t))
