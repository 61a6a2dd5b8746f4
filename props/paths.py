"""R01-R05: path-sensitive ownership, initialisation and null-pointer analyses over both configurations."""
import os, sys, time
from multiprocessing import get_context

# One named symbol each, with the reason it is not a defect.
TABLES = {('uninit', 'iso2022jp_wctomb'): 'bundled iconv: the loop runs over a constant, non-empty table of escape sequences, so its body always executes'}
GENERATED = ('libfasteval/lib/scanner.c', 'libfasteval/lib/parser.c')
EXEMPT = {
    ('leak', 'pBat_GetParameters', 'estr pBat_EsCacheInit lpCmdC'):
        'the text of /C becomes the command string the whole process runs: it lives as long as the interpreter (comment in the source)',
    ('null', 'Tea_GetWordLengthT', 'deref lpTeaNode'):
        'the node is only gone when the text that was reached has ended, and then the loop is left: what the text holds is forgotten when it is walked',
    ('leak', 'Tea_PageLoad', 'heap Tea_ParseStringBlock lpTeaPage'):
        'Tea_RemoveVoidBlocks hands the first page back or releases it: the lists have no cycles, which the analysis does not know',
}

SPEC = {
    'R01': ('Resources', ('heap', 'estr', 'list', 'params'), False, ('leak',)),
    'R02': ('Resources', ('file', 'pipe', 'dir', 'fd'), False, ('leak',)),
    'R03': ('Resources', ('heap', 'estr', 'list', 'params', 'file', 'pipe', 'dir', 'fd'), True,
            ('use-after-release', 'double-release', 'uninit-release')),
    'R04': ('Nullness', (), False, ('null',)),
    'R05': ('Uninit', (), False, ('uninit',)),
}
# bad_<tag>_ examples each property must catch
TAGS = {'R01': ('heap',), 'R02': ('file', 'fd', 'dir'), 'R03': ('uaf', 'double'), 'R04': ('null',), 'R05': ('uninit',)}
# what a run on the reference tree reaches at least (a smaller number means the rule lost its subjects)
FLOOR = {'R01': ('acquired', 3000), 'R02': ('acquired', 300), 'R03': ('releases', 3000), 'R04': ('nullable', 300), 'R05': ('visits', 20000)}


def client(pid, prog, thorough):
    import resources, uninit, nullness, sym
    cls, kinds, uaf, want = SPEC[pid]
    e = {'Resources': resources.Resources, 'Nullness': nullness.Nullness, 'Uninit': uninit.Uninit}[cls](prog)
    if cls == 'Resources':
        e.kinds = set(kinds)
        e.uaf = uaf
        e.leaks = not uaf
    if thorough:
        e.kst = 3 * sym.KSTATES
    return e


def work(a):
    pid, cfg, path, thorough = a
    import ir, resource
    sys.setrecursionlimit(20000)
    p = ir.Program(cfg, path)
    e = client(pid, p, thorough)
    e.run()
    return cfg, list(e.reports.items()), dict(e.stats), dict(e.incomplete), len(p.units), len(p.funcs), sorted(p.fnkinds()) if hasattr(p, 'fnkinds') else []


def run(pid, ctx):
    import build
    cfgs = ctx.cfgs
    st = build.facts_of_file(os.path.join(ctx.verif, 'selftest', 'paths.c'))
    jobs = [(pid, 'selftest', st, False)] + [(pid, c, build.facts_dir(c), ctx.thorough) for c in cfgs]
    with get_context('fork').Pool(len(jobs)) as pool:
        res = pool.map(work, jobs, 1)
    want = SPEC[pid][3]
    # the examples
    _, reps, _, _, _, _, _ = res[0]
    hit = {r['func'] for k, r in reps if r['kind'] in want}
    import re
    src = open(os.path.join(ctx.verif, 'selftest', 'paths.c')).read()
    must = [n for t in TAGS[pid] for n in re.findall(r'\b(bad_%s_\w+)\(' % t, src)]
    for n in must:
        if n not in hit:
            ctx.broken('self-test: %s not reported' % n)
    for n in hit:
        if n.startswith('ok_') or n not in must:
            ctx.broken('self-test: %s reported' % n)
    tot, inc, units, funcs = {}, {}, {}, {}
    exempt = []
    for cfg, reps, stats, incomplete, nu, nf, _ in res[1:]:
        for k, v in stats.items():
            tot[k] = tot.get(k, 0) + v
        units[cfg], funcs[cfg] = nu, nf
        for k, v in incomplete.items():
            inc[cfg + ' ' + k] = v
        fl = FLOOR[pid]
        if stats.get(fl[0], 0) < fl[1]:
            ctx.broken('%s: only %d %s' % (cfg, stats.get(fl[0], 0), fl[0]))
        for k, r in reps:
            if r['kind'] not in want:
                continue
            ex = EXEMPT.get((r['kind'], r['func'], k[2]))
            if ex:
                exempt.append('%s %s: %s' % (r['func'], k[2], ex))
                continue
            ex = TABLES.get((r['kind'], r['func']))
            if ex:
                exempt.append('%s: %s' % (r['func'], ex))
                continue
            if r['tu'] in GENERATED:
                exempt.append('%s (scanner/parser emitted by flex/bison): %s' % (r['func'], r['kind']))
                continue
            ctx.violation('%s %s %s' % (r['kind'], r['func'], k[2]), r['loc'], '%s: %s' % (r['func'], r['detail']),
                          'configuration %s; lines along the path: %s' % (cfg, ' '.join(map(str, r['path'][-25:]))))
    ctx.cov(units=units, functions=funcs, path_states=tot.get('visits', 0), call_sites_interpreted=tot.get('calls', 0),
            acquisitions=tot.get('acquired', 0), releases=tot.get('releases', 0), fallible_library_calls=tot.get('nullable', 0),
            functions_cut_short=inc, exempted=sorted(set(exempt)), examples_checked=must)
