#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

    check.py <property id> [quick|thorough]

exit 0: every obligation is discharged on every abstract path
exit 1: VIOLATION property=<id> replay=<path of the report>
exit 2: ANALYSIS-BROKEN (a construct without transfer function, a vanished anchor)
"""
import json
import multiprocessing
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def repo_dir():
    return os.environ.get('VERIF_REPO', '/repo')


def load_known():
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    except FileNotFoundError:
        pass
    return out


VMREF = [None]


def run_one(job):
    """analyse one entry (a spec function); returns a plain dict"""
    name, fn = job
    vm = VMREF[0]
    from absint.vm import NFrame, Call, PathEnd
    t0 = time.time()
    st = vm.st0.fork()
    st.freeze()
    st.calls = st.path = st.notes = None
    vm.funcs.clear()
    vm.callsites.clear()
    mod = vm.mods(st)[name]
    f = st.get(mod).attrs[fn]

    def top(vm_, s, a, k):
        yield Call(f, ())
        return None
    st.frames.append(NFrame(top, (), {}, 'top'))
    samples = []

    def on_end(s, kind, msg):
        from absint.vm import Violation
        if kind == 'uncaught' and not s.facts.contradictory():
            o = s.get(msg)
            from absint.values import show
            text = 'unexpected %s%s escapes' % (vm.cname(s, o.cls), show(o.attrs.get('args', ())))
            v = Violation(text, s, vm, 'exception')
            v.where = [o.attrs.get('__where__') or '?']
            vm.violations.append(v)
        if len(samples) < 2 and kind in ('done', 'stop'):
            p, out = s.path, []
            while p is not None:
                out.append(p[1])
                p = p[0]
            out.reverse()
            samples.append({'entry': fn, 'end': kind, 'decisions': out[:14]})
    vm.run(st, on_end)
    return dict(entry=fn, violations=[vdict(v) for v in vm.violations[:25]], nviol=len(vm.violations),
                undecided=[list(map(str, u)) for u in vm.undecided[:25]], nund=len(vm.undecided),
                covered=sorted(vm.covered), funcs=sorted('%s:%s' % k for k in vm.funcs),
                callsites=len(vm.callsites), branches=sorted(vm.branches), obligations=vm.obligations,
                states=vm.nstates, steps=vm.nsteps, merged=vm.nmerged, pruned=vm.npruned, ends=vm.ends,
                samples=samples, wall=round(time.time() - t0, 2))


def vdict(v):
    return dict(message=v.msg, kind=v.kind, where=v.where[:8], path=v.path, calls=v.calls[-40:], notes=v.notes,
                facts=v.facts[:40])


def fkey(entry, v):
    return '%s: %s' % (entry, v['message'])


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from absint.vm import VM, LoadError
    from absint import vm as V
    spec = prop.lower()
    try:
        os.remove(os.path.join(HERE, 'evidence', '%s.violation.txt' % prop))
    except OSError:
        pass
    os.environ['VERIF_TIER'] = tier
    if prop == 'C44':
        return bindings(prop, tier, seed, t0)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    results, broken = [], []
    meta = {}
    try:
        vm = VM([('spec', os.path.join(HERE, 'specs')), ('repo', repo_dir()), ('model', os.path.join(HERE, 'models'))])
        vm.tier = tier
        vm.deadline = t0 + float(os.environ.get('VERIF_BUDGET') or (780 if tier == 'quick' else 3000))
        vm.load_all([spec])
        st = vm.st0
        mod = vm.mods(st)[spec]
        attrs = st.get(mod).attrs
        entries = [n for n, v in attrs.items() if n.startswith('check_')]
        if tier != 'quick':
            entries += [n for n, v in attrs.items() if n.startswith('deep_')]
        need = tuple(attrs.get('COVER', ()))
        vm.funcs0 = dict(vm.funcs)
        VMREF[0] = vm
    except LoadError as e:
        broken.append('loading the analysed modules: %s' % e)
        entries, need = [], ()
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        broken.append('loading the analysed modules: %s: %s' % (type(e).__name__, e))
        entries, need = [], ()
    only = os.environ.get('VERIF_ONLY')
    if only:
        entries = [e for e in entries if e in only.split(',')]
    jobs = [(spec, e) for e in entries]
    if len(jobs) > 1 and not os.environ.get('VERIF_SERIAL'):
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(guarded, jobs, 1):
                results.append(r)
                if r.get('violations') and not known:
                    pool.terminate()        # decided
                    break
    else:
        for j in jobs:
            results.append(guarded(j, fork=len(jobs) > 1))
    results.sort(key=lambda r: r['entry'])
    viols, covered, funcs, branches, obl = [], set(), set(), set(), {}
    for r in results:
        if r.get('crash'):
            broken.append('%s: %s' % (r['entry'], r['crash']))
            continue
        covered.update(r['covered'])
        funcs.update(r['funcs'])
        branches.update(r['branches'])
        for k, n in r['obligations'].items():
            obl[r['entry'] + ': ' + k] = n
        for v in r['violations']:
            viols.append((r['entry'], v))
        for u in r['undecided']:
            broken.append('%s: no transfer function: %s at %s' % (r['entry'], u[0], u[2] if u[2] != 'None' else u[1]))
    if entries and not only:
        for c in need:
            if c not in covered and not viols:
                broken.append('the situation %r is no longer reached (vanished anchor)' % c)
    new, seen_known = [], {}
    for e, v in viols:
        k = next((k for k in known if k['entry'] == e and k['message'] in v['message'] and
                  all(x in ' '.join(v['where']) for x in k.get('where', []))), None)
        if k is not None:
            seen_known[k['what']] = k
        else:
            new.append((e, v))
    for w in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    wall = time.time() - t0
    print('%s: %d entries, %d abstract paths, %d functions of the library, %d branch sites, %d obligations, %.1fs' % (
        prop, len(entries), sum(r.get('states', 0) for r in results), len(funcs), len(branches), sum(obl.values()), wall))
    write_evidence(prop, tier, seed, results, funcs, branches, obl, covered, new, broken, seen_known, wall)
    if new:
        rep = os.path.join(HERE, 'evidence', '%s.violation.txt' % prop)
        write_report(rep, prop, new)
        e, v = new[0]
        print('%s: %s [%s]' % (e, v['message'], (v['where'] or ['?'])[0]))
        if os.environ.get('VERIF_DEBUG'):
            print(open(rep).read())
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if broken:
        for b in broken[:12]:
            print('ANALYSIS-BROKEN: %s' % b)
        return 2
    return 0


def bindings(prop, tier, seed, t0):
    """C44: name-binding analysis of every module"""
    from absint import names
    broken, found = [], []
    c = None
    try:
        c = names.Check(repo_dir())
        found = c.run()
        if not c.files or c.counts.get('names', 0) < 300 or not names.site_dir():
            broken.append('the modules of the library or the installed packages are no longer found (vanished anchor)')
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        broken.append('reading the modules: %s: %s' % (type(e).__name__, e))
    wall = time.time() - t0
    counts = dict(c.counts) if c else {}
    print('%s: %d modules, %s, %.1fs' % (prop, len(c.files) if c else 0, ', '.join('%d %s' % (n, k) for k, n in sorted(counts.items())), wall))
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=dict(
        explanation='binding analysis over the syntax tree and byte code of every module (nothing is executed): each use of a name, '
                    'module attribute, class attribute or own attribute must have a binding that can reach it',
        modules=[os.path.relpath(f, repo_dir()) for f in (c.files if c else ())], code_objects=c.functions if c else 0, uses_decided=counts,
        rules=['undefined name', 'unbound local', 'import', 'module attribute', 'class attribute', 'own attribute', 'attribute'],
        undecided=broken), assumptions=['what third-party modules bind is read from the sources installed in the build environment; '
                                        'the standard library is that of the interpreter of the build environment'],
        wall_s=round(wall, 2), violations=len(found))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if found:
        rep = os.path.join(HERE, 'evidence', '%s.violation.txt' % prop)
        with open(rep, 'w') as f:
            for v in found:
                f.write('%s:%s in %s: %s: %s\n' % tuple(v))
        print('%s:%s in %s: %s: %s' % tuple(found[0]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    for b in broken:
        print('ANALYSIS-BROKEN: %s' % b)
    return 2 if broken else 0


def guarded(job, fork=False):
    try:
        return run_one(job)
    except BaseException as e:
        import traceback
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
            vm = VMREF[0]
        return dict(entry=job[1], crash='%s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:]),
                    states=0)


def write_report(path, prop, new):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for e, v in new[:10]:
            f.write('property %s, obligation group %s\nRULE BROKEN: %s\n' % (prop, e, v['message']))
            f.write('at: %s\n' % ' <- '.join(str(w) for w in v['where']))
            for n in v['notes']:
                f.write('  note: %s\n' % n)
            f.write('abstract path (decisions):\n')
            for p in v['path']:
                f.write('  %s\n' % p)
            f.write('call path through the library:\n')
            for c in v['calls']:
                f.write('  %s\n' % c)
            f.write('known facts at that point:\n')
            for c in v['facts']:
                f.write('  %s\n' % c)
            f.write('\n')


def write_evidence(prop, tier, seed, results, funcs, branches, obl, covered, new, broken, known, wall):
    ok = [r for r in results if not r.get('crash')]
    levels = json.load(open(os.path.join(HERE, 'tools', 'levels.json'))) if os.path.exists(
        os.path.join(HERE, 'tools', 'levels.json')) else {}
    lv = levels.get(prop, {})
    samples = []
    for r in ok:
        samples.extend(r['samples'][:1])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=dict(
        explanation='abstract interpretation of the compiled source of /repo (never executed): every abstract path from '
                    'each entry is interpreted; each obligation must be implied by the abstract state on every path '
                    'that reaches it',
        entries=[dict(entry=r['entry'], abstract_paths=r['states'], steps=r['steps'], pruned_infeasible=r['pruned'],
                      merged=r['merged'], ends=r['ends'], obligations=sum(r['obligations'].values()),
                      seconds=r['wall']) for r in ok],
        functions_analysed=sorted(funcs), branch_sites=sorted(branches),
        obligations_discharged=obl, situations_reached=sorted(covered),
        call_edges=sum(r['callsites'] for r in ok),
        undecided=broken[:20], known_findings=sorted(known), samples=samples[:12]),
        assumptions=lv.get('assumptions', ['library models in /verif/models state what the third-party and standard '
                                           'library does']),
        wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
