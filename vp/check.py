#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current source.

1. extract the functions under contract from /repo (clang AST -> WhyML), let Why3 generate the obligations and a
   portfolio of SMT solvers discharge every one of them;
2. probe every contract for vacuity (a false assertion at the end of each function must NOT be provable);
3. replay the same contracts, executable, on the real compiled code (witness search; also the bounded stand-in for
   functions outside the verifier's reach, labelled bounded and never counted as proved).
"""
import concurrent.futures
import sys, os, time, json, importlib, subprocess, shutil, tempfile, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'units'))
import prove as P
from tr import Translator
from cast import ExtractError
import props

REPO = '/repo'
T0 = time.time()


def log(*a):
    print(*a)
    sys.stdout.flush()


class Witness:
    """compile and run the executable contracts of a property against the real code"""

    def __init__(self, prop, spec, work, tier, seed):
        self.prop, self.spec, self.work, self.tier, self.seed = prop, spec, work, tier, seed
        self.procs = []
        self.result = None
        self.err = None

    def run(self):
        """returns list of (name, status, output): status ok / fail / error"""
        out = []
        for w in self.spec:
            name = w['src']
            exe = os.path.join(self.work, os.path.basename(name).replace('.cc', '') + hashlib.sha1(
                repr(w.get('flags', [])).encode()).hexdigest()[:6])
            cmd = ['clang++', '-std=c++11', '-O1', '-g', '-w', '-include', 'cstdint', '-include', 'algorithm',
                   '-I' + os.path.join(ROOT, 'witness')]
            if not w.get('nosan'):
                cmd += ['-fsanitize=' + w.get('san', 'address,undefined'), '-fno-sanitize-recover=all']
            cmd += w.get('flags', [])
            cmd += [os.path.join(ROOT, 'witness', name)] + [os.path.join(REPO, x) for x in w.get('repo', [])]
            cmd += ['-o', exe, '-lm', '-lpthread'] + w.get('libs', [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                out.append((name, 'error', 'compile: ' + p.stdout.decode(errors='replace')[:3000]))
                continue
            env = dict(os.environ)
            env['VERIF_SEED'] = str(self.seed)
            env['VERIF_TIER'] = self.tier
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
            scratch = os.path.join(self.work, 'scratch')
            os.makedirs(scratch, exist_ok=True)
            lim = w.get('time', 60) * (6 if self.tier == 'thorough' else 1)
            try:
                p = subprocess.run([exe] + w.get('args', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim, env=env,
                                   cwd=scratch, stdin=subprocess.DEVNULL)
                o = p.stdout.decode(errors='replace')
                rc = p.returncode
            except subprocess.TimeoutExpired as e:
                o = (e.stdout or b'').decode(errors='replace')
                rc = 'timeout'
            if rc == 0:
                out.append((name, 'ok', o[-1500:]))
            elif rc == 'timeout':
                # the real code did not finish where the unchanged tree does
                out.append((name, 'hang', o[-3000:]))
            else:
                out.append((name, 'fail', 'exit status %s\n%s' % (rc, o[-6000:])))
        return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return decide(prop, spec, work, tier, seed)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load_hints(unit):
    p = os.path.join(ROOT, 'hints', unit + '.json')
    try:
        return json.load(open(p))
    except Exception:
        return {}


def decide(prop, spec, work, tier, seed):
    import threading
    ev_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    budget = 640 if tier == 'quick' else 3300
    # the executable replay runs beside the proofs
    wit = Witness(prop, spec.get('witness', []), work, tier, seed)
    wres = []
    wt = threading.Thread(target=lambda: wres.extend(wit.run()))
    wt.start()
    units = []
    for mod in spec['units']:
        mname, sel = (mod.split(':') + [None])[:2]
        m = importlib.import_module(mname)
        for u in m.UNITS:
            if sel is None or u.name in sel.split(','):
                units.append(u)
    allgoals = []
    info = dict(functions=[], inlined=set(), dropped=set(), std=set(), assumptions=set(), valc=set(), extract_errors=[],
                noinv=[], role=[])
    asts = {}
    pend = []
    pool = concurrent.futures.ThreadPoolExecutor(6)
    for u in units:
        try:
            key = (u.src, tuple(u.flags))
            if key not in asts:
                from cast import AST
                asts[key] = AST(u.src, u.flags)
            tr = Translator(u, asts[key])
            mlw = tr.module()
            pend.append((u, tr, pool.submit(P.gen, mlw, os.path.join(work, u.name), transforms=u.transforms)))
        except ExtractError as e:
            info['extract_errors'].append((u.name, str(e)))
        except Exception as e:
            info['extract_errors'].append((u.name, 'internal: ' + traceback.format_exc()[-1500:]))
    for u, tr, fut in pend:
        try:
            goals = fut.result()
        except ExtractError as e:
            info['extract_errors'].append((u.name, str(e)))
            continue
        except Exception as e:
            info['extract_errors'].append((u.name, 'internal: ' + traceback.format_exc()[-1500:]))
            continue
        cnt = {}
        for g in goals:
            k = g.fn + '|' + g.expl
            cnt[k] = cnt.get(k, -1) + 1
            g.hkey = '%s|%d' % (k, cnt[k])
            g.unit = u.name
            g.probe = 'acuity probe' in g.expl
        hints = load_hints(u.name)
        for g in goals:
            g.hint = hints.get(g.hkey)
        allgoals += goals
        for c in tr.contracts:
            if c.node is None:
                continue
            (info['functions'] if c.mode == 'prove' else info['valc']).append(u.name + ':' + c.name) if c.mode == 'prove' \
                else info['valc'].add(u.name + ':' + c.name)
        info['inlined'] |= tr.inlined
        info['dropped'] |= tr.dropped
        info['std'] |= tr.stdused
        info['assumptions'] |= tr.assum
        info['assumptions'] |= set(u.assumptions)
        info['noinv'] += tr.noinv
        info['role'] += tr.role_guess
        nax = sum(1 for l in (u.prelude + u.state).split('\n') if l.strip().startswith('axiom'))
        if nax:
            info['assumptions'].add('unit %s: %d axioms over abstract symbols (stated in the unit file)' % (u.name, nax))
    del asts
    obligations = [g for g in allgoals if not g.probe]
    probes = [g for g in allgoals if g.probe]
    st = prove_all(obligations, probes, budget, wt, wres, tier)
    wt.join()
    dis = [g for g in obligations if g.status == 'proved']
    bad = [g for g in obligations if g.status != 'proved']
    # the probe of a function may be split over its (partly infeasible) paths: the contract is vacuous only if
    # every one of them is provable
    pgrp = {}
    for g in probes:
        pgrp.setdefault((g.unit, g.fn), []).append(g)
    vac = [k for k, gs in pgrp.items() if all(g.status == 'proved' for g in gs)]
    by = {}
    for g in dis:
        by[g.by] = by.get(g.by, 0) + 1
    wfail = [w for w in wres if w[1] in ('fail', 'hang')]
    werr = [w for w in wres if w[1] == 'error']
    known = known_findings(prop)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obligations), 'discharged': len(dis),
            'checker_cmd': 'python3 /verif/vp/check.py %s' % prop,
            'trusted_base': ['clang 18 AST', 'the AST -> WhyML translator /verif/vp/tr.py + stdlib.py', 'Why3 1.6.0 VC generation',
                             'SMT solvers z3 4.8.12, z3 5.x (z3-new), cvc5 1.1.2'] +
                            ['assumed contract: ' + x for x in sorted(info['valc'])] +
                            ['assumed standard-library contract: ' + x for x in sorted(info['std'])],
            'functions_under_contract': sorted(set(info['functions'])),
            'inlined_into_their_callers': sorted(info['inlined']),
            'calls_dropped_no_effect_on_property': sorted(info['dropped']),
            'discharged_by': by,
            'solver_time_s': round(sum(g.time for g in dis), 2),
            'vacuity_probes': len(pgrp), 'vacuity_probes_reachable': len(pgrp) - len(vac),
            'unproved': ['%s: %s [%s]' % (g.unit, g.fn, g.expl) for g in bad][:50],
            'bounded_replay_on_real_code': [{'harness': w[0], 'status': w[1], 'output': w[2][-600:]} for w in wres],
            'extraction_errors_bounded_standin_only': ['%s: %s' % (a, b[:400]) for a, b in info['extract_errors']],
            'loops_without_invariant': ['%s #%d' % x for x in info['noinv']],
            'renamed_locals_matched': ['%s: %s -> %s' % x for x in info['role']],
            'samples': ['%s [%s] by %s in %.2fs' % (g.fn, g.expl, g.by, g.time) for g in dis[:8]],
        },
        'assumptions': sorted(info['assumptions']) + spec.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': 0,
    }
    rc = 0
    msg = []
    rep = os.path.join(rep_dir, prop + '.txt')
    if wfail:
        w = wfail[0]
        with open(rep, 'w') as f:
            f.write('property %s violated on the real code of %s\nharness /verif/witness/%s  VERIF_SEED=%d VERIF_TIER=%s\n\n%s\n' % (
                prop, REPO, w[0], seed, tier, w[2]))
            if bad:
                f.write('\nobligations that the verifier no longer discharges:\n')
                for g in bad:
                    f.write('  %s %s [%s] %s\n' % (g.unit, g.fn, g.expl, g.detail))
        kf = [k for k in known if k['match'] in w[2]]
        if not kf:
            msg.append('VIOLATION property=%s replay=%s' % (prop, rep))
            rc = 1
    if rc == 0 and bad:
        with open(rep, 'w') as f:
            f.write('property %s: proof obligations generated from the current source that are not discharged\n' % prop)
            for g in bad:
                f.write('\n== unit %s, function %s, obligation [%s]\n   solvers: %s\n' % (g.unit, g.fn, g.expl, g.detail))
                try:
                    s = open(g.file).read()
                    f.write(s[-3000:] + '\n')
                except Exception:
                    pass
        for g in bad[:10]:
            log('unproved obligation: %s %s [%s]' % (g.unit, g.fn, g.expl))
        msg.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
        rc = 1
    if vac and rc == 0:
        log('VACUOUS contracts: %s' % vac)
        rc = 2
    if not obligations and not info['extract_errors']:
        log('no obligations generated')
        rc = rc or 2
    if info['extract_errors']:
        for a, b in info['extract_errors']:
            log('extraction failed for unit %s: %s' % (a, b))
        covered = [w for w in wres if w[1] == 'ok']
        if rc == 0 and not covered:
            rc = 2
        elif rc == 0:
            log('bounded stand-in only for the units above (no proof on this tree)')
            ev['coverage']['explanation'] = 'at least one unit could not be extracted; its functions were only checked by the bounded replay'
    if werr and rc == 0:
        for w in werr:
            log('replay harness %s: %s' % (w[0], w[2][:1500]))
        # the proof stands on its own; a harness that no longer compiles only loses the replay
        if info['extract_errors']:
            rc = 2
    ev['violations'] = 1 if rc == 1 else 0
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VP_SAVE_HINTS'):
        save_hints(allgoals)
    for k in known:
        log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    log('%s: %d/%d obligations discharged (%s), %d functions under contract, %d/%d vacuity probes reachable, replay %s, %.0fs' % (
        prop, len(dis), len(obligations), ', '.join('%s %d' % x for x in sorted(by.items())), len(set(info['functions'])),
        len(pgrp) - len(vac), len(pgrp), [(w[0], w[1]) for w in wres], time.time() - T0))
    for m in msg:
        log(m)
    return rc


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                # finding: property=ID match="..." what
                import re
                m = re.match(r'finding: property=\S+ match="([^"]*)" (.*)', l)
                out.append({'match': m.group(1), 'what': m.group(2)})
    except FileNotFoundError:
        pass
    return out


def save_hints(goals):
    by = {}
    for g in goals:
        if g.status == 'proved' and not g.probe:
            by.setdefault(g.unit, {})[g.hkey] = [g.by, round(g.time, 2)]
    os.makedirs(os.path.join(ROOT, 'hints'), exist_ok=True)
    for u, h in by.items():
        # keep only what deviates from the first-stage default
        h = {k: v for k, v in h.items() if not (v[0] == 'z3-new' and v[1] < 1.0)}
        with open(os.path.join(ROOT, 'hints', u + '.json'), 'w') as f:
            json.dump(h, f, indent=0, sort_keys=True)


def prove_all(goals, probes, budget, wt, wres, tier):
    deadline = T0 + budget
    stages = P.STAGES_QUICK
    todo = []
    for g in goals + probes:
        g.status = None
        g.detail = ''
    hinted = [g for g in goals if g.hint]
    # stage 0: hinted solver
    first = [([g.hint[0]], max(5, int(g.hint[1] * 4) + 3)) for g in hinted]
    rounds = [('hint', None)] + [('stage', s) for s in stages]
    from concurrent.futures import ThreadPoolExecutor

    def one(g, solvers, t):
        for s in solvers:
            if time.time() > deadline:
                g.detail += 'budget exhausted; '
                return
            r, dt, o = P.run_solver(s, P.solver_file(g, s), t)
            if r == 'unsat':
                g.status, g.by, g.time = 'proved', s, dt
                return
            g.time += dt
            g.detail += '%s: %s (%.1fs); ' % (s, r if r != 'error' else 'error ' + o[:100], dt)
    with ThreadPoolExecutor(8) as ex:
        # probes: short, two solvers
        def grp(gs):
            for g in gs:
                one(g, ['z3-new', 'cvc5'], 1)
                if g.status != 'proved':
                    return      # one reachable path is enough
        pgs = {}
        for g in probes:
            pgs.setdefault((g.unit, g.fn), []).append(g)
        pf = [ex.submit(grp, gs) for gs in pgs.values()]
        fs = [ex.submit(one, g, [g.hint[0]], max(5, int(g.hint[1] * 4) + 3)) for g in hinted]
        for f in fs:
            f.result()
        for i, (solvers, t) in enumerate(stages):
            rest = [g for g in goals if g.status != 'proved']
            if not rest:
                break
            if i >= 2:
                # something is hard or broken: the replay on the real code may already have the answer
                if not wt.is_alive() and any(w[1] in ('fail', 'hang') for w in wres):
                    break
                if i == 2:
                    wt.join(timeout=max(1, min(120, deadline - time.time())))
                    if any(w[1] in ('fail', 'hang') for w in wres):
                        break
            if i == 3 and len(rest) > 24:
                rest = rest[:24]
            fs = [ex.submit(one, g, solvers, t) for g in rest]
            for f in fs:
                f.result()
        for f in pf:
            f.result()
    for g in goals:
        if g.status != 'proved':
            g.status = 'unproved'
    for g in probes:
        g.status = g.status or 'reachable'


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ExtractError as e:
        print('tool error: %s' % e)
        sys.exit(2)
