"""Why3 generates the proof obligations of a module; a portfolio of SMT solvers discharges each of them."""
import os, re, subprocess, tempfile, shutil, threading, time, hashlib, json, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
from cast import ExtractError

HERE = os.path.dirname(os.path.abspath(__file__))


class Goal:
    def __init__(self, idx, fn, expl, file, loc):
        self.idx, self.fn, self.expl, self.file, self.loc = idx, fn, expl, file, loc
        self.status = None
        self.by = None
        self.time = 0.0
        self.detail = ''

    def key(self):
        return '%s|%s' % (self.fn, self.expl)


def gen(mlw, workdir, transforms=('split_vc',), drv='cvc5.drv'):
    """run why3; return goals (each with its own .smt2 file)"""
    os.makedirs(workdir, exist_ok=True)
    save = os.path.join(workdir, 'save.sh')
    out = os.path.join(workdir, 'goals')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(save, 'w') as f:
        f.write('#!/bin/sh\nn=$(cat %s/n 2>/dev/null || echo 0)\ncp "$1" %s/$n.smt2\necho $((n+1)) > %s/n\necho unknown\n' % (out, out, out))
    os.chmod(save, 0o755)
    conf = os.path.join(workdir, 'why3.conf')
    with open(conf, 'w') as f:
        f.write('''[main]
magic = 14
memlimit = 4000
running_provers_max = 1
timelimit = 30.0

[prover]
command = "%s %%f"
driver = "%s"
name = "Dump"
shortcut = "dump"
version = "1"
in_place = false
interactive = false
''' % (save, drv))
    src = os.path.join(workdir, 'm.mlw')
    with open(src, 'w') as f:
        f.write(mlw)
    cmd = ['why3', 'prove', '-C', conf, '-P', 'dump']
    for t in transforms:
        cmd += ['-a', t]
    cmd.append(src)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    txt = p.stdout.decode(errors='replace')
    goals = []
    cur = None
    loc = None
    lines = []
    for line in txt.split('\n'):
        # why3 wraps long goal names
        if lines and re.match(r'^(Sub-goal|Goal)\b', lines[-1]) and not lines[-1].endswith('.') and line.strip():
            lines[-1] += ' ' + line.strip()
        else:
            lines.append(line)
    for line in lines:
        m = re.match(r'^File "(.*)", line (\d+), characters (.*):', line)
        if m:
            loc = int(m.group(2))
            continue
        m = re.match(r"^(?:Sub-goal|Goal)\s+(?:(.*?)\s+of goal\s+)?(\S+?)\.?$", line)
        if m and ('goal' in line or line.startswith('Goal')):
            fn = m.group(2).rstrip('.')
            fn = re.sub(r"'vc$", '', fn)
            goals.append(Goal(len(goals), fn, m.group(1) or '', None, loc))
            continue
    n = 0
    try:
        n = int(open(os.path.join(out, 'n')).read())
    except Exception:
        pass
    if n == 0 or n != len(goals):
        err = '\n'.join(l for l in txt.split('\n') if not l.startswith(('Prover result', 'Goal', 'Sub-goal')))
        m = re.search(r'line (\d+), characters', err)
        ctx = ''
        if m:
            ls = mlw.split('\n')
            k = int(m.group(1))
            ctx = '\n'.join('%5d %s' % (i + 1, ls[i]) for i in range(max(0, k - 6), min(len(ls), k + 3)))
        raise ExtractError('why3 did not accept the generated module (%d goals, %d files):\n%s\n%s' % (len(goals), n, err[-1500:], ctx))
    for g in goals:
        g.file = os.path.join(out, '%d.smt2' % g.idx)
    return goals


SOLVERS = {
    'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', f],
    'cvc5-e': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', '--enum-inst', f],
    'z3': lambda f, t: ['z3', '-T:%d' % t, f],
    'z3-new': lambda f, t: ['z3-new', '-T:%d' % t, f],
    'z3-noauto': lambda f, t: ['z3-new', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', f],
    'z3-case': lambda f, t: ['z3-new', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', 'smt.case_split=3', f],
    'z3-seed': lambda f, t: ['z3', '-T:%d' % t, 'smt.random_seed=7', 'smt.mbqi=false', f],
}
# stages: (list of solvers, time limit each)
STAGES_QUICK = [(['z3-new'], 2), (['cvc5', 'z3'], 6), (['cvc5-e', 'z3-noauto', 'z3-case'], 12),
                (['cvc5', 'z3-new', 'z3', 'z3-noauto'], 40)]
STAGES_DEV = [(['z3-new'], 2), (['cvc5', 'z3'], 5), (['cvc5-e', 'z3-noauto', 'z3-case'], 8)]


def solver_file(g, solver):
    """per-solver input: strip what the solver does not take"""
    f = g.file
    if solver.startswith('z3'):
        f2 = f[:-5] + '.z3.smt2'
        if not os.path.exists(f2):
            s = open(f).read()
            s = s.replace('(set-logic ALL)\n', '')
            s = re.sub(r'\(get-info :reason-unknown\)', '', s)
            tmp = f2 + '.%d.%d' % (os.getpid(), threading.get_ident())
            open(tmp, 'w').write(s)
            os.replace(tmp, f2)
        return f2
    return f


def run_solver(solver, f, t):
    cmd = SOLVERS[solver](f, t)
    t0 = time.time()
    try:
        p = subprocess.run(['sh', '-c', 'ulimit -v 6000000; exec "$@"', 'sh'] + cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=t + 5)
        o = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        o = 'timeout'
    dt = time.time() - t0
    first = o.strip().split('\n')[0] if o.strip() else ''
    for l in o.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'):
            first = l
            break
    if first not in ('sat', 'unsat', 'unknown', 'timeout'):
        if 'interrupted by timeout' in o or 'timeout' in o:
            first = 'timeout'
        else:
            return 'error', dt, o[:400]
    return first, dt, o[:300]


CACHE = os.environ.get('VP_CACHE')


def prove(goals, jobs=8, stages=None, hints=None, deadline=None, log=None, smoke=False):
    stages = stages or STAGES_QUICK
    cache = None
    if CACHE:
        os.makedirs(CACHE, exist_ok=True)

    def work(g):
        t0 = time.time()
        h = None
        if CACHE:
            h = os.path.join(CACHE, hashlib.sha1(open(g.file, 'rb').read()).hexdigest())
            if os.path.exists(h):
                r = json.load(open(h))
                g.status, g.by, g.time = 'proved', r['by'], r['time']
                return g
        g.detail = ''
        seq = list(stages)
        hint = (hints or {}).get(g.key())
        if hint:
            seq = [([hint[0]], max(4, int(hint[1] * 4) + 2))] + seq
        for solvers, t in seq:
            for s in solvers:
                if deadline is not None and time.time() > deadline:
                    g.status = 'unproved'
                    g.detail += 'deadline; '
                    g.time = time.time() - t0
                    return g
                r, dt, o = run_solver(s, solver_file(g, s), t)
                if r == 'unsat':
                    g.status, g.by, g.time = 'proved', s, dt
                    if h:
                        json.dump({'by': s, 'time': dt}, open(h, 'w'))
                    return g
                g.detail += '%s: %s (%.1fs); ' % (s, r if r != 'error' else 'error ' + o[:160], dt)
                if r == 'sat':
                    g.status = 'refuted'
        g.status = g.status or 'unproved'
        g.time = time.time() - t0
        return g
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(work, g) for g in goals]
        for f in as_completed(futs):
            g = f.result()
            if log and g.status != 'proved':
                log(g)
    return goals
