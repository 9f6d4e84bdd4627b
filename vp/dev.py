#!/usr/bin/env python3
"""development driver: dev.py UNIT [-k] [-g substr] : prove one unit and print what fails"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units'))
os.environ.setdefault('VP_CACHE', '/tmp/vpcache')
import prove as P
P.CACHE = os.environ['VP_CACHE']
from tr import Translator
from cast import ExtractError


def main():
    name = sys.argv[1]
    only = None
    stages = P.STAGES_DEV
    args = sys.argv[2:]
    gen_only = '-k' in args
    if '-g' in args:
        only = args[args.index('-g') + 1]
    if '-t' in args:
        t = int(args[args.index('-t') + 1])
        stages = [(['z3-new', 'cvc5', 'z3', 'cvc5-e', 'z3-noauto', 'z3-case'], t)]
    mod = importlib.import_module(name.split(':')[0])
    units = mod.UNITS
    sel = name.split(':')[1] if ':' in name else None
    for u in units:
        if sel and u.name != sel:
            continue
        t0 = time.time()
        try:
            tr = Translator(u)
            mlw = tr.module()
        except ExtractError as e:
            print('EXTRACT', e)
            if '-x' in args:
                raise
            continue
        w = '/tmp/vpdev/' + u.name
        os.makedirs(w, exist_ok=True)
        open(w + '/m.mlw', 'w').write(mlw)
        t1 = time.time()
        try:
            goals = P.gen(mlw, w, transforms=u.transforms)
        except ExtractError as e:
            print('WHY3', e)
            continue
        print('%s: %d goals, extract %.1fs gen %.1fs; inlined %s; noinv %s' % (u.name, len(goals), t1 - t0, time.time() - t1, sorted(tr.inlined), tr.noinv))
        if gen_only:
            continue
        if only:
            goals = [g for g in goals if only in g.fn or only in g.expl or only == str(g.idx)]
        t2 = time.time()
        probes = [g for g in goals if 'acuity' in g.expl]
        goals = [g for g in goals if 'acuity' not in g.expl]
        P.prove(goals, stages=stages)
        if '-p' in args:
            P.prove(probes, stages=[(['z3-new', 'cvc5'], 1)])
            grp = {}
            for g in probes:
                grp.setdefault(g.fn, []).append(g)
            for k, gs in grp.items():
                if all(g.status == 'proved' for g in gs):
                    print('  VACUOUS', k)
        bad = [g for g in goals if g.status != 'proved']
        for g in bad:
            print('  FAIL #%d %s  [%s] line %s  %s %.1fs' % (g.idx, g.fn, g.expl, g.loc, g.detail, g.time))
        print('  %d/%d proved in %.1fs' % (len(goals) - len(bad), len(goals), time.time() - t2))


main()
