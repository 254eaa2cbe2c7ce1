#!/usr/bin/env -S python3-vt
"""check.py P01 [--tier quick|thorough]   decide one property;   check.py --replay FILE   run a recorded counterexample again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core, props
def replay(path):
    d = json.load(open(path)); core.build_engine(); run = core.Run(d['property'], 'quick', 1)
    try:
        f = d['finding']; j = dict(h=d['harness'], flags=d.get('flags', []), cfg=d['cfg'], wild=(1, 3))
        if 'omega' in f: c = props.confirm_spec(run, j, f['kind'], f['omega'])
        elif d['property'] == 'P23' and d['harness'] == 'build': c = props.confirm_build(run, dict(h='build', cfg=d['cfg']), dict(h='build', cfg=d['cfg'], flags=d['flags'], o2=d.get('optimised')), dict(f, xs=d.get('xs', [])))
        elif f.get('kind') == 'variant': props.build_variants(run, False); print('\n'.join(w['native_output'] for _, w in run.violations)); return 1 if run.violations else 0
        elif f.get('kind') == 'contraction':
            c = None
            for s in range(1, 4):
                rc, out, cmd = run.native(run.compile_native('decay'), j, {}, seed=s)
                if 'FAIL' in out or rc < 0: c = (out, cmd); break
        elif 'cat' in f: c = run.confirm_event(j, f)
        else: c = run.confirm_fail(j, f)
        if c: print('REPRODUCED\n' + c[0]); return 1
        print('not reproduced on the current tree'); return 0
    finally: run.close()
def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    core.build_engine(); run = core.Run(prop, tier, seed)
    try:
        bounds, assume = props.PROPS[prop](run, tier != 'thorough')
        run.validate(12 if tier == 'quick' else 40)
        return run.finish('model_checking', bounds, props.BASE + assume)
    except Exception:
        traceback.print_exc(); print('%s: internal error' % prop)
        for path, w in run.violations: print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if run.violations else 2
    finally: run.close()
if __name__ == '__main__': sys.exit(main())
