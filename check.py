#!/usr/bin/env python3
"""Driver: python3 check.py <property id> [--thorough]

Decides one property by static analysis of the current source tree (VERIF_REPO
or /repo).  Never imports or executes code of the analysed project.
Exit 0: no violation (known findings are listed); 1: violation; 2: error."""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa.oblig import Obligations, load_known, is_known   # noqa: E402
from sa.lab import AnchorMissing               # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    verbose = '-v' in sys.argv
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    O = Obligations(pid, tier)
    err = None
    from sa import par
    par.DEADLINE[0] = t0 + (3000 if thorough else 700)
    try:
        mod.run(O, thorough)
    except par.TimeUp:
        O.undecided('analysis', 'time is up')
    except AnchorMissing as e:
        err = 'anchor missing: %s' % e
        O.undecided('anchor', str(e))
    except Exception as e:      # the analysis itself gave up: what it decided so far stands
        if os.environ.get('SA_DEBUG'):
            raise
        O.undecided('analysis', '%s: %s' % (type(e).__name__, e))
    known = load_known(os.path.join(HERE, 'known_findings.json'), pid)
    outdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(outdir, 'replay'), exist_ok=True)
    viol, kf = [], []
    for v in O.violations:
        (kf if is_known(v, known) else viol).append(v)
    nob = len(O.done)
    exp = {
        'explanation': mod.RULE,
        'rule': mod.RULE,
        'obligations': nob,
        'discharged': sum(1 for d in O.done.values() if d[0] == 'ok'),
        'violated': len(O.violations),
        'undecided': len(O.undec),
        'undecided_list': O.undec[:60],
        'functions_analysed': sorted(O.functions)[:400],
        'functions_analysed_count': len(O.functions),
        'source_files': O.files,
        'samples': O.samples(8),
        'checker_cmd': 'python3 check.py %s%s' % (pid, ' --thorough' if thorough else ''),
        'trusted_base': ['sa/ abstract interpreter: Python semantics and models of the builtins/stdlib it covers',
                         'checks/%s.py: the specification tables' % pid.lower(), 'CPython %s ast parser' % sys.version.split()[0]],
        'known_findings': [v['key'] for v in kf],
        'exhaustive': False,
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': exp,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'obligations listed as undecided are not claimed to hold'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(outdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for v in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['key'], v['msg']))
    if verbose or os.environ.get('VERIF_VERBOSE'):
        for k, (s, d) in O.done.items():
            print(' %-5s %s  %s' % (s, k, d))
    if O.undec:
        print('undecided obligations: %d' % len(O.undec))
        for u in O.undec[:20]:
            print('  UNDECIDED %s: %s' % (u['key'], u['why']))
    for i, v in enumerate(viol):
        print('  %s at %s: %s' % (v['key'], v['where'], v['msg']))
    print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %.1fs' % (
        pid, nob, exp['discharged'], len(O.violations), len(kf), len(O.undec), time.time() - t0))
    if viol:
        rp = os.path.join(outdir, 'replay', pid + '.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
            f.write('\n')
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        # what the property is about is gone: no verdict possible
        print('ERROR %s' % err)
        return 2
    if exp['discharged'] == 0:
        print('ERROR nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join(3060 if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 730)
    if t.is_alive():        # end the analysis where it is; what it decided so far stands
        import ctypes
        from sa.par import TimeUp
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeUp))
        t.join()
    sys.stdout.flush()
    os._exit(rc[0])
