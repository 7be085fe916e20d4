#!/usr/bin/env python3
"""run.py <property> [--replay FILE]   (tier from VERIF_TIER)"""
import sys, os, json, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, HERE + '/../engine']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import harness

def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--replay' in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        run = harness.Run(pid, tier)
        try:
            m = importlib.import_module(pid.lower())
            r = m.replay(run, f) if hasattr(m, 'replay') else run.replay(f['case'], f['inputs'], 0, 4)
            print(json.dumps(r, indent=1, default=str))
            return 1 if r else 0
        finally: run.cleanup()
    mod = importlib.import_module(pid.lower())
    return (mod.main if hasattr(mod, 'main') else lambda t: harness.standard(pid, t))(tier)

if __name__ == '__main__':
    sys.exit(main())
