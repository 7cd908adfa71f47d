#!/usr/bin/env python3
import argparse, importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [V + '/lib', V + '/sim', V + '/checks']
import check

def load():
    out = {}
    for f in sorted(os.listdir(V + '/checks')):
        if f.startswith('c_') and f.endswith('.py'):
            m = importlib.import_module(f[:-3])
            for c in m.CHECKS:
                out[c.ID] = c
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'case', 'list'])
    ap.add_argument('what', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    a = ap.parse_args()
    cs = load()
    if a.cmd == 'list':
        for c in cs.values():
            print(c.ID, c.TITLE)
    elif a.cmd == 'replay':
        sys.exit(check.main_replay(cs, a.what))
    elif a.cmd == 'case':   # one seed, verbose
        k = check.new_kernel(check.simbuild.build())
        r = check.run_case(k, cs[a.what], a.seed, a.tier, log=True)
        print(r)
    else:
        sys.exit(check.main_check(cs[a.what], a.tier, a.seed, cases=a.cases))

if __name__ == '__main__':
    main()
