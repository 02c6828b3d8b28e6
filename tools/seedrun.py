#!/usr/bin/env python3
"""Runs the quick checks against the planted changes, each in a scratch copy,
and records in tools/seed_results.json which check reports which change.
usage: seedrun.py [--all-checks] [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'tools', 'seed_results.json')


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          env=dict(os.environ, **env), errors='replace',
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def one(name, every):
    d = os.path.join(HERE, 'seeded', name)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seedrun', dir='/tmp')
    try:
        repo, verif = w + '/repo', w + '/verif'
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        p = run('git apply ' + d + '/patch.diff', repo)
        if p.returncode:
            return {'error': p.stdout[-200:]}
        ids = [meta['property']]
        if every:
            ids = ['C%02d' % i for i in range(1, 33)]
        res = {'property': meta['property'], 'caught': [], 'missed': []}
        for i in ids:
            c = run('python3 check.py %s --tier quick' % i, verif,
                    VERIF_REPO=repo, VERIF_SEED='1')
            hit = c.returncode == 1 and 'VIOLATION property=%s' % i in c.stdout
            res['caught' if hit else 'missed'].append(i)
            if not hit and c.returncode:
                res['missed'].append('%s exit %d' % (i, c.returncode))
        return res
    finally:
        shutil.rmtree(w)


def main():
    every = '--all-checks' in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    names = names or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for n in names:
        r = one(n, every)
        print(n, r, flush=True)
        old = json.load(open(OUT)) if os.path.exists(OUT) else {}
        if not every and n in old and 'caught' in old[n]:
            r['caught'] = sorted(set(r['caught']) |
                                 set(old[n]['caught']) - set(r['missed']))
        old[n] = {k: v for k, v in r.items() if k != 'missed'}
        with open(OUT, 'w') as f:
            json.dump(old, f, indent=1, sort_keys=True)
            f.write('\n')


main()
