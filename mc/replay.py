#!/usr/bin/env python3
"""replay.py <property> <tier> <case> [pass]: rebuild and run one case verbosely."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
pid, tier, case = sys.argv[1], sys.argv[2], int(sys.argv[3])
cfg, args = check.passes_of(check.CHECKS[pid])[int(sys.argv[4]) if len(sys.argv) > 4 else 0]
work = tempfile.mkdtemp(prefix='vp-replay-')
try:
    os.makedirs(work + '/p0'); exe = check.build(work + '/p0', cfg)
    r = check.run_shard_(work, exe, 0, 1, tier, args, 600, tag='replay', only=case, verbose=True)
    print(open(r['out'] + '.log', errors='replace').read())
    print(r['asan']); print('rc', r['rc']); print(r['viol'])
finally:
    shutil.rmtree(work, ignore_errors=True)
