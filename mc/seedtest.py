#!/usr/bin/env python3
"""Development tool: try planted bugs in a private mount of a copy of /repo.
   seedtest.py [--nocheck] <id>...   For each: builds, passes the stable tests,
   demo 0 on the clean tree and non-zero with the patch, property's check says 1."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$COPY" /repo
cd /repo
git checkout -q -- . ; 
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo CLEANBUILDFAIL; exit 1; }
timeout 300 bash "$DEMO" >/tmp/demo.clean.$ID 2>&1; echo "demo clean: $?"
git apply "$PATCH" || { echo APPLYFAIL; exit 1; }
bash /opt/vp/build.sh >/tmp/build.$ID 2>&1 || { echo BUILDFAIL; tail -5 /tmp/build.$ID; exit 1; }
bash /opt/vp/test.sh /tmp/t.$ID.json >/dev/null 2>&1
python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.$ID.json'))
print('tests missing:', [x for x in b if x not in t['passed']])"
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$DEMO" >/tmp/demo.bug.$ID 2>&1; echo "demo bug: $?"
tail -2 /tmp/demo.bug.$ID
if [ -n "$CHECKS" ]; then for c in $CHECKS; do cd $V; timeout 900 python3 mc/check.py $c quick >/tmp/chk.$ID.$c 2>&1; echo "check $c: $?"; grep -A1 -m2 VIOLATION /tmp/chk.$ID.$c | cut -c1-400; [ -s /tmp/chk.$ID.$c ] || true; done; fi
'''
def main():
    a = sys.argv[1:]; nocheck = '--nocheck' in a; a = [x for x in a if not x.startswith('--')]
    copy = tempfile.mkdtemp(prefix='seedcopy-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', copy])
    try:
        for i in a:
            i, _, extra = i.partition(':')
            d = os.path.join(V, 'seeded', i); m = json.load(open(d + '/meta.json'))
            dd = tempfile.mkdtemp(prefix='seeddemo-'); 
            for f in os.listdir(d):
                if f not in ('patch.diff', 'meta.json'): shutil.copy(os.path.join(d, f), dd)
            env = dict(os.environ, COPY=copy, ID=i, DEMO=dd + '/demo.sh', PATCH=d + '/patch.diff', V=V, CHECKS='' if nocheck else (extra.replace(',', ' ') or m['property']))
            print('==', i, m['property'], flush=True)
            subprocess.call(['unshare', '-m', 'bash', '-c', INNER], env=env)
            subprocess.call(['git', '-C', copy, 'checkout', '-q', '--', '.'])
            shutil.rmtree(dd)
    finally:
        shutil.rmtree(copy)
main()
