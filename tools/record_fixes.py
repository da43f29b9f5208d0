# record_fixes.py PROPERTY [COUNT]  -- append the newest COUNT /repo commits as fixed entries of PROPERTY
import subprocess, sys
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
log = subprocess.check_output(['git','-C','/repo','log','-%d' % n,'--format=%h %s'], text=True).strip().split('\n')
with open('/verif/known-findings.txt','a') as f:
    for l in reversed(log):
        h, m = l.split(' ', 1)
        f.write(f'fixed: property={pid} {h} ' + m.replace('fix: ', '', 1) + '\n')
