# addcheck.py ID DRIVER[,DRIVER..] TECHNIQUE RULE NOTE  -- registers a check (drivers default to flavor asan)
import sys
FL=sys.argv[6] if len(sys.argv)>6 else 'asan'
cid, drv, tech, rule, note = sys.argv[1:6]
p='/verif/harness/checks.py'; s=open(p).read()
ins=''
for d in drv.split(','):
    if f"    '{d}': dict(" not in s: ins+=f"    '{d}': dict(flavor='{FL}', sources=['{d}.cpp']),\n"
chk=f"""    '{cid}': dict(drivers={drv.split(',')!r},
                technique={tech!r},
                rule={rule!r},
                note={note!r}),
"""
assert f"    '{cid}': dict(" not in s
s=s.replace("}\nCHECKS = {\n",ins+"}\nCHECKS = {\n"+chk,1)
open(p,'w').write(s)
