# sub.py FILE COMMIT-MESSAGE-less helper: python3 sub.py FILE <<< "old\n====\nnew"  (several blocks separated by a line of ####)
import sys
p=sys.argv[1]; s=open(p).read()
for blk in sys.stdin.read().split("\n####\n"):
    a,b=blk.split("\n====\n") if "\n====\n" in blk else (blk.split("\n====")[0],"")
    b=b.rstrip("\n") if blk.endswith("\n") else b
    assert s.count(a)==1,(p,s.count(a),a)
    s=s.replace(a,b,1)
open(p,'w').write(s)
