"""Developer tool: shrink a file: shr.py file.c [verdict]"""
import sys; sys.path.insert(0, '/verif/lib')
import dev
from diffrun import Diff
import cgen, hv
src = open(sys.argv[1], encoding='latin1').read(); D = Diff(); _c = D.compare; import re; D.compare = lambda src, d, **k: _c(src, d, ref_src=re.sub(r"(?<=[0-9a-fA-F])'(?=[0-9a-fA-F])", '', src) if 'bytes(' in src else src); d = hv.newdir(); v, t = D.compare(src, d); print(v, t)
def fmt(s):
    i = s.find('enum en'); i = i if i > 0 else s.find('EXPORT u64 t_'); h, b = s[:i], s[i:]
    o = ''; p = 0; q = None
    for ch in b:
        if q: 
            if ch == q: q = None
        elif ch in '"': q = ch
        elif ch == '(': p += 1
        elif ch == ')': p -= 1
        o += ch
        if not q and p == 0 and ch in ';{}:': o += '\n'
    return h + o
src = fmt(src)
if v in ('diff','crash','reject','hang'):
    q = dev.shrink(D, src, v, sys.argv[2] if len(sys.argv) > 2 else None); open('/tmp/shr.c','w',encoding='latin1',newline='').write(q); print(D.compare(q, d))
