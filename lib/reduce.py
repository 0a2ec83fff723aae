"""Developer tool: shrink a failing program while `keep(src)` stays true."""
import re
from concurrent.futures import ThreadPoolExecutor


def reduce(src, keep, log=None, workers=8):
    def first(cands):
        with ThreadPoolExecutor(workers) as ex:
            cands = list(cands)
            for i in range(0, len(cands), workers):
                for c, ok in zip(cands[i:i + workers], ex.map(keep, cands[i:i + workers])):
                    if ok: return c
        return None
    changed = True
    while changed:
        changed = False
        # lines
        n = max(1, len(src.split('\n')) // 2)
        while n >= 1:
            L = src.split('\n'); i = 0
            while i < len(L):
                batch = [(i + k * n) for k in range(workers) if i + k * n < len(L)]
                c = first('\n'.join(L[:b] + L[b + n:]) for b in batch)
                if c is not None: src = c; L = src.split('\n'); changed = True
                else: i += n * workers
            n //= 2
        # brace groups, outermost first: drop the lines of a group, or only its opening and closing lines
        again = True
        while again:
            again = False; L = src.split('\n'); st = []; grp = []
            for k, l in enumerate(L):
                for ch in l:
                    if ch == '{': st.append(k)
                    elif ch == '}' and st: grp.append((st.pop(), k))
            grp = sorted({g for g in grp if g[1] > g[0]}, key=lambda g: g[0] - g[1]); cands = []
            for a, b in grp:
                cands += ['\n'.join(L[:a] + L[b + 1:]), '\n'.join(L[:a] + L[a + 1:b] + L[b + 1:]), '\n'.join(L[:a] + [L[a][L[a].rfind('{'):]] + L[a + 1:]), '\n'.join(L[:a + 1] + L[b:])]
            c = first([c for c in cands if len(c) < len(src)])
            if c is not None: src = c; again = changed = True
        # parenthesised subexpressions
        prog = True
        while prog:
            prog = False; spans = []; st = []
            for k, ch in enumerate(src):
                if ch == '(': st.append(k)
                elif ch == ')' and st: spans.append((st.pop(), k + 1))
            spans.sort(key=lambda s: s[0] - s[1])
            cands = []
            for a, b in spans:
                body = src[a + 1:b - 1]
                if a and (src[a - 1].isalnum() or src[a - 1] == '_'): 
                    continue
                for rep in ('1', '0', body) if len(body) > 2 else (body,):
                    if rep != src[a:b]: cands.append(src[:a] + rep + src[b:])
                m = re.match(r'^(\(.*\)|[\w.\[\]>-]+) (\S+) (.*)$', body, re.S)
                if m: cands += [src[:a] + m.group(1) + src[b:], src[:a] + m.group(3) + src[b:]]
            cands = [c for c in cands if len(c) < len(src)][:400]
            c = first(cands)
            if c is not None: src = c; prog = changed = True
    return src
