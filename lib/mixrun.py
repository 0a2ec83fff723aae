"""Programs of two translation units: each unit compiled by the compiler under test and by clang, every combination linked and run."""
import os
import hv
from diffrun import Diff, describe, errors, memory_clean


class Mix(Diff):
    def objs(self, a, b, d, flags='/c /no_debug /quiet'):
        """hlc objects p0.obj p1.obj; -> verdict or None"""
        for i, s in enumerate((a, b)):
            with open(f'{d}/p{i}.c', 'w', encoding='latin1') as f: f.write(s)
            r = self.h(f'p{i}.c ' + flags, d, tag=f'p{i}')
            if r.timeout: return 'hang', 'compiler: ' + r.report
            if r.crashed or r.code not in (0, 1) or 'ASSERT FIRED' in (r.text or ''): return 'crash', self.h.explain(r.report) + '\n' + (r.text or '')[-600:]
            if r.code: return 'reject', errors(r.text)
        for i in (0, 1):
            if not os.path.exists(f'{d}/p{i}.obj'): return 'crash', f'exit 0 but no p{i}.obj'
    def mix(self, a, b, d, o2=False, combos=((0, 1), (1, 0), (1, 1)), flags='/c /no_debug /quiet', direct=False, refo='-O0'):
        """-> (verdict, detail); combos: 1 = unit compiled by the compiler under test"""
        v = self.objs(a, b, d, flags)
        for i, s in enumerate((a, b)):
            with open(f'{d}/c{i}.c', 'w', encoding='latin1') as f: f.write(s)
            ok, t = hv.clang_obj(f'{d}/c{i}.c', f'{d}/c{i}.obj', [refo])
            if not ok: return 'ref', t[:600]
            if o2: hv.clang_obj(f'{d}/c{i}.c', f'{d}/o{i}.obj', ['-O2'])
        if v: return v
        ok, t = self.link([f'{d}/c0.obj', f'{d}/c1.obj'], f'{d}/c.dll')
        if not ok: return 'ref', t[:600]
        rc, oc = self.run(f'{d}/c.dll', d, 'c')
        if rc.code != 0: return 'ref', rc.report
        ref = 'o' if o2 else 'c'; n = len(oc.split())
        todo = [(f'm{x}{y}', [f'{d}/{"p" if x else ref}0.obj', f'{d}/{"p" if y else ref}1.obj'], f'unit 0 by {"hlc" if x else "clang"}, unit 1 by {"hlc" if y else "clang"}') for x, y in combos]
        if o2: todo.append(('oo', [f'{d}/o0.obj', f'{d}/o1.obj'], None))
        for tag, objs, what in todo[::-1]:
            ok, t = self.link(objs, f'{d}/{tag}.dll')
            if not ok: return ('ref' if what is None else 'link'), f'{what}: {t[:600]}'
            rh, oh = self.run(f'{d}/{tag}.dll', d, tag)
            if rh.code != 0 or sorted(oh.split('\n')) != sorted(oc.split('\n')):
                if what is None: return 'ub', ''
                if memory_clean([a, b], d) is False: return 'ub', ''
                return 'diff', f'{what}: ' + describe(rh, '\n'.join(sorted(oh.split('\n'))), '\n'.join(sorted(oc.split('\n'))))
        if direct:
            r = self.h('p0.c p1.c /dll /no_debug /quiet /out:direct.dll', d)
            if r.code != 0: return 'reject', 'direct: ' + r.report + errors(r.text)
            rh, oh = self.run(f'{d}/direct.dll', d, 'direct')
            if rh.code != 0 or sorted(oh.split('\n')) != sorted(oc.split('\n')): return 'diff', 'both units in one invocation: ' + describe(rh, '\n'.join(sorted(oh.split('\n'))), '\n'.join(sorted(oc.split('\n'))))
        return 'ok', n
    def link(self, objs, dll):
        return hv.lld(['/dll', '/noentry', '/nodefaultlib'] + objs + hv.support_obj() + ['/out:' + dll])
