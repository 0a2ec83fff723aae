"""Shared machinery: builds of the code under test, the loader servers, the verdict/evidence discipline."""
import os, sys, json, time, hashlib, subprocess, threading, tempfile, shutil, queue, random, re, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
WORK = os.path.join(VERIF, '_work')
SDKLIB = '/opt/hlc/sdk/Lib/10.0.1.0'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 1)
CLANG, LLD = 'clang-18', 'lld-link-18'
WIN = '--target=x86_64-pc-windows-msvc'
RS = '\x1f'


def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.STDOUT); kw.setdefault('timeout', 600)
    return subprocess.run(cmd, **kw)


class BuildError(Exception):
    pass


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(open(p, 'rb').read()); continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f); h.update(os.path.relpath(q, p).encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()[:20]


_lock = threading.Lock(); _wlock = threading.Lock()


def _cached(name, key, make):
    """Build products live in _work/<name>-<key>/; a stale one of the same name is dropped."""
    os.makedirs(WORK, exist_ok=True)
    import fcntl
    with _lock, open(os.path.join(WORK, name + '.lock'), 'w') as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        d = os.path.join(WORK, f'{name}-{key}')
        if os.path.exists(os.path.join(d, 'ok')):
            return d
        for x in os.listdir(WORK):
            if x.startswith(name + '-') and os.path.isdir(os.path.join(WORK, x)) and len(x) == len(name) + 1 + len(key):
                shutil.rmtree(os.path.join(WORK, x), ignore_errors=True)
        t = d + '.tmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        make(t); open(os.path.join(t, 'ok'), 'w').close(); os.rename(t, d)
        return d


def must(r, what):
    if r.returncode:
        raise BuildError(what + ':\n' + (r.stdout or b'').decode(errors='replace')[-3000:])


def peload():
    rt = os.path.join(VERIF, 'rt')
    def make(t):
        must(sh([CLANG, '-O1', '-g', '-fno-omit-frame-pointer', '-w', '-o', t + '/peload', rt + '/peload.c', '-lpthread', '-lm']), 'peload')
    return _cached('peload', tree_hash(rt + '/peload.c', rt + '/unwind.h'), make) + '/peload'


HLC_CFLAGS = [WIN, '-mcx16', '-g', '-gcodeview', '-w', '-Wno-error=implicit-function-declaration', '-fms-extensions', '-fno-strict-aliasing', '-ffast-math', '-D_Debug']
HLC_LINK = ['/nologo', '/heap:0,0', '/stack:0x100000,0x100000', '/opt:ref', '/nodefaultlib', '/entry:_start', '/subsystem:console',
            f'/libpath:{SDKLIB}/um/x64', f'/libpath:{SDKLIB}/ucrt/x64', 'advapi32.lib', 'kernel32.lib', 'ucrt.lib']
VARIANTS = {
    'plain': (['-O0'], []),
    'cov':   (['-O0', '-fsanitize-coverage=trace-pc-guard'], ['rt_cov.c']),
    'asan':  (['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=address', '-mllvm', '-asan-stack=1', '-mllvm', '-asan-use-after-return=never'], ['rt_asan.c']),
    'ubsan': (['-O1', '-fno-omit-frame-pointer', '-fsanitize=bounds,shift-exponent,integer-divide-by-zero,unreachable,return,bool,vla-bound', '-fsanitize-minimal-runtime', '-fsanitize-recover=all'], ['rt_ubsan.c']),
}


def build_hlc(variant='plain'):
    """Compile the compiler under test from the current tree; returns the directory holding bin/hlc.exe and bin/implicit."""
    flags, rts = VARIANTS[variant]
    rt = [os.path.join(VERIF, 'rt', r) for r in rts]
    key = hashlib.sha256((tree_hash(REPO + '/src', *rt, *( [VERIF + '/rt/vrt.def'] if rt else [])) + repr(flags) + repr(HLC_CFLAGS) + repr(HLC_LINK) + REPO).encode()).hexdigest()[:20]
    def make(t):
        os.makedirs(t + '/bin'); os.symlink(REPO + '/implicit', t + '/bin/implicit')
        objs = [t + '/hlc.obj']
        must(sh([CLANG] + HLC_CFLAGS + flags + ['-c', REPO + '/src/main.c', '-o', t + '/hlc.obj'], timeout=800), 'hlc ' + variant)
        extra = []
        for r in rt:
            o = t + '/' + os.path.basename(r) + '.obj'; must(sh([CLANG, WIN, '-O2', '-w', '-c', r, '-o', o]), r); objs.append(o)
        if rt:
            must(sh(['llvm-dlltool-18', '-m', 'i386:x86-64', '-d', VERIF + '/rt/vrt.def', '-l', t + '/vrt.lib']), 'vrt.lib'); extra = [t + '/vrt.lib']
        lk = [x.replace('/entry:_start', '/entry:vrt_start') for x in HLC_LINK] if rt else HLC_LINK
        must(sh([LLD] + objs + [f'/out:{t}/bin/hlc.exe', f'/pdb:{t}/bin/hlc.pdb', '/debug'] + lk + extra), 'link ' + variant)
        os.unlink(t + '/hlc.obj')
    return _cached('hlc_' + variant, key, make)


class Result:
    __slots__ = ('report', 'wall', 'cpu', 'stats', 'text', 'job')
    @property
    def code(self):
        """process exit code, or None when it did not exit by itself"""
        return int(self.report[5:]) if self.report.startswith('exit ') else None
    @property
    def crashed(self):
        return not self.report.startswith('exit ') and not self.report.startswith('WALLTIMEOUT') and not self.report.startswith('CPULIMIT')
    @property
    def timeout(self):
        return self.report.startswith('WALLTIMEOUT') or self.report.startswith('CPULIMIT')
    def __repr__(self):
        return f'<{self.report} wall={self.wall} cpu={self.cpu}>'


class Server:
    def __init__(self, image):
        self.image = image; self.start()
    def start(self):
        self.p = subprocess.Popen([peload(), 'server', self.image or '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = b''
    def _line(self):
        while b'\n' not in self.buf:
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d: raise EOFError('server died')
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1); return l.decode(errors='replace')
    def ask(self, line):
        try:
            self.p.stdin.write(line.encode('latin1') + b'\n'); return self._line()
        except (EOFError, BrokenPipeError):
            self.close(); self.start()
            self.p.stdin.write(line.encode('latin1') + b'\n'); return self._line()
    def close(self):
        try: self.p.kill(); self.p.wait(); self.p.stdin.close(); self.p.stdout.close()
        except Exception: pass


class Pool:
    """n loader servers with the given image mapped; run() is thread-safe and blocks for a free server."""
    def __init__(self, image=None, n=NCPU):
        peload()
        self.image = image; self.q = queue.LifoQueue(); self.servers = [Server(image) for _ in range(n)]
        for s in self.servers: self.q.put(s)
        atexit.register(self.close); self.totals = {}; self.jobs = 0; self.tl = threading.Lock()
    def run(self, kind='run', image='-', cwd='/', out='', cpu=20, wall=60, opts=None, cmd=''):
        o = ';'.join(f'{k}={v}' for k, v in (opts or {}).items())
        line = RS.join([kind, image, cwd, out, str(cpu), str(wall), o, cmd])
        assert '\n' not in line
        s = self.q.get()
        try: a = s.ask(line)
        finally: self.q.put(s)
        r = Result(); f = a.split(RS); r.report = f[0]; r.wall = float(f[1]); r.cpu = float(f[2]); r.stats = dict(x.split('=') for x in f[3].split(';')); r.job = line
        with self.tl:
            self.jobs += 1
            for k, v in r.stats.items():
                if k == 'order': continue
                if k == 'maxrss': self.totals[k] = max(self.totals.get(k, 0), int(v))
                else: self.totals[k] = self.totals.get(k, 0) + int(v)
        r.text = None
        if out:
            try: r.text = open(out, 'rb').read().decode('latin1')
            except OSError: r.text = ''
        return r
    def coverage(self):
        """edges of the instrumented image hit by any job of this pool, and the number of edges"""
        hit = None; n = 0
        for i, s in enumerate(self.servers):
            p = os.path.join(scratch(), f'guards{i}'); s.ask('dumpguards ' + p); b = open(p, 'rb').read(); n = max(n, len(b) - 1)
            x = int.from_bytes(b, 'little') if len(b) > 1 else 0; hit = x if hit is None else hit | x
        return (bin(hit or 0).count('1'), n)
    def close(self):
        for s in self.servers: s.close()


_scratch = None
def scratch():
    global _scratch
    if not _scratch:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and shutil.disk_usage('/dev/shm').free > (1 << 30) else None
        _scratch = tempfile.mkdtemp(prefix='hv_', dir=base); atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

_n = 0
def newdir(tag='d'):
    global _n
    with _lock: _n += 1; k = _n
    d = os.path.join(scratch(), f'{tag}{k}'); os.makedirs(d); return d


class Hlc:
    """The compiler under test, run by the loader."""
    def __init__(self, variant='plain', n=NCPU, image=None):
        self.dir = build_hlc(variant) if image is None else None
        self.exe = image or self.dir + '/bin/hlc.exe'; self.pool = Pool(self.exe, n); self.variant = variant
        self.pdb = self.exe[:-4] + '.pdb'
    def __call__(self, args, cwd, cpu=20, wall=60, opts=None, tag='hlc'):
        o = dict(opts or {})
        if self.variant == 'asan': o.setdefault('stack', 0x1000000)
        if self.variant == 'ubsan': o.setdefault('stack', 0x400000)
        out = os.path.join(cwd, f'.{tag}.out')
        return self.pool.run('run', '-', cwd, out, cpu, wall, o, 'hlc.exe ' + args)
    def sym(self, rva):
        r = sh(['llvm-symbolizer-18', '--obj=' + self.exe, '--relative-address', '--functions=linkage', hex(rva)])
        return ' '.join(r.stdout.decode(errors='replace').split()[:2])
    def explain(self, report):
        m = re.search(r'rva=([0-9a-f]+)', report); s = report
        if m:
            s += ' @ ' + self.sym(int(m.group(1), 16))
            st = re.search(r'stack:((?: [0-9a-f]+)*)', report)
            if st: s += ' <- ' + ' <- '.join(self.sym(int(x, 16) - 1).split(' ')[0] for x in st.group(1).split()[:8])
        return s


SUPPORT = r'''
int _fltused = 0x9875;
void *memcpy(void *a, const void *b, unsigned long long n){ unsigned char *d = a; const unsigned char *s = b; while(n--) *d++ = *s++; return a; }
void *memmove(void *a, const void *b, unsigned long long n){ unsigned char *d = a; const unsigned char *s = b; if(d < s) while(n--) *d++ = *s++; else while(n--) d[n] = s[n]; return a; }
void *memset(void *a, int c, unsigned long long n){ unsigned char *d = a; while(n--) *d++ = (unsigned char)c; return a; }
int memcmp(const void *a, const void *b, unsigned long long n){ const unsigned char *d = a; const unsigned char *s = b; while(n--){ if(*d != *s) return *d < *s ? -1 : 1; d++; s++; } return 0; }
'''
CHK = '''
.text
.globl __chkstk
__chkstk:
  ret
'''


def support_obj():
    key = hashlib.sha256((SUPPORT + CHK).encode()).hexdigest()[:20]
    def make(t):
        open(t + '/s.c', 'w').write(SUPPORT); open(t + '/k.s', 'w').write(CHK)
        must(sh([CLANG, WIN, '-O1', '-fno-builtin', '-c', t + '/s.c', '-o', t + '/s.obj']), 'support'); must(sh([CLANG, WIN, '-c', t + '/k.s', '-o', t + '/k.obj']), 'support')
    d = _cached('support', key, make); return [d + '/s.obj', d + '/k.obj']


CLANG_REF = ['-O0', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off', '-fms-extensions', '-fms-compatibility', '-w', '-fno-builtin', '-std=c11', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types']


def clang_obj(src, obj, flags=()):
    r = sh([CLANG, WIN] + CLANG_REF + list(flags) + ['-c', src, '-o', obj], timeout=120)
    return r.returncode == 0, (r.stdout or b'').decode(errors='replace')


def lld(args, cwd=None):
    r = sh([LLD, '/nologo'] + args, cwd=cwd, timeout=120); return r.returncode == 0, (r.stdout or b'').decode(errors='replace')


def clang_dll(src, dll, flags=()):
    obj = dll[:-4] + '.ref.obj'; ok, t = clang_obj(src, obj, flags)
    if not ok: return False, t
    return lld(['/dll', '/noentry', '/nodefaultlib', obj] + support_obj() + ['/out:' + dll])


_wine = None
def wine_env():
    """a Wine prefix of this check's own (the registry is copied, drive C is the installed one), or None when Wine does not work here"""
    global _wine
    with _wlock:
        if _wine is None:
            p = os.path.join(scratch(), 'wine'); os.makedirs(p + '/dosdevices'); src = '/opt/hlc/prefix'; _wine = {}
            try:
                reg = '/opt/hlc/prefix.reg' if os.path.isdir('/opt/hlc/prefix.reg') else src
                for f in os.listdir(reg):
                    if f.endswith('.reg'): shutil.copy(reg + '/' + f, p)
                shutil.copy(src + '/.update-timestamp', p); os.symlink(src + '/drive_c', p + '/dosdevices/c:'); os.symlink('/', p + '/dosdevices/z:')
                e = {k: v for k, v in os.environ.items() if k != 'DISPLAY'}
                e.update(WINEPREFIX=p, WINEDEBUG='-all', WINEARCH='win64', WINEDLLOVERRIDES='mscoree,mshtml=;winemenubuilder.exe=d')
                def control(t):
                    open(t + '/w.c', 'w').write('__declspec(dllimport) void ExitProcess(unsigned); void start(void){ ExitProcess(77); }\n')
                    must(sh([CLANG, WIN, '-O1', '-c', t + '/w.c', '-o', t + '/w.obj']), 'wine control')
                    must(sh([LLD, '/nologo', t + '/w.obj', '/nodefaultlib', '/entry:start', '/subsystem:console', f'/libpath:{SDKLIB}/um/x64', 'kernel32.lib', f'/out:{t}/w.exe']), 'wine control')
                x = _cached('winecontrol', '1', control); subprocess.run(['wineserver', '-p60'], env=e, timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                atexit.register(lambda: subprocess.run(['wineserver', '-k'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
                if subprocess.run(['wine', x + '/w.exe'], env=e, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL).returncode == 77: _wine = e
            except Exception: pass
    return _wine or None


def wine(exe, args=(), cwd=None, timeout=60):
    """(exit status, standard output) of a program on Wine, None when Wine does not work or the program does not end"""
    e = wine_env()
    if not e: return None
    try: p = subprocess.run(['wine', exe] + list(args), env=e, cwd=cwd, timeout=timeout, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: return None
    return p.returncode, p.stdout.decode('latin1').replace('\r\n', '\n')


class Known:
    def __init__(self, prop):
        self.keys = {}
        try:
            for l in open(VERIF + '/known-findings.txt'):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == prop: self.keys[m.group(2)] = m.group(3).strip()
        except OSError: pass


class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop; self.level = level; self.t0 = time.time(); self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.known = Known(prop); self.known_seen = {}; self.viol = []; self.samples = []; self.c = {}; self.distinct = set(); self.evals = 0; self.rule = ''; self.assume = []; self.lk = threading.Lock(); self.inconclusive = 0
        self.quick = TIER != 'thorough'
        self.replay_root = os.path.join(VERIF, '_work', 'replay', prop); shutil.rmtree(self.replay_root, ignore_errors=True)
    def left(self, total):
        return total - (time.time() - self.t0)
    def n(self, quick, thorough):
        s = float(os.environ.get('HV_SCALE', '1')); return max(1, int((quick if self.quick else thorough) * s))
    def count(self, k, n=1):
        with self.lk: self.c[k] = self.c.get(k, 0) + n
    def case(self, key=None, n=1):
        """one evaluation; key identifies what makes it distinct and non-trivial"""
        with self.lk:
            self.evals += n
            if key is not None: self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:8])
    def sample(self, s, cap=6):
        with self.lk:
            if len(self.samples) < cap: self.samples.append(s if not isinstance(s, str) else s[:1500])
    def violation(self, key, text, files=None):
        """key names the specific input/case; listed ones are known findings"""
        with self.lk:
            if key in self.known.keys:
                if key not in self.known_seen:
                    self.known_seen[key] = 1; print(f'KNOWN-FINDING: property={self.prop} {self.known.keys[key]}', flush=True)
                return
            n = len(self.viol); self.viol.append(key)
            if n >= int(os.environ.get('HV_MAXVIOL', '12')): return
            d = os.path.join(self.replay_root, f'{n:02d}'); os.makedirs(d, exist_ok=True)
            open(d + '/what.txt', 'w', errors='replace').write(f'property {self.prop}  seed {SEED}  case {key}\n\n{text}\n')
            for name, data in (files or {}).items():
                if isinstance(data, str): data = data.encode('latin1', errors='replace')
                open(os.path.join(d, os.path.basename(name)), 'wb').write(data)
            print(f'VIOLATION property={self.prop} replay={d}', flush=True)
            print('  ' + key + ': ' + text[:600].replace('\n', '\n  '), flush=True)
    def map(self, fn, items, workers=NCPU):
        """run fn over items on worker threads; an exception in a worker is an error of the check"""
        with ThreadPoolExecutor(workers) as ex:
            for _ in ex.map(fn, items): pass
    def finish(self, extra=None):
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule, 'samples': self.samples or ['(none)'], 'inconclusive': self.inconclusive}
        cov.update(self.c); cov.update(extra or {}); cov['known_findings_seen'] = sorted(self.known_seen)
        ev = {'property': self.prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop}: {"VIOLATED" if self.viol else "held"} evaluations={self.evals} distinct={len(self.distinct)} violations={len(self.viol)} {round(time.time()-self.t0,1)}s ' + ' '.join(f'{k}={v}' for k, v in list(self.c.items())[:14]), flush=True)
        if self.evals == 0 and not self.viol:
            print('no evaluations: inconclusive'); sys.exit(3)
        sys.exit(1 if self.viol else 0)


def main(fn, prop, level='exploration'):
    c = Check(prop, level)
    try:
        fn(c)
    except BuildError as e:
        print('build failed: ' + str(e)[-2000:]); sys.exit(4)
    c.finish()
