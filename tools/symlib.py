"""Builds the encoded program and its native twin from /repo's current tree, runs symex, replays."""
import json, os, subprocess, shutil, time, glob, re, collections, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
DEFS = ['-DNDEBUG', '-DJSON_HAS_THREE_WAY_COMPARISON=0', '-DFMT_DEPRECATED_OSTREAM', '-DFMT_CONSTEVAL=']
IRF = ['-std=c++20', '-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DBOOST_EXCEPTION_DISABLE', '-DBOOST_DATE_TIME_NO_LIB', '-w'] + DEFS
SRC = ['reader', 'column', 'types', 'encodings', 'exceptions']
class BuildError(Exception): pass
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    if p.returncode: raise BuildError(' '.join(map(str, cmd))[:300] + '\n' + p.stdout[-4000:])
    return p.stdout
class Build:
    def __init__(self, work):
        self.w = work; self.pool = cf.ThreadPoolExecutor(8); self.lock = threading.Lock(); self.fut = {}
        inc = work + '/inc/cppsas7bdat'; os.makedirs(inc, exist_ok=True)
        v = re.sub(r'@PROJECT_VERSION@', '1.0.0', re.sub(r'@PROJECT_VERSION_[A-Z]*@', '1', open(R + '/include/cppsas7bdat/version.hpp.in').read()))
        open(inc + '/version.hpp', 'w').write(v)
        self.I = ['-I' + V + '/harness/stubs', '-I' + work + '/inc', '-I' + R + '/include', '-I' + R + '/src', '-I' + R + '/apps', '-I' + V + '/harness']
    def once(self, key, f):
        with self.lock:
            if key not in self.fut: self.fut[key] = self.pool.submit(f)
            return self.fut[key]
    def tu(self, kind, src, out, extra=()):
        o = f'{self.w}/{out}'
        if kind == 'bc': cmd = ['clang++'] + IRF + ['-emit-llvm'] + list(extra) + self.I + ['-c', src, '-o', o]
        elif kind == 'nat': cmd = ['g++', '-std=c++20', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-DSYM_NATIVE'] + DEFS + list(extra) + self.I + ['-c', src, '-o', o]
        return self.once(out, lambda: (sh(cmd), o)[1])
    def bitcode(self, h):
        """futures for the objects; returns path of the linked module"""
        x = ['-D' + d for d in h.get('defs', [])] + [i.replace('@V', V).replace('@R', R) for i in h.get('flags', [])]
        objs = [self.tu('bc', f'{V}/harness/{h["file"]}.cpp', f'h_{h["id"]}.bc', x)]
        for s in h.get('src', SRC): objs.append(self.tu('bc', f'{R}/src/{s}.cpp', f'{s}.bc'))
        rf = bool(h.get('real_fmt'))
        objs.append(self.tu('bc', f'{V}/harness/support.cpp', f'support{int(rf)}.bc', ['-fno-builtin'] + (['-DREAL_FMT'] if rf else [])))
        if rf: objs.append(self.tu('bc', f'{V}/harness/fmt_real.cpp', 'fmt_real.bc', ['-fno-builtin']))
        if h.get('ios'):
            objs.append(self.tu('bc', f'{V}/harness/ios_support.cpp', 'ios_support.bc', ['-fno-builtin']))
            objs.append(self.tu('bc', f'{V}/harness/cout_support.cpp', 'cout_support.bc'))
        objs.append(self.once('support_c.bc', lambda: (sh(['clang', '-O1', '-fno-builtin', '-fno-vectorize', '-w', '-emit-llvm', '-c', V + '/harness/support_c.c', '-o', self.w + '/support_c.bc']), self.w + '/support_c.bc')[1]))
        paths = [o.result() for o in objs]
        a, b = f'{self.w}/{h["id"]}.0.bc', f'{self.w}/{h["id"]}.bc'
        sh([LLVM + 'llvm-link'] + paths + ['-o', a])
        sh([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=main', a, '-o', b])
        return b
    def native(self, h):
        x = ['-D' + d for d in h.get('defs', [])] + [i.replace('@V', V).replace('@R', R) for i in h.get('flags', [])]
        objs = [self.tu('nat', f'{V}/harness/{h["file"]}.cpp', f'h_{h["id"]}.o', x + ['-Dmain=harness_main_cpp'])]
        for s in h.get('src', SRC): objs.append(self.tu('nat', f'{R}/src/{s}.cpp', f'{s}.o'))
        objs.append(self.tu('nat', V + '/harness/native_rt.cpp', 'native_rt.o'))
        paths = [o.result() for o in objs]
        b = f'{self.w}/{h["id"]}.nat'
        sh(['g++', '-fsanitize=address'] + paths + ['-o', b, '-lfmt', '-lstdc++'])
        return b
def run_native(binp, hexin, args, timeout=20, fill=0xA5):
    env = dict(os.environ, ASAN_OPTIONS=f'malloc_fill_byte={fill}')
    try: p = subprocess.run([binp, hexin] + [f'{k}={v}' for k, v in args.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return {'rc': 'timeout', 'obs': [], 'fail': None, 'out': ''}
    out = p.stdout.decode(errors='replace'); obs = []; fail = None; finds = []
    for l in out.split('\n'):
        if l.startswith('OBS '): k, v = l[4:].rsplit('\t', 1); obs.append([k, v])
        elif l.startswith('CHECKFAIL '): fail = l[10:]
        elif l.startswith('FINDING '): finds.append(l[8:])
    return {'rc': p.returncode, 'obs': obs, 'fail': fail, 'finds': finds, 'out': out[-2000:], 'err': p.stderr.decode(errors='replace')[-6000:]}
def confirms(v, r):
    """does native result r reproduce violation v?"""
    if v['kind'] == 'check': return r['fail'] == v['msg'] or r['rc'] in (12, 13) or (isinstance(r['rc'], int) and r['rc'] < 0)
    if v['kind'] == 'memory': return r['rc'] == 12 or (isinstance(r['rc'], int) and r['rc'] < 0) or r['rc'] == 10
    if v['kind'] == 'terminate': return r['rc'] in (12, 13) or (isinstance(r['rc'], int) and r['rc'] < 0)
    if v['kind'] == 'hang': return r['rc'] == 'timeout'
    return False
def run_symex(bc, args, outdir, jobs, tlimit, opts=()):
    os.makedirs(outdir, exist_ok=True)
    cmd = [V + '/build/symex', bc, '--out', outdir, '--jobs', str(jobs), '--time', str(tlimit)] + list(opts)
    for k, v in args.items(): cmd += ['--arg', f'{k}={v}']
    t0 = time.time()
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tlimit * 1.5 + 90); rc, so = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e: rc, so = -9, 'killed'
    r = {'n': collections.Counter(), 'covers': collections.Counter(), 'inconclusive': collections.Counter(), 'checks': collections.Counter(), 'viol': [], 'find': {}, 'samples': [], 'functions': set(), 'rc': rc, 'out': so[-1500:], 'wall': time.time() - t0, 'solver_max_s': 0}
    for f in glob.glob(outdir + '/r.*.json'):
        try: d = json.load(open(f))
        except Exception: r['n']['crashed'] += 1; continue
        for k, v in d.items():
            if isinstance(v, (int, float)): r['n'][k] += v
        r['solver_max_s'] = max(r['solver_max_s'], d['solver_max_s'])
        r['covers'].update(d['covers']); r['inconclusive'].update(d['inconclusive']); r['checks'].update(d['checks_by_id'])
        r['viol'] += d['violations']; r['samples'] += d['samples']; r['functions'].update(d['functions'])
        for x in d.get('findings', []): r['find'].setdefault(x['id'], x)
    return r
