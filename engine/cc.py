"""Build the C++ core from /repo/ccore: plain, or with its floating-point operations instrumented in LLVM IR."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = next((p for p in ('/usr/lib/llvm-18/bin/clang++', shutil.which('clang++') or '') if p and os.path.exists(p)), 'clang++')
FLAGS = ['-std=c++14', '-fPIC', '-w', '-include', 'limits', '-DEXPORT_PYCLUSTERING_INTERFACE', '-ffp-contract=off']

_bin = re.compile(r'^(\s*%[\w.]+ = )(fadd|fsub|fmul|fdiv|frem)((?: [a-z]+)*?) double ([^,]+), ([^,\s]+)(.*)$')
_neg = re.compile(r'^(\s*%[\w.]+ = )fneg((?: [a-z]+)*?) double ([^,\s]+)(.*)$')
_cmp = re.compile(r'^(\s*%[\w.]+ = )fcmp((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (\w+) double ([^,]+), ([^,\s]+)(.*)$')
_toi = re.compile(r'^(\s*%[\w.]+) = (fptosi|fptoui) double ([^,\s]+) to (i\d+)(.*)$')
_fn = {'sqrt': 'sqrt', 'pow': 'pow', 'exp': 'exp', 'expm1': 'expm1', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tanh': 'tanh', 'erfc': 'erfc',
       'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'fmod': 'fmod', 'fmax': 'fmax', 'fmin': 'fmin', 'atan': 'atan', 'hypot': 'hypot', 'log2': 'log2',
       'round': 'round', 'trunc': 'trunc', 'cbrt': 'cbrt', 'copysign': 'copysign',
       'llvm.fabs.f64': 'fabs', 'llvm.floor.f64': 'floor', 'llvm.ceil.f64': 'ceil', 'llvm.sqrt.f64': 'sqrt', 'llvm.pow.f64': 'pow', 'llvm.exp.f64': 'exp',
       'llvm.log.f64': 'log', 'llvm.sin.f64': 'sin', 'llvm.cos.f64': 'cos', 'llvm.maxnum.f64': 'fmax', 'llvm.minnum.f64': 'fmin', 'llvm.trunc.f64': 'trunc',
       'llvm.round.f64': 'round', 'llvm.copysign.f64': 'copysign', 'llvm.log2.f64': 'log2'}
_call = re.compile(r'@(' + '|'.join(re.escape(k) for k in sorted(_fn, key=len, reverse=True)) + r')\(')
_def_rnd = re.compile(r'^define .*? (double|i64|i32) @("?_ZSt18generate_canonicalId[\w.]*"?|"?_ZNSt24uniform_int_distributionI[a-z]EclI[\w.]*EE(?:lm|m|i|j|l|T_)?[\w.]*"?)\((.*?)\)')
_def_seed = re.compile(r'^define .*@"?_ZNSt(?:23mersenne_twister_engine|26linear_congruential_engine)[\w.]*4seedEm"?\(')
_DECLS = '\n'.join(['declare double @__sym_%s(double, double) nounwind' % n for n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'pow', 'fmax', 'fmin', 'fmod', 'hypot', 'copysign')] +
                   ['declare double @__sym_%s(double) nounwind' % n for n in ('fneg', 'sqrt', 'fabs', 'floor', 'ceil', 'exp', 'expm1', 'log', 'sin', 'cos', 'tanh', 'erfc', 'atan', 'log2', 'round', 'trunc', 'cbrt')] +
                   ['declare zeroext i1 @__sym_fcmp_%s(double, double) nounwind' % n for n in ('olt', 'ole', 'ogt', 'oge', 'oeq', 'one', 'ult', 'ule', 'ugt', 'uge', 'ueq', 'une', 'uno', 'ord')] +
                   ['declare i64 @__sym_fptosi(double) nounwind', 'declare i64 @__sym_fptoui(double) nounwind', 'declare double @__sym_rand01(ptr) nounwind', 'declare void @__sym_seed(ptr, i64) nounwind',
                    'declare i64 @__sym_randint(ptr, ptr) nounwind', 'declare i32 @__sym_randint32(ptr, ptr) nounwind'])


def instrument(text, fp=True):
    """rewrite floating-point instructions and random generators of one LLVM IR module"""
    out = []
    stats = dict(ops=0, rnd=0)
    lines = text.split('\n')
    i = 0
    n = 0
    missed = []
    while i < len(lines):
        l = lines[i]
        i += 1
        if l.startswith('define'):
            m = _def_seed.match(l)
            if m:
                out.append(l)
                if lines[i].endswith(':'):
                    out.append(lines[i])
                    i += 1
                out.append('  call void @__sym_seed(ptr %s, i64 %s)' % tuple(re.findall(r'(%[\w.]+)', l[l.index('4seedE'):l.rindex(')')])))
                continue
            m = _def_rnd.match(l)
            if m:
                # single (this, generator) call operator only; the overload with param_type is left alone
                kind, name, args = m.group(1), m.group(2), l[m.end(2):l.rindex(')')]
                argn = len(re.findall(r'\bptr\b', args))
                isreal = 'generate_canonical' in name
                if isreal or argn == 2:
                    body = []
                    while lines[i] != '}':
                        i += 1
                    i += 1
                    stats['rnd'] += 1
                    head = re.sub(r' personality ptr @\w+', '', l)
                    out.append(head)
                    names = re.findall(r'(%[\w.]+)', args)
                    if isreal:
                        out.append('  %%zz = call double @__sym_rand01(ptr %s)\n  ret double %%zz\n}' % names[0])
                    elif kind == 'i64':
                        out.append('  %%zz = call i64 @__sym_randint(ptr %s, ptr %s)\n  ret i64 %%zz\n}' % (names[0], names[1]))
                    else:
                        out.append('  %%zz = call i32 @__sym_randint32(ptr %s, ptr %s)\n  ret i32 %%zz\n}' % (names[0], names[1]))
                    continue
        if fp:
            m = _bin.match(l)
            if m:
                l = '%scall double @__sym_%s(double %s, double %s)%s' % (m.group(1), m.group(2), m.group(4), m.group(5), m.group(6))
                stats['ops'] += 1
            else:
                m = _cmp.match(l)
                if m and m.group(3) in ('true', 'false'):
                    m = None
                if m:
                    l = '%scall zeroext i1 @__sym_fcmp_%s(double %s, double %s)%s' % (m.group(1), m.group(3), m.group(4), m.group(5), m.group(6))
                    stats['ops'] += 1
                else:
                    m = _neg.match(l)
                    if m:
                        l = '%scall double @__sym_fneg(double %s)%s' % (m.group(1), m.group(3), m.group(4))
                        stats['ops'] += 1
                    else:
                        m = _toi.match(l)
                        if m:
                            n += 1
                            r, op, v, ty, rest = m.groups()
                            if ty == 'i64':
                                l = '%s = call i64 @__sym_%s(double %s)%s' % (r, op, v, rest)
                            else:
                                l = '  %%zzt%d = call i64 @__sym_%s(double %s)\n%s = trunc i64 %%zzt%d to %s%s' % (n, op, v, r, n, ty, rest)
                            stats['ops'] += 1
                        elif l.startswith('declare') and _call.search(l):
                            continue
                        elif '@' in l:
                            l = _call.sub(lambda k: '@__sym_%s(' % _fn[k.group(1)], l)
                if re.search(r'= (fadd|fsub|fmul|fdiv|fneg|fcmp) ', l) and 'double' in l and 'x86_fp80' not in l:
                    missed.append(l)
        out.append(l)
    text = '\n'.join(out) + '\n' + _DECLS + '\n'
    stats['missed'] = missed
    return text, stats


def sources():
    return sorted(glob.glob(REPO + '/ccore/src/**/*.cpp', recursive=True))


EXTRA = sorted(glob.glob(HERE + '/extra*.cpp'))


def source_hash(extra=''):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/ccore/src/**/*', recursive=True) + glob.glob(REPO + '/ccore/include/**/*', recursive=True)) + [
            HERE + '/cc.py', HERE + '/sym_rt.cpp'] + EXTRA:
        if os.path.isfile(f) and f.rsplit('.', 1)[-1] in ('cpp', 'hpp', 'h', 'py'):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def _one(args):
    src, out, fp, opt, extra = args
    ll = out + '.ll'
    r = subprocess.run([CLANG] + FLAGS + extra + ['-O1', '-Xclang', '-disable-llvm-passes', '-I', REPO + '/ccore/include', '-I', REPO + '/ccore', '-S',
                        '-emit-llvm', '-o', ll, src], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    t, st = instrument(open(ll).read(), fp)
    ll2 = out + '.i.ll'
    open(ll2, 'w').write(t)
    r = subprocess.run([CLANG, '-fPIC', '-w', '-x', 'ir', '-O1' if fp else '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-c', '-o', out, ll2], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('instrumented IR of %s does not compile:\n%s' % (src, r.stderr[-3000:]))
    os.unlink(ll)
    os.unlink(ll2)
    return st


def cache_dir():
    d = os.environ.get('VERIF_CACHE') or os.path.join(os.path.dirname(HERE), '.cache')
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        return tempfile.mkdtemp(prefix='verif-cache-')


def build(kind='sym', extra_sources=(), jobs=None):
    """kind: sym (instrumented floating point, inline threads, stubbed random generators),
             rnd (real floating point and threads, stubbed random generators), sch (the same with inline threads), plain (real code, g++)
    returns (path, stats)"""
    t0 = time.time()
    ex = ''.join(open(s).read() for s in extra_sources)
    h = source_hash(kind + ex)
    d = cache_dir()
    so = os.path.join(d, 'lib-%s-%s.so' % (kind, h))
    import json
    if os.path.exists(so):
        return so, json.load(open(so + '.json'))
    tmp = tempfile.mkdtemp(prefix='verif-build-')
    try:
        srcs = sources() + list(extra_sources)
        # entry points for classes that are not exported; left out when the classes have another interface
        for x in EXTRA:
            probe = subprocess.run([CLANG] + FLAGS + ['-fsyntax-only', '-I', REPO + '/ccore/include', '-I', REPO + '/ccore', x], capture_output=True, text=True)
            if probe.returncode == 0:
                srcs.append(x)
            else:
                sys.stderr.write(os.path.basename(x) + ' is left out:\n' + probe.stderr[-2000:] + '\n')
        jobs = jobs or max(2, os.cpu_count() or 2)
        tot = dict(tus=len(srcs), ops=0, rnd=0, missed=[])
        objs = [os.path.join(tmp, '%03d_%s.o' % (i, os.path.basename(s))) for i, s in enumerate(srcs)]
        if kind == 'plain':
            cxx = shutil.which('g++-10') or shutil.which('g++')

            def comp(a):
                s, o = a
                r = subprocess.run([cxx, '-c', '-O3', '-std=c++14', '-fPIC', '-m64', '-w', '-DEXPORT_PYCLUSTERING_INTERFACE', '-I', REPO + '/ccore/include', '-I', REPO + '/ccore', '-o', o, s]
                                   + (['-include', 'limits'] if 'g++-10' not in cxx else []), capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError('g++ failed on %s:\n%s' % (s, r.stderr[-3000:]))
            with concurrent.futures.ThreadPoolExecutor(jobs) as p:
                list(p.map(comp, zip(srcs, objs)))
            r = subprocess.run([cxx, '-shared', '-o', os.path.join(tmp, 'l.so')] + objs + ['-lpthread'], capture_output=True, text=True)
        else:
            fp = kind == 'sym'
            with concurrent.futures.ThreadPoolExecutor(jobs) as p:
                for st in p.map(_one, [(s, o, fp, '-O1', []) for s, o in zip(srcs, objs)]):
                    tot['ops'] += st['ops']
                    tot['rnd'] += st['rnd']
                    tot['missed'] += st['missed']
            if tot['missed']:
                raise RuntimeError('floating-point instructions left uninstrumented: %s' % tot['missed'][:5])
            rt = os.path.join(tmp, 'rt.o')
            subprocess.run([CLANG, '-O2', '-fPIC', '-w', '-c', '-ffp-contract=off'] + (['-DSYM_INLINE_THREADS'] if kind in ('sym', 'sch') else []) + ['-o', rt, HERE + '/sym_rt.cpp'], check=True)
            r = subprocess.run([CLANG, '-shared', '-Wl,-Bsymbolic', '-o', os.path.join(tmp, 'l.so')] + objs + [rt, '-lpthread', '-lm'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('link failed:\n' + r.stderr[-3000:])
        tot['build_s'] = round(time.time() - t0, 1)
        json.dump(tot, open(so + '.json', 'w'))
        os.replace(os.path.join(tmp, 'l.so'), so + '.tmp') if os.stat(tmp).st_dev == os.stat(d).st_dev else shutil.copy(os.path.join(tmp, 'l.so'), so + '.tmp')
        os.replace(so + '.tmp', so)
        # keep the cache small
        libs = sorted(glob.glob(d + '/lib-*.so'), key=os.path.getmtime)
        for old in libs[:-12]:
            os.unlink(old)
            if os.path.exists(old + '.json'):
                os.unlink(old + '.json')
        return so, tot
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for k in sys.argv[1:] or ['sym']:
        print(build(k))
