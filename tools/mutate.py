"""Development aid: random small changes of the files of a property, and which of them its check notices.
usage: mutate.py WORKER PROP AMOUNT SEED [py|cc] [FILE-SUBSTRING]   (WORKER names scratch copies /tmp/mw<WORKER>/{verif,repo})"""
import ast, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta

w, prop, amount, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
kind = sys.argv[5] if len(sys.argv) > 5 else 'both'
sub = sys.argv[6] if len(sys.argv) > 6 else ''
base = '/tmp/mw' + w
SRC = os.environ.get('MUT_SRC', '/tmp/fixes')
if not os.path.exists(base):
    os.makedirs(base)
    subprocess.check_call(['cp', '-a', SRC, base + '/repo'])
    subprocess.check_call(['cp', '-a', '/verif', base + '/verif'])
rng = random.Random(seed)
files = [f for f in next(p for p in meta.PROPS if p['id'] == prop)['files'] if sub in f]
SKIP = re.compile(r'show_|draw|animate|visual|_plot|__str__|__repr__|__del__|print_|display')


def py_mutants(text):
    """(start, end, replacement) in characters"""
    out = []
    starts = [0]
    for l in text.split('\n'):
        starts.append(starts[-1] + len(l) + 1)
    data = text

    def pos(line, col):
        b = data[starts[line - 1]:starts[line] - 1].encode()[:col].decode()
        return starts[line - 1] + len(b)

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*']}

    def visit(n, stack):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if SKIP.search(n.name):
                return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for r in CMP.get(type(n.ops[0]), []):
                out.append((a, b, ' %s ' % r))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = data[a:b]
            for r in BIN[type(n.op)]:
                m = re.sub(r'[-+*/]+', r, mid, count=1)
                out.append((a, b, m))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            out.append((a, b, data[a:b].replace('and', 'OR').replace('or', 'and').replace('OR', 'or')))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            out.append((a, b, '(%s)' % data[span(n.operand)[0]:span(n.operand)[1]]))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            out.append((a, b, str(n.value + 1)))
            if n.value:
                out.append((a, b, '0'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            out.append((a, b, str(not n.value)))
        elif isinstance(n, (ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            out.append((a, b, 'pass'))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            a, b = span(n)
            if isinstance(n, ast.AugAssign):
                out.append((a, b, 'pass'))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
            a, b = span(n.func)
            out.append((a, b, 'max' if n.func.id == 'min' else 'min'))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c is n.args:
                continue
            visit(c, stack + [n])
    visit(ast.parse(text), [])
    return out


def cc_mutants(text):
    out = []
    clean = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    clean = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), clean)
    clean = re.sub(r'"[^"\n]*"', lambda m: ' ' * len(m.group(0)), clean)
    clean = re.sub(r'^\s*(#|template|using|namespace|throw|for \(auto)[^\n]*', lambda m: ' ' * len(m.group(0)), clean, flags=re.M)
    for m in re.finditer(r' (<=|>=|==|!=|<|>|&&|\|\||\+=|-=|\+|-|\*|/) ', clean):
        op = m.group(1)
        for r in {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+=': ['-=', '='], '-=': ['+='], '+': ['-'], '-': ['+'], '*': ['/', '+'], '/': ['*']}[op]:
            line = text[text.rfind('\n', 0, m.start()) + 1:text.find('\n', m.end())]
            if op in '*<>' and re.search(r'const|static_cast|\* (const )?\w+[,);]', line) and not re.search(r'\bif\b|while|for', line):
                if op == '*' and not re.search(r'=|return', line):
                    continue
            out.append((m.start(), m.end(), ' %s ' % r))
    for m in re.finditer(r'(?<![\w.])(\d+(\.\d+)?)(?![\w.])', clean):
        v = m.group(1)
        out.append((m.start(), m.end(), str(float(v) + 1) if '.' in v else str(int(v) + 1)))
        if float(v):
            out.append((m.start(), m.end(), '0.0' if '.' in v else '0'))
    for m in re.finditer(r'\b(true|false)\b', clean):
        out.append((m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true'))
    for m in re.finditer(r'^[ \t]+(m_\w+|[\w.]+)[\w\[\]().>-]*( [-+*/]?= |\.push_back|\.insert|\.erase|\.clear|\.swap|\.pop_back)[^;{}\n]*;', clean, re.M):
        out.append((m.start(), m.end(), '    ;'))
    for m in re.finditer(r'\b(break|continue);', clean):
        out.append((m.start(), m.end(), ';'))
    return out


pool = []
for f in files:
    iscc = not f.endswith('.py')
    if kind == 'py' and iscc or kind == 'cc' and not iscc:
        continue
    t = open(os.path.join(base, 'repo', f), newline='').read()
    ms = cc_mutants(t) if iscc else py_mutants(t)
    rng.shuffle(ms)
    pool.append((f, iscc, t, ms))
pool = [x for x in pool if x[3]]
weights = [len(x[3]) ** 0.6 for x in pool]
done = 0
while done < amount and pool:
    f, iscc, t, ms = rng.choices(pool, weights)[0]
    if not ms:
        break
    a, b, r = ms.pop()
    path = os.path.join(base, 'repo', f)
    new = t[:a] + r + t[b:]
    if not iscc:
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            continue
    line = t.count('\n', 0, a) + 1
    l0, l1 = t.rfind('\n', 0, a) + 1, t.find('\n', b)
    if 'ccore' in t[l0:l1] and 'ccore' not in sub:
        continue
    desc = '%s %s:%d  %s  =>  %s' % (prop, f, line, ' '.join(t[l0:l1].split()), ' '.join((t[l0:a] + r + t[b:l1]).split()))
    open(path, 'w', newline='').write(new)
    t0 = time.time()
    env = dict(os.environ, VERIF_REPO=base + '/repo', VERIF_TIER='quick')
    env['VERIF_ONLY'] = 'cc' if iscc else 'py'
    env.setdefault('VERIF_JOBS', '3')
    try:
        p = subprocess.run(['./run.py', 'check', prop], cwd=base + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        o, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired:
        o, rc = '', 'timeout'
    finally:
        open(path, 'w', newline='').write(t)
    if 'error:' in o and iscc and rc not in (0, 1):
        continue        # does not compile
    res = 'CAUGHT' if rc == 1 and 'VIOLATION property=' + prop in o else 'survived rc=%s' % rc
    if res != 'CAUGHT' and 'INCOMPLETE' in o:
        res += ' INC ' + o[o.index('INCOMPLETE'):].split('\n')[0][:150]
    print('%-10s %4.0fs %s' % (res, time.time() - t0, desc), flush=True)
    done += 1
