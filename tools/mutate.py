#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the code under test do the checks notice?

    mutate.py list                       count mutants per function
    mutate.py run OUT.jsonl [--per N] [--seed S] [--only REGEX] [--workers W]

Works on copies of /repo under /tmp/mut only.  Not part of any registered check.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
U, S, L, M, E, EP = 'utils', 'samplers', 'solvers', 'models', 'enumerate', 'enumerate_potts'
SCOPE = [  # file, regex on the qualified name of the function, checks in the order in which to try them
    (U, r'sub_to_ind|ind_to_sub|unravel_index|multinomial|split_concat|vec2mat|mat2vec|replace_diag|zero_diag', 'C05'),
    (U, r'unique_rows|calc_overlap|pair_corr|k_corr|state_probs', 'C07'),
    (U, r'bin_states|xpotts_states|base_repr|_small_base|_large_base', 'C04'),
    (U, r'convert_params|convert_corr', 'C06'),
    (U, r'mch_approximation', 'C09'),
    (U, r'define_ising_helper|define_triplet|define_potts_helper|define_pseudo', 'C08 C09'),
    (U, r'^adj|calc_de', 'C08'),
    (U, r'coarse_grain', 'C27'),
    (E, r'logsumexp', 'C29'),
    (E, r'.*', 'C02'),
    (EP, r'.*', 'C03'),
    (S, r'^(calc_e|grad_e|grad_e_theta|pairwise_prod|sample_bonds|iter_cluster)', 'C28'),
    (S, r'^WolffIsing|iterate_neighbors', 'C10 C13'),
    (S, r'^ParallelTempering', 'C14'),
    (S, r'cond', 'C12 C13'),
    (S, r'boost', 'C11 C13 C12'),
    (S, r'^(Metropolis|_jit_sample_metropolis|Potts3|Sampler|check_e_logp|sample_ising)', 'C10 C13 C11'),
    (L, r'^Solver', 'C30 C16'),
    (L, r'^Enumerate', 'C15'),
    (L, r'^SparseEnumerate', 'C16'),
    (L, r'^MPF', 'C18 C30'),
    (L, r'^MCH\.', 'C19 C30'),
    (L, r'^SparseMCH', 'C20 C30'),
    (L, r'^Pseudo\.(?!_solve_ising_dep|cond_|pair_cooc|pseudo_log)', 'C17 C30'),
    (L, r'^ClusterExpansion', 'C21 C30'),
    (L, r'^RegularizedMeanField', 'C23 C30'),
    (M, r'.*', 'C31'),
    ('mean_field_ising', r'^(?!avgE|dmdT|specificHeat|susc|seedGenerator)', 'C22 C21'),
    ('pseudo_inverse_ising', r'^(?!testDeriv)', 'C24'),
    ('ising/utils', r'.*', 'C25'),
    ('ising/automaton', r'.*', 'C26'),
]
SKIP_NAMES = re.compile(r'iprint|print|warn|disp|verbose')


def functions(tree, prefix=''):
    """Outermost functions and methods."""
    for node in tree.body:
        if isinstance(node, ast.ClassDef):
            yield from functions(node, prefix + node.name + '.')
        elif isinstance(node, ast.FunctionDef):
            yield prefix + node.name, node


SWAP_CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
            ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
SWAP_BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.Pow: ['*'],
            ast.BitAnd: ['|'], ast.BitOr: ['&']}


def mutants(fn, src):
    """(start, end, new text, description) for text positions in src."""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        out.append((s, e, new, '%d: %s -> %s' % (n.lineno, b[s:e].decode()[:60], what)))

    def visit(n, loopvars):
        if isinstance(n, (ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.If) and SKIP_NAMES.search(seg(n.test)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and SKIP_NAMES.search(seg(n.value.func)):
            return
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    pass
            for c in n.body:
                visit(c, loopvars)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP_CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (seg(n.left), op, seg(n.comparators[0])), op)
        if isinstance(n, ast.BinOp):
            for op in SWAP_BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    break
                l, r = seg(n.left), seg(n.right)
                add(n, '(%s)%s(%s)' % (l, op, r) if '\n' not in l + r else '(%s)' % ('(%s)%s(%s)' % (l, op, r)), op)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, ' (%s)' % seg(n.operand), 'drop ' + type(n.op).__name__)
        if isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            add(n, '(' + (' %s ' % op).join(seg(v) for v in n.values) + ')', op)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), str(not v))
            elif isinstance(v, int):
                add(n, str(v + 1), str(v + 1))
                if v > 0:
                    add(n, str(v - 1), str(v - 1))
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.), 'doubled')
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, '(not (%s))' % seg(n.test), 'negated')
            add(n.test, 'True', 'True')
        if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, 'pass', 'deleted')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'deleted')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            add(n, seg(n.func.value), 'no copy')
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('ceil', 'floor', 'abs', 'sqrt', 'sort', 'conj', 'exp', 'log'):
            add(n, '(%s)' % seg(n.args[0]), 'no ' + n.func.attr)
        if isinstance(n, ast.Name) and n.id in loopvars and isinstance(n.ctx, ast.Load) and len(loopvars) > 1:
            o = [v for v in loopvars if v != n.id]
            add(n, o[n.col_offset % len(o)], 'other loop variable')
        if isinstance(n, ast.keyword) and n.arg and not isinstance(n.value, ast.Constant) and SKIP_NAMES.search(n.arg):
            return
        if isinstance(n, ast.For):
            loopvars = loopvars + [t.id for t in ast.walk(n.target) if isinstance(t, ast.Name) and t.id not in loopvars and t.id != '_']
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.JoinedStr):
                break
            visit(c, loopvars)
    visit(fn, [])
    return out


def all_mutants():
    for f in dict.fromkeys(x[0] for x in SCOPE):
        path = 'coniii/%s.py' % f
        src = open(os.path.join(REPO, path)).read()
        for q, fn in functions(ast.parse(src)):
            checks = next((c for g, rx, c in SCOPE if g == f and re.search(rx, q)), None)
            if checks is None or q.endswith('.__init__') and f in ('x',):
                continue
            good = []
            for m in mutants(fn, src):
                new = (src.encode()[:m[0]] + m[2].encode() + src.encode()[m[1]:]).decode()
                try:
                    compile(new, path, 'exec')
                except SyntaxError:
                    continue
                good.append((m, new))
            yield path, q, checks.split(), good


def main():
    a = sys.argv[1:]
    opt = lambda k, d: type(d)(a[a.index(k) + 1]) if k in a else d
    if a[0] == 'list':
        t = 0
        for path, q, c, g in all_mutants():
            print(path, q, c, len(g))
            t += len(g)
        print(t)
        return
    rng = random.Random(opt('--seed', 1))
    per, only, workers = opt('--per', 4), opt('--only', ''), opt('--workers', 2)
    done = set()
    if os.path.exists(a[1]):
        done = {(r['path'], r['what']) for r in map(json.loads, open(a[1]))}
    todo = []
    for path, q, c, g in all_mutants():
        if not re.search(only, path + ':' + q):
            continue
        g = g if len(g) <= per else rng.sample(g, per)
        todo += [(path, q, c, m[3], new) for m, new in g if (path, m[3]) not in done]
    rng.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    os.makedirs('/tmp/mut', exist_ok=True)
    vcopy = tempfile.mkdtemp(dir='/tmp/mut', prefix='verif')
    for d in ('checks', 'vh', 'check.py', 'known_findings.json'):
        s = os.path.join(V, d)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(vcopy, d))

    def work(k):
        w = tempfile.mkdtemp(dir='/tmp/mut', prefix='repo')
        subprocess.run(['cp', '-a', REPO + '/.', w], check=True)
        subprocess.run(['rm', '-rf', w + '/.git'])
        while True:
            with lock:
                if not todo:
                    break
                path, q, checks, what, new = todo.pop()
            dst = os.path.join(w, path)
            old = open(dst).read()
            open(dst, 'w').write(new)
            r = dict(path=path, func=q, what=what, killed=None)
            t = time.time()
            for c in checks:
                if not os.path.isdir(vcopy + '/checks'):
                    break
                try:
                    p = subprocess.run(['python3', 'check.py', c, '--first'], cwd=vcopy, env=dict(os.environ, VH_REPO=w), timeout=880,
                                       capture_output=True, text=True)
                    rc, o = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 'timeout', ''
                if rc != 0:
                    r['killed'] = [c, rc, next((l.strip()[:150] for l in o.split('\n') if ' fails on ' in l), '')]
                    break
            r['s'] = round(time.time() - t, 1)
            open(dst, 'w').write(old)
            with lock:
                with open(a[1], 'a') as f:
                    f.write(json.dumps(r) + '\n')
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(vcopy, ignore_errors=True)


if __name__ == '__main__':
    main()
