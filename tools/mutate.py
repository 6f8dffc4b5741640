"""Mutation test of the proof part: python3-vt tools/mutate.py PROP MODULE [FUNCTION ...] [--max N] [--jobs J]

Each mutant is one small change in a scratch copy of the current sources; the obligations of PROP are
generated from the copy.  Prints the mutants on which no obligation fails ("SURVIVED", to be looked at by
hand: many are equivalent) and those the translation does not reach.  Not part of any check.
"""
import ast, copy, multiprocessing, os, random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'pyvc'))
sys.setrecursionlimit(20000)
REPO = '/repo/modred'


def sites(fn):
    """list of (description, apply) for a function node; apply mutates the tree in place"""
    out = []
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    args = [a.arg for a in fn.args.args]
    local = sorted(set(args) | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    for node in ast.walk(fn):
        for field, val in ast.iter_fields(node):
            vals = val if isinstance(val, list) else [val]
            for i, v in enumerate(vals):
                def put(new, node=node, field=field, i=i, lst=isinstance(val, list)):
                    if lst:
                        getattr(node, field)[i] = new
                    else:
                        setattr(node, field, new)
                L = getattr(v, 'lineno', 0)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('conj', 'copy', 'squeeze', 'transpose'):
                    out.append(('%d: drop .%s()' % (L, v.func.attr), lambda v=v, put=put: put(v.func.value if not v.args else v.args[0])))
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'dot' and v.args:
                    def sw(v=v):
                        v.func.value, v.args[0] = v.args[0], v.func.value
                    out.append(('%d: swap dot' % L, sw))
                if isinstance(v, ast.Attribute) and v.attr == 'T' and isinstance(v.ctx, ast.Load):
                    out.append(('%d: drop .T' % L, lambda v=v, put=put: put(v.value)))
                if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
                    for d in ((1, -1) if isinstance(v.value, int) else (0.5,)):
                        out.append(('%d: constant %r -> %r' % (L, v.value, v.value + d), lambda v=v, d=d: setattr(v, 'value', v.value + d)))
                if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                    out.append(('%d: constant %r negated' % (L, v.value), lambda v=v: setattr(v, 'value', not v.value)))
                if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
                    out.append(('%d: drop minus' % L, lambda v=v, put=put: put(v.operand)))
                if isinstance(v, ast.Compare) and len(v.ops) == 1:
                    o = v.ops[0]
                    alt = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(o), [])
                    for a in alt:
                        out.append(('%d: %s -> %s' % (L, type(o).__name__, a.__name__), lambda v=v, a=a: v.ops.__setitem__(0, a())))
                if isinstance(v, ast.BinOp):
                    alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}.get(type(v.op))
                    if alt:
                        out.append(('%d: %s -> %s' % (L, type(v.op).__name__, alt.__name__), lambda v=v, alt=alt: setattr(v, 'op', alt())))
                if isinstance(v, ast.BoolOp):
                    out.append(('%d: and/or' % L, lambda v=v: setattr(v, 'op', ast.Or() if isinstance(v.op, ast.And) else ast.And())))
                if isinstance(v, ast.Name) and isinstance(v.ctx, ast.Load) and v.id in local:
                    cand = [x for x in local if x != v.id and x != 'self' and v.id != 'self']
                    random.shuffle(cand)
                    for x in cand[:2]:
                        out.append(('%d: %s -> %s' % (L, v.id, x), lambda v=v, x=x: setattr(v, 'id', x)))
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and isinstance(v.ctx, ast.Load):
                    attrs = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'} - {v.attr})
                    if attrs:
                        x = random.choice(attrs)
                        out.append(('%d: self.%s -> self.%s' % (L, v.attr, x), lambda v=v, x=x: setattr(v, 'attr', x)))
                if isinstance(v, ast.keyword) and len(getattr(node, 'keywords', [])):
                    out.append(('%d: drop keyword %s' % (getattr(v.value, 'lineno', 0), v.arg), lambda node=node, v=v: node.keywords.remove(v)))
                if isinstance(v, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Raise)) and field in ('body', 'orelse') and not (isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant)):
                    out.append(('%d: drop statement' % L, lambda put=put: put(ast.Pass())))
                if isinstance(v, ast.Call) and len(v.args) == 2 and isinstance(v.func, (ast.Attribute, ast.Name)) and not any(isinstance(a, ast.Starred) for a in v.args):
                    out.append(('%d: swap arguments' % L, lambda v=v: v.args.reverse()))
    return out


def functions(tree, want):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                if isinstance(b, ast.FunctionDef):
                    b._q = n.name + '.' + b.name
    fs = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            q = getattr(n, '_q', n.name)
            if not want or any(w == q or w == q.split('.')[0] or w == n.name for w in want):
                fs.append((q, n))
    return fs


def work(a):
    prop, mod, want, k, seed, nunits = a
    import main, run, interp
    random.seed(seed)
    src = open(os.path.join(REPO, mod + '.py')).read()
    tree = ast.parse(src)
    all_ = [(q, d, f) for q, n in functions(tree, want) for d, f in sites(n)]
    q, d, f = all_[k]
    f()
    ast.fix_missing_locations(tree)
    tmp = tempfile.mkdtemp(prefix='mut')
    try:
        for x in os.listdir(REPO):
            if x.endswith('.py'):
                shutil.copy(os.path.join(REPO, x), tmp)
        try:
            open(os.path.join(tmp, mod + '.py'), 'w').write(ast.unparse(tree))
        except Exception as e:
            return (q, d, 'skip', str(e))
        us = main.load(prop)
        us = random.sample(us, min(nunits, len(us)))
        uns = ''
        for name, fn, cfg in us:
            try:
                r = run.Run(name, fn, dict(cfg), sources=interp.Sources(tmp), seconds=60).go()
            except Exception as e:
                uns = 'engine %s %s' % (type(e).__name__, e)
                continue
            if r.failed:
                return (q, d, 'killed', r.failed[0]['name'])
            if r.unsupported:
                uns = r.unsupported[0]
        return (q, d, 'unsupported' if uns else 'SURVIVED', uns)
    finally:
        shutil.rmtree(tmp)


def main_():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('mod')
    ap.add_argument('fns', nargs='*')
    ap.add_argument('--max', type=int, default=300)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--units', type=int, default=12)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    random.seed(a.seed)
    tree = ast.parse(open(os.path.join(REPO, a.mod + '.py')).read())
    n = sum(len(sites(f)) for q, f in functions(tree, a.fns))
    ks = list(range(n))
    random.Random(a.seed).shuffle(ks)
    todo = [(a.prop, a.mod, a.fns, k, a.seed, a.units) for k in ks[:a.max]]
    cnt = {}
    with multiprocessing.get_context('fork').Pool(a.jobs, maxtasksperchild=20) as p:
        for q, d, s, info in p.imap_unordered(work, todo):
            cnt[s] = cnt.get(s, 0) + 1
            if s in ('SURVIVED', 'unsupported'):
                print(s, q, '|', d, '|', info[:160])
                sys.stdout.flush()
    print(a.prop, a.mod, a.fns, n, 'sites', cnt)


if __name__ == '__main__':
    main_()
