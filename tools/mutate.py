#!/usr/bin/env python3
"""Systematic mutation of the code under test, to find what the checks miss.

mutate.py FILE N SEED CHECK[,CHECK...] [WORKER]: makes N random mutants of /repo/FILE in scratch copies
(never in /repo), runs the quick checks on each until one reports a violation, and lists those no check
reports (equivalent mutants included) together with whether the repository's tests notice them."""
import ast
import os
import random
import shutil
import subprocess
import sys
import json

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def offsets(src):
    o = [0]
    for l in src.split('\n'):
        o.append(o[-1] + len(l) + 1)
    return o


def candidates(src, rng):
    tree = ast.parse(src)
    offs = offsets(src)
    lines = src.split('\n')

    def pos(l, c):
        # col offsets are utf8 bytes
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = seg(n)
        return src[a:b]
    out = []

    def add(n, new, kind):
        a, b = seg(n)
        out.append((a, b, new, kind, n.lineno))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(n.value)
    strings = [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in docs]
    cmpop = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
             ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    binop = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (text(n.left), cmpop[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + w.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                vs = n.values[:k] + n.values[k + 1:]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for v in vs) + ')', 'dropcond')
        elif isinstance(n, ast.BinOp) and type(n.op) in binop:
            add(n, '(%s) %s (%s)' % (text(n.left), binop[type(n.op)], text(n.right)), 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, '(%s)' % text(n.left), 'dropterm')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif v is None:
                pass
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                add(n, str(max(v - 1, 0)) if v != 0 else '2', 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.01), 'const')
            elif isinstance(v, str) and v:
                same = [s for s in strings if s != v and len(s) == len(v)]
                if same:
                    add(n, repr(rng.choice(same)), 'str')
                else:
                    add(n, repr(v + 'x'), 'str')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('conjugate', 'conj', 'copy', 'strip', 'lower') and not n.args:
                add(n, text(f.value), 'dropcall')
            elif isinstance(f, ast.Attribute) and f.attr in ('conj', 'copy', 'deepcopy', 'real', 'abs') and n.args:
                add(n, '(%s)' % text(n.args[0]), 'dropcall')
            elif isinstance(f, ast.Name) and f.id in ('dict', 'list', 'sorted', 'abs', 'float', 'str', 'deepcopy', 'copy', 'set') and len(n.args) == 1:
                add(n, '(%s)' % text(n.args[0]), 'dropcall')
            elif n.keywords:
                k = rng.randrange(len(n.keywords))
                args = [text(a) for a in n.args] + [('%s=' % q.arg if q.arg else '**') + text(q.value) for i, q in enumerate(n.keywords) if i != k]
                add(n, '%s(%s)' % (text(f), ', '.join(args)), 'dropkw')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple):
            e = n.slice.elts
            if len(e) >= 2:
                i, j = rng.sample(range(len(e)), 2)
                if text(e[i]) != text(e[j]):
                    t = [text(x) for x in e]
                    t[i], t[j] = t[j], t[i]
                    add(n, '%s[%s]' % (text(n.value), ', '.join(t)), 'swapidx')
        elif isinstance(n, ast.If):
            add(n.test, 'not (%s)' % text(n.test), 'negif')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(n, ast.Expr) and n.value in docs):
            add(n, 'pass', 'dropstmt')
    return out


def main():
    fn, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
    worker = sys.argv[5] if len(sys.argv) > 5 else str(os.getpid())
    rng = random.Random(seed)
    base = '/tmp/w/mut/%s' % worker
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    os.makedirs(base + '/head')
    subprocess.run('git -C %s archive HEAD | tar x -C %s/head' % (REPO, base), shell=True, check=True)
    src = open(os.path.join(base, 'head', fn), encoding='utf-8').read()
    cand = candidates(src, rng)
    rng.shuffle(cand)
    vc = base + '/verif'
    shutil.copytree(VERIF, vc, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.makedirs(vc + '/evidence')
    done = killed = 0
    surv = []
    for a, b, new, kind, line in cand:
        if done >= n:
            break
        m = src[:a] + new + src[b:]
        try:
            if ast.dump(ast.parse(m)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        rc = base + '/repo'
        shutil.rmtree(rc, ignore_errors=True)
        shutil.copytree(base + '/head', rc)
        with open(os.path.join(rc, fn), 'w', encoding='utf-8') as f:
            f.write(m)
        t = subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import wcxf, wcxf.cli'], cwd=rc, capture_output=True)
        if t.returncode:
            continue
        done += 1
        res = {}
        env = dict(os.environ, VERIF_REPO=rc)
        for c in checks:
            p = subprocess.run(['bash', vc + '/check.sh', c, 'quick'], env=env, capture_output=True, text=True)
            res[c] = p.returncode
            if p.returncode == 1:
                break
        if 1 in res.values():
            killed += 1
        if 1 not in res.values() or 2 in res.values():
            tests = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--no-header', '-k',
                                    'test_cli or test_qcd or test_wcxf'], cwd=rc, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=rc))
            s = {'file': fn, 'line': line, 'kind': kind, 'old': src[a:b][:160], 'new': new[:160], 'checks': res,
                 'testtail': tests.stdout.strip().split('\n')[-1][:100]}
            surv.append(s)
            print('SURVIVED', json.dumps(s), flush=True)
    print('%s seed %d: %d mutants, %d killed, %d survived' % (fn, seed, done, killed, len(surv)), flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
