#!/usr/bin/env python3
"""Development aid, not a check: small random changes to copies of the repository, to find out what the checks miss.

  python3 tools/mutate.py OUT.jsonl [--per-file N] [--jobs N] [--seed N] [--file PREFIX] 

Every change is made in a scratch copy (of /repo and of /verif, so that evidence and replays stay as they are); the checks
that FILES names for the file run until one reports a violation; the stable tests then run on what no check reports.
"""
import argparse
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'dedop/proc/sar/algorithms/'
CHAIN = 'C17 C18'
FILES = {
    'dedop/proc/geo/ecef2lla.py': 'C01', 'dedop/proc/geo/lla2ecef.py': 'C01', 'dedop/proc/geo/normalize.py': 'C01',
    'dedop/proc/functions': 'C06 C08 C15',
    'dedop/conf/auxiliary_file_reader.py': 'C02', 'dedop/conf/auxiliary_parameter.py': 'C02', 'dedop/conf/characterization.py': 'C02',
    'dedop/conf/configuration.py': 'C02', 'dedop/conf/constants.py': 'C02', 'dedop/conf/enums': 'C02',
    'dedop/data/input': 'C03 C04 C25 C17', 'dedop/model/l1a_processing_data.py': 'C03 C08 C17', 'dedop/model/surface_data.py': 'C24 C06 C10 C17 C21',
    'dedop/model': 'C03 C17 C23',
    A + 'surface_locations.py': 'C06 C07 C24 C17', A + 'beam_angles.py': 'C08 C17', A + 'azimuth_processing.py': 'C09', A + 'stack_gathering.py': 'C10 C17',
    A + 'geometry_corrections.py': 'C11', A + 'range_compression.py': 'C12', A + 'stack_masking.py': 'C13', A + 'multilooking.py': 'C14 C15 C17',
    A + 'sigma_zero_scaling.py': 'C16', 'dedop/proc/sar/cal': 'C05', 'dedop/proc/sar/processor.py': 'C17 C18 C19 C20 C25 C04 C05',
    'dedop/data/output/l1b_writer.py': 'C21 C22 C24 C25', 'dedop/data/output/l1bs_writer.py': 'C23 C24 C25', 'dedop/data/output': 'C21 C22 C23 C17 C19',
    'dedop/ui/workspace_manager.py': 'C26 C27 C29 C28 C30 C31 C32 C39', 'dedop/ui/inspect.py': 'C35', 'dedop/ui/compare.py': 'C35', 'dedop/ui/figurewriter.py': 'C35',
    'dedop/cli/main.py': 'C30 C31 C38', 'dedop/webapi': 'C32', 'dedop/util/monitor.py': 'C33', 'dedop/util/config.py': 'C34', 'dedop/util/time.py': 'C25 C24',
}
SWAPS = [('lat', 'lon'), ('x_', 'y_'), ('y_', 'z_'), ('start', 'stop'), ('prev', 'curr'), ('left', 'right'), ('min', 'max'), ('first', 'last'), ('roll', 'pitch'),
         ('pitch', 'yaw'), ('source', 'target'), ('old', 'new'), ('workspace_name', 'config_name'), ('days', 'seconds'), ('sin', 'cos'), ('_all', '_surf')]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '+', ast.Mod: '+', ast.Pow: '*'}


def mutants(text):
    """[(start, end, replacement, kind)] in characters"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    base = [0]
    for l in lines:
        base.append(base[-1] + len(l))

    def pos(line, col):
        return base[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    functions = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)]
    seen = set()
    for f in functions:
        for n in ast.walk(f):
            if id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                out.append((a, b, ' %s ' % CMP[type(n.ops[0])], 'compare'))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', None), str):
                a, b = span(n.left)[1], span(n.right)[0]
                mid = text[a:b]
                new = re.sub(r'\*\*|//|[-+*/%]', BIN[type(n.op)], mid, count=1)
                if new != mid:
                    out.append((a, b, new, 'operator'))
            elif isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                mid = text[a:b]
                out.append((a, b, mid.replace('and', '%').replace('or', 'and').replace('%', 'or'), 'boolean'))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append(span(n) + (str(not n.value), 'constant'))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                for d in (1, -1):
                    out.append(span(n) + (repr(n.value + d) if isinstance(n.value, int) else repr(n.value * (1 + .1 * d) + (0.01 if not n.value else 0)), 'constant'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                a, b = span(n)
                out.append((a, span(n.operand)[0], '', 'unary'))
            elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
                a, b = span(n.test)
                out.append((a, b, 'not (%s)' % text[a:b], 'negate'))
            elif isinstance(n, ast.Slice):
                for part, what in ((n.lower, 'lower'), (n.upper, 'upper')):
                    if part is not None:
                        a, b = span(part)
                        out.append((a, b, '(%s) + 1' % text[a:b], 'slice'))
            elif isinstance(n, (ast.Attribute, ast.Name)):
                a, b = span(n)
                name = n.attr if isinstance(n, ast.Attribute) else n.id
                for x, y in SWAPS:
                    for p, q in ((x, y), (y, x)):
                        new = re.sub('(^|_)' + p, lambda m: m.group(1) + q, name, count=1)
                        if new != name and re.search(r'\b%s\b' % new, text):
                            out.append((b - len(name), b, new, 'name'))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and n not in doc:
                out.append(span(n) + ('pass', 'statement'))
            elif isinstance(n, (ast.Break, ast.Continue)):
                out.append(span(n) + ('pass', 'statement'))
    good = []
    for a, b, new, kind in out:
        t = text[:a] + new + text[b:]
        if t == text:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((a, b, new, kind))
    return good


def targets(repo):
    for root, _, names in os.walk(os.path.join(repo, 'dedop')):
        for n in sorted(names):
            p = os.path.relpath(os.path.join(root, n), repo)
            if n.endswith('.py'):
                best = max((k for k in FILES if p.startswith(k)), key=len, default=None)
                if best:
                    yield p, FILES[best].split()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per-file', type=int, default=20)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--file', default='')
    args = ap.parse_args()
    work = tempfile.mkdtemp(prefix='mutants-', dir='/tmp')
    jobs = []
    for p, checks in targets('/repo'):
        if args.file not in p:
            continue
        with open(os.path.join('/repo', p), newline='') as f:
            text = f.read()
        ms = mutants(text)
        random.Random('%s%d' % (p, args.seed)).shuffle(ms)
        jobs += [(p, text, m, checks) for m in ms[:args.per_file]]
    done = set()
    if os.path.exists(args.out):
        done = {json.loads(l)['id'] for l in open(args.out)}
    random.Random(args.seed).shuffle(jobs)
    local, lock = threading.local(), threading.Lock()

    def one(job):
        p, text, (a, b, new, kind), checks = job
        if not hasattr(local, 'dir'):
            local.dir = tempfile.mkdtemp(dir=work)
            shutil.copytree('/repo', local.dir + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
            shutil.copytree(VERIF, local.dir + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        key = hashlib.sha1(('%s%d%d%s' % (p, a, b, new)).encode()).hexdigest()[:10]
        if key in done:
            return
        target = os.path.join(local.dir, 'repo', p)
        line = text[:a].count('\n') + 1
        rec = {'id': key, 'file': p, 'line': line, 'kind': kind, 'old': text[text.rfind('\n', 0, a) + 1:(text + '\n').find('\n', b)].strip(), 'new': None, 'by': None}
        t = text[:a] + new + text[b:]
        rec['new'] = t[t.rfind('\n', 0, a) + 1:(t + '\n').find('\n', a + len(new))].strip()
        with open(target, 'w', newline='') as f:
            f.write(t)
        env = dict(os.environ, VERIF_REPO=local.dir + '/repo', VERIF_SHARDS='1', VERIF_SHRINK='1')
        try:
            for c in checks:
                try:
                    r = subprocess.run(['python3', 'run.py', c], cwd=local.dir + '/verif', env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    rec['by'] = c + ' (timeout)'
                    break
                if r.returncode == 1:
                    rec['by'] = c
                    break
                if r.returncode:
                    rec.setdefault('broken', []).append(c + ': ' + (r.stderr or r.stdout)[-300:])
            if rec['by'] is None:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', '--ignore=tests/cli', '--ignore=tests/webapi'], cwd=local.dir + '/repo',
                                   env=dict(os.environ, PYTHONPATH=local.dir + '/repo', PYTHONDONTWRITEBYTECODE='1', HOME=local.dir, MPLBACKEND='Agg'), capture_output=True, text=True)
                rec['tests'] = r.stdout.strip().splitlines()[-1:] if r.stdout else r.stderr[-200:]
        finally:
            with open(target, 'w', newline='') as f:
                f.write(text)
        with lock, open(args.out, 'a') as f:
            f.write(json.dumps(rec) + '\n')
    try:
        with cf.ThreadPoolExecutor(args.jobs) as ex:
            for _ in ex.map(one, jobs):
                pass
    finally:
        shutil.rmtree(work, True)


main()
