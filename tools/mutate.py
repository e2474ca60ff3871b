#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl WORKERS SEED MAX FILE=C01,C02 ...
Every one-line mutant of FILE (a path in /repo) is applied to a scratch copy and the listed checks run on it, in order,
until one reports a violation. Works on copies of /verif and /repo under /tmp/mv; survivors are for reading."""
import sys, os, re, random, subprocess, json, multiprocessing, shutil, time
OUT, W, SEED, MAX = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
SWAPS = [('position', 'velocity'), ('velocity', 'effort'), ('effort', 'position'), ('min', 'max'), ('max', 'min'), ('start', 'stop'), ('stop', 'start'),
         ('joint', 'actuator'), ('actuator', 'joint'), ('jnt', 'act'), ('act', 'jnt'), ('lower', 'upper'), ('upper', 'lower'), ('begin', 'end'), ('first', 'second'),
         ('low', 'high'), ('high', 'low'), ('load', 'unload'), ('DONE', 'ONGOING'), ('front', 'back'), ('back', 'front'), ('absolute_position', 'torque_sensor'), ('running', 'stopped')]


def code_lines(text):
    """Yield (index, line, ends) for lines with code outside block comments."""
    blk = False
    for i, l in enumerate(text.split('\n')):
        s = l
        if blk:
            if '*/' not in s:
                continue
            s = s.split('*/', 1)[1]; blk = False
        s = re.sub(r'/\*.*?\*/', '', s)
        if '/*' in s:
            s = s.split('/*')[0]; blk = True
        s = re.sub(r'//.*', '', s)
        if s.strip():
            yield i, l


def mutants(path):
    text = open(path).read(); py = not re.search(r'\.(h|hpp|cpp)$', path)
    res = []
    for i, l in code_lines(text) if not py else [(i, l) for i, l in enumerate(text.split('\n')) if l.strip() and not l.strip().startswith('#')]:
        s = l.strip()
        if re.match(r'(#|using|namespace|template|class|struct|typedef|public|protected|private|ROS_|PLUGINLIB|assert|throw|import|from |print)', s) or 'ROS_' in s or s.startswith('<<') or s.startswith('"') or '"""' in s:
            continue
        add = lambda n, op: n != l and res.append((i, l, n, op))
        for m in re.finditer(r' (==|!=|<=|>=|<|>|&&|\|\||\+|-|\*|/|\+=|-=|and|or|in|not in) ', l):
            o = m.group(1)
            for n in {'==': ['!='], '!=': ['=='], '<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>', '<='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '+=': ['-=', '='], '-=': ['+=', '='],
                      'and': ['or'], 'or': ['and'], 'in': ['not in'] if py and not s.startswith('for') else [], 'not in': ['in']}.get(o, []):
                add(l[:m.start(1)] + n + l[m.end(1):], o + ' -> ' + n)
        for m in re.finditer(r'!(?=[a-zA-Z_(*])', l):
            add(l[:m.start()] + l[m.end():], 'drop !')
        for m in re.finditer(r'\bnot (?!in)', l) if py else []:
            add(l[:m.start()] + l[m.end():], 'drop not')
        for a, b in [('true', 'false'), ('false', 'true'), ('True', 'False'), ('False', 'True')]:
            for m in re.finditer(r'\b%s\b' % a, l):
                add(l[:m.start()] + b + l[m.end():], a + ' -> ' + b)
        for m in re.finditer(r'(?<![\w.])([012])(?![\w.])', l):
            add(l[:m.start()] + {'0': '1', '1': '0', '2': '1'}[m.group(1)] + l[m.end():], 'number')
        for m in re.finditer(r'(?<![\w.])([012]\.[05])(?![\w])', l):
            add(l[:m.start()] + {'0': '1.0', '1': '0.0', '2': '1.0'}[m.group(1)[0]] + l[m.end():], 'number')
        for m in re.finditer(r'(?<!\w)-(?=[a-zA-Z_(])', l):
            if not py: add(l[:m.start()] + l[m.end():], 'drop minus')
        if not py and re.match(r'[\w\->.:*&\[\]()]+.*;$', s) and not re.match(r'(return|const|else|throw|static|virtual|std::\w+(<.*>)? \w+;|[A-Za-z_:<>,&* ]+ \w+(\(|;| =))', s) or re.match(r'(break|continue);', s):
            add(re.match(r'\s*', l).group() + ';', 'drop statement')
        if py and re.match(r'[\w.\[\]]+(\(|\s*[-+]?= )', s) and not s.startswith(('if', 'for', 'while', 'return', 'def', 'class', 'with', 'except', 'elif')) and s.count('(') == s.count(')') and s.count('[') == s.count(']'):
            add(re.match(r'\s*', l).group() + 'pass', 'drop statement')
        if py and s in ('break', 'continue', 'return'):
            add(re.match(r'\s*', l).group() + 'pass', 'drop statement')
        m = re.match(r'(\s*(?:else )?(?:if|while) ?\()(.*)(\).*)$', l)
        if m and not py and l.count('(') == l.count(')'):
            k = m.start(2); d = 1
            for e in range(k, len(l)):
                d += {'(': 1, ')': -1}.get(l[e], 0)
                if d == 0: break
            add(l[:k] + 'false && (' + l[k:e] + ')' + l[e:], 'never')
            if 'while' not in m.group(1): add(l[:k] + 'true || (' + l[k:e] + ')' + l[e:], 'always')
        m = re.match(r'(\s*(?:if|elif) )(.*)(:)$', l)
        if m and py:
            add(m.group(1) + 'False and (' + m.group(2) + '):', 'never'); add(m.group(1) + 'True or (' + m.group(2) + '):', 'always')
        for a, b in SWAPS:
            for m in re.finditer(r'(?<![a-zA-Z])%s(?![a-z])' % a, l):
                add(l[:m.start()] + b + l[m.end():], a + ' -> ' + b)
        for m in re.finditer(r'((?:==|!=) ?[\'"])(\w+)([\'"])', l):
            add(l[:m.start()] + m.group(1) + m.group(2) + 'x' + m.group(3) + l[m.end():], 'text')
    return res


def work(args):
    k, q, out = args
    D = '/tmp/mv/%d' % k
    if not os.path.exists(D + '/repo'):
        os.makedirs(D, exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', D + '/repo'], check=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'seeded', '--exclude', '.git', '--exclude', 'evidence', '--exclude', 'build/work', '/verif/', D + '/verif/'], check=True)
    for f, checks, (i, l, n, op) in q:
        p = D + '/repo/' + f
        subprocess.run(['git', '-C', D + '/repo', 'checkout', '-q', '.'])
        t = open(p).read().split('\n'); assert t[i] == l; t[i] = n; open(p, 'w').write('\n'.join(t))
        verdict = 'SURVIVED'; by = ''; t0 = time.time()
        for c in checks:
            try:
                r = subprocess.run(['python3', 'vpcheck.py', 'check', c, 'quick'], cwd=D + '/verif', env=dict(os.environ, VP_REPO=D + '/repo', VP_FIRST='1'), capture_output=True, text=True, timeout=900)
                o = r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                verdict, by = 'timeout', c; break
            if r.returncode == 1 and 'VIOLATION' in o:
                verdict, by = 'killed', c; break
            if r.returncode != 0:
                verdict = 'compile' if 'error:' in o else 'rc%d' % r.returncode; by = c + ' ' + o[-200:] if verdict != 'compile' else c; break
            if 'ncomplete' in o:
                by += ' %s-incomplete' % c
        with open(out, 'a') as h:
            h.write(json.dumps(dict(file=f, line=i + 1, op=op, old=l.strip(), new=n.strip(), verdict=verdict, by=by, secs=round(time.time() - t0))) + '\n')
    subprocess.run(['git', '-C', D + '/repo', 'checkout', '-q', '.'])


if __name__ == '__main__':
    done = set()
    if os.path.exists(OUT):
        done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(OUT))}
    jobs = []
    for a in sys.argv[5:]:
        f, c = a.split('='); ms = mutants('/repo/' + f); seen = set(); ms2 = []
        for m in ms:
            if (m[0], m[2]) not in seen and (f, m[0] + 1, m[2].strip()) not in done: seen.add((m[0], m[2])); ms2.append(m)
        random.Random(SEED).shuffle(ms2)
        print(f, len(ms2), 'mutants'); jobs += [(f, c.split(','), m) for m in ms2[:MAX]]
    random.Random(SEED).shuffle(jobs)
    if W == 0: sys.exit()
    base = int(os.environ.get('BASE', '0'))
    ps = [multiprocessing.Process(target=work, args=((base + k, jobs[k::W], OUT),)) for k in range(W)]
    for p in ps: p.start()
    for p in ps: p.join()
