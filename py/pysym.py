"""A small symbolic executor for Python: the real functions run on proxies for strings and choices; every branch on a proxy
is decided by Z3 and both feasible sides are explored (depth first, by re-execution)."""
import time, z3

class Abort(BaseException): pass            # path given up: an assumption does not hold
class Unsupported(Exception): pass          # a proxy reached something that needs a real value of an unbounded domain
class Violation(Exception): pass

CUR = None                                  # the exploring context

def lift(s): return z3.StringVal(s) if isinstance(s, str) else s.e
def conc(s): return s.realise() if isinstance(s, SymStr) else s

class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return CUR.fork(self.e)
    def __eq__(self, o): return bool(self) == bool(o)
    def __invert__(self): return SymBool(z3.Not(self.e))
    __hash__ = None

class SymStr:
    """A string whose value is a Z3 term."""
    def __init__(self, e, dom=None): self.e, self.dom, self.val = e, dom, None
    def realise(self):
        if self.val is None: self.val = CUR.realise(self.e, self.dom)
        return self.val
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)): return False
        if self.val is not None and (isinstance(o, str) or o.val is not None): return self.val == conc(o)
        return SymBool(self.e == lift(o))
    def __ne__(self, o):
        r = self.__eq__(o); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return hash(self.realise())
    def __contains__(self, o): return CUR.fork(z3.Contains(self.e, lift(o)))
    def startswith(self, o, *a): return self.realise().startswith(conc(o), *a) if a or isinstance(o, tuple) else SymBool(z3.PrefixOf(lift(o), self.e))
    def endswith(self, o, *a): return self.realise().endswith(conc(o), *a) if a or isinstance(o, tuple) else SymBool(z3.SuffixOf(lift(o), self.e))
    def _cat(self, e): return SymStr(e, self.dom)
    def __add__(self, o): return self._cat(z3.Concat(self.e, lift(o))) if isinstance(o, (str, SymStr)) else NotImplemented
    def __radd__(self, o): return self._cat(z3.Concat(lift(o), self.e)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __bool__(self): return CUR.fork(z3.Length(self.e) > 0)
    def __len__(self): return len(self.realise())
    def __getitem__(self, i): return self.realise()[i]
    def __iter__(self): return iter(self.realise())
    def __str__(self): return self.realise()
    def __repr__(self): return repr(self.realise())
    def __format__(self, f): return format(self.realise(), f)
    def __mod__(self, a): return self.realise() % a
    def __lt__(self, o): return self.realise() < conc(o)
    def __gt__(self, o): return self.realise() > conc(o)
    def __le__(self, o): return self.realise() <= conc(o)
    def __ge__(self, o): return self.realise() >= conc(o)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        f = getattr(self.realise(), n)
        return lambda *a, **k: f(*[conc(x) for x in a], **k)

def unescape(v):
    import re
    return re.sub(r'\\u\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), v)

class Sym:
    """One symbolic path: follows `prefix`, then the first feasible side of every decision; the others go to `todo`."""
    def __init__(self, prefix, stats, eager=False):
        self.prefix, self.i, self.todo, self.stats, self.eager = prefix, 0, [], stats, eager
        self.s = z3.Solver(); self.s.set('timeout', 20000); self.vars = []; self.labels = []; self.failed = []; self.taken = []
    # -- solver
    def sat(self, *c):
        t = time.time(); r = self.s.check(*c); self.stats['queries'] += 1; self.stats['solver_s'] += time.time() - t
        if r == z3.unknown: self.stats['unknown'] += 1; self.stats['notes'].add('solver gave up on a branch'); raise Unsupported('unknown')
        self.stats['sat' if r == z3.sat else 'unsat'] += 1; return r == z3.sat
    def decide(self, alts):
        """alts: constraints that exclude each other and cover everything; returns the index followed."""
        if self.i < len(self.prefix): k = self.prefix[self.i]
        else:
            ok = [k for k, c in enumerate(alts) if self.sat(c)]
            if not ok: raise Abort()
            k = ok[0]
            for o in ok[1:]: self.todo.append(self.taken + [o])
            if len(ok) > 1: self.stats['forks'] += 1
        self.i += 1; self.taken.append(k); self.s.add(alts[k]); self.stats['decisions'] += 1; return k
    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.decide([c, z3.Not(c)]) == 0
    def realise(self, e, dom):
        e = z3.simplify(e)
        if z3.is_string_value(e): return unescape(e.as_string())
        for n in range(200):
            if self.i < len(self.prefix): v = self.prefix[self.i]; self.i += 1; self.taken.append(v)
            else:
                if not self.sat(): raise Abort()
                w = unescape(self.s.model().eval(e, model_completion=True).as_string())
                if self.sat(e != z3.StringVal(w)):
                    if dom is None: raise Unsupported('a string of an unbounded domain was needed as a value')
                    self.todo.append(self.taken + [('not', w)]); self.stats['forks'] += 1
                v = ('is', w); self.i += 1; self.taken.append(v)
            self.stats['decisions'] += 1
            if v[0] == 'is': self.s.add(e == z3.StringVal(v[1])); return v[1]
            self.s.add(e != z3.StringVal(v[1]))
        raise Unsupported('domain too large')
    # -- inputs
    def pick(self, name, n):
        x = z3.Int('%s!%d' % (name, len(self.vars))); self.vars.append((name, x)); return self.decide([x == k for k in range(n)])
    def bool(self, name): return self.pick(name, 2) == 1
    def str(self, name, dom=None):
        """dom: the possible values; None: every string of up to three letters a, b, c."""
        x = z3.String('%s!%d' % (name, len(self.vars))); self.vars.append((name, x))
        if dom is not None: self.s.add(z3.Or([x == z3.StringVal(d) for d in dom]))
        else: self.s.add(z3.InRe(x, z3.Loop(z3.Range('a', 'c'), 0, 3)))
        r = SymStr(x, dom or (True if self.eager else None))
        return r.realise() if self.eager else r
    def assume(self, c):
        if isinstance(c, SymBool): c = c.e
        if isinstance(c, bool):
            if not c: raise Abort()
            return
        self.s.add(c)
        if self.i >= len(self.prefix) and not self.sat(): raise Abort()
    # -- verdicts
    def check(self, c, msg):
        self.stats['asserts'] += 1
        if isinstance(c, SymBool): c = z3.simplify(c.e); c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if not isinstance(c, z3.ExprRef):
            if c: return
            if not self.sat(): raise Abort()
        else:
            self.stats['asserts_symbolic'] += 1
            if not self.sat(z3.Not(c)): self.s.add(c); self.stats['asserts_proved'] += 1; return
            self.s.add(z3.Not(c))
        self.s.check(); self.failed.append((msg, self.model())); raise Abort()
    def reach(self, l): self.labels.append(l)
    def model(self):
        m = self.s.model(); r = []
        for n, x in self.vars:
            v = m.eval(x, model_completion=True)
            r.append((n, unescape(v.as_string()) if z3.is_string(v) else v.as_long()))
        return r

class Concrete:
    """Replays a path with the inputs of a model, on the real values."""
    symbolic = False
    def __init__(self, inputs): self.inputs, self.i, self.labels = inputs, 0, []
    def nxt(self, name):
        if self.i >= len(self.inputs): raise Unsupported('replay needs more inputs than the path had')
        n, v = self.inputs[self.i]; self.i += 1
        if n != name: raise Unsupported('replay mismatch: expected %s, have %s' % (name, n))
        return v
    def pick(self, name, n): return self.nxt(name)
    def bool(self, name): return self.nxt(name) == 1
    def str(self, name, dom=None): return self.nxt(name)
    def assume(self, c):
        if not c: raise Abort()
    def check(self, c, msg):
        if not c: raise Violation(msg)
    def reach(self, l): self.labels.append(l)

def new_stats(): return dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, forks=0, decisions=0, asserts=0, asserts_symbolic=0, asserts_proved=0, paths=0, assumed_away=0, unsupported=0, labels={}, notes=set(), samples=[], cands=[], fns={})

def explore(fn, prefixes, seconds, eager=False, max_paths=None):
    """Depth first from the given prefixes; returns (stats, open prefixes)."""
    global CUR
    st = new_stats(); stack = list(prefixes); t0 = time.time(); n = 0
    while stack and time.time() - t0 < seconds and (max_paths is None or n < max_paths) and len(st['cands']) < 4:
        p = stack.pop(); v = Sym(p, st, eager); CUR = v; n += 1; done = False
        try: fn(v); done = True
        except Abort: pass
        except Unsupported as e: st['unsupported'] += 1; st['notes'].add(str(e))
        except Exception as e: st['unsupported'] += 1; st['notes'].add('harness: %r' % e)
        CUR = None
        stack += v.todo
        if v.failed: st['cands'] += v.failed
        if done:
            st['paths'] += 1
            for l in set(v.labels): st['labels'][l] = st['labels'].get(l, 0) + 1
            if len(st['samples']) < 3 and (st['paths'] & (st['paths'] - 1)) == 0:
                try:
                    if v.sat(): st['samples'].append(v.model())
                except Unsupported: pass
        elif not v.failed: st['assumed_away'] += 1
        else:
            for l in set(v.labels): st['labels'][l] = st['labels'].get(l, 0) + 1
    return st, stack

def merge(a, b):
    for k in ('queries', 'solver_s', 'sat', 'unsat', 'unknown', 'forks', 'decisions', 'asserts', 'asserts_symbolic', 'asserts_proved', 'paths', 'assumed_away', 'unsupported'): a[k] += b[k]
    for l, c in b['labels'].items(): a['labels'][l] = a['labels'].get(l, 0) + c
    a['notes'] |= b['notes']; a['cands'] += b['cands']; a['samples'] += b['samples']
    for k, c in b['fns'].items(): a['fns'][k] = a['fns'].get(k, 0) + c
