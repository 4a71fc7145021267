"""Shared generators and reference models: expressions, distributions, networks, statistics.

Nothing here calls the code under test."""
import borrow  # noqa
import math
import re
from hypothesis import strategies as st
from core import Discard

# ------------------------------------------------------------------ expressions
# ['num', v] ['var', name] ['bin', op, a, b] ['neg', a] ['cmp', op, a, b] ['if', c, a, b] ['call', fn, [args]]

PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '**': 4}


def show(e, sp='', paren=False):
    """Text of an expression"""
    k = e[0]
    if k == 'num':
        s = repr(e[1])
        return '({})'.format(s) if e[1] < 0 or paren else s
    if k == 'var':
        return '({})'.format(e[1]) if paren else e[1]
    if k == 'neg':
        return '(-{})'.format(show(e[1], sp, paren) if e[1][0] in ('num', 'var', 'call') else '({})'.format(show(e[1], sp, paren)))
    if k in ('bin', 'cmp'):
        def side(x, right):
            s = show(x, sp, paren)
            if x[0] in ('bin', 'cmp', 'neg'):
                if not paren and k == 'bin' and x[0] == 'bin':
                    p, q = PREC[e[1]], PREC[x[1]]
                    if p != 4 and (q > p or (q == p and not right)):
                        return s
                return '({})'.format(s)
            return s
        return '{}{}{}{}{}'.format(side(e[2], False), sp, e[1], sp, side(e[3], True))
    if k == 'call':
        return '{}({})'.format(e[1], (',' + sp).join(show(a, sp, paren) for a in e[2]))
    raise ValueError(k)


def _fin(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, complex) or x != x or abs(x) > 1e9:
        raise Discard()
    return x


def _erf(x):
    return math.erf(x)


def _safe(f):
    def g(*xs):
        try:
            return f(*xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Discard()
    return g


REF_FUNC = {
    'hypot': (2, lambda a, b: math.sqrt(a * a + b * b)), 'exp': (1, math.exp), 'log': (1, math.log),
    'sin': (1, math.sin), 'cos': (1, math.cos), 'tan': (1, math.tan), 'ceil': (1, math.ceil), 'floor': (1, math.floor),
    'sqrt': (1, math.sqrt), 'abs': (1, lambda a: a if a >= 0 else -a), 'erf': (1, _erf), 'pow': (2, lambda a, b: a ** b),
    'logit': (1, lambda p: math.log(p / (1 - p))), 'expit': (1, lambda x: 1 / (1 + math.exp(-x))),
    'ifelse': (3, lambda c, a, b: a if c else b), 'step': (4, lambda k, c, a, b: a if k < c else b),
    'max': (2, max), 'min': (2, min),
}


def ev(e, env):
    """Reference value of an expression (Discard out of the real, finite domain)"""
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'var':
        return env[e[1]]
    if k == 'neg':
        return -ev(e[1], env)
    if k == 'bin':
        a, b = ev(e[2], env), ev(e[3], env)
        op = e[1]
        if op == '+':
            return _fin(a + b)
        if op == '-':
            return _fin(a - b)
        if op == '*':
            return _fin(a * b)
        if op == '/':
            if abs(b) < 1e-6:
                raise Discard()
            return _fin(a / b)
        if op == '**':
            if abs(b) > 6 or abs(a) < 1e-6 or (a < 0 and b != int(b)):
                raise Discard()
            return _fin(float(a) ** b if b < 0 else a ** b)
    if k == 'cmp':
        a, b = ev(e[2], env), ev(e[3], env)
        if a != b and abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)):
            raise Discard()
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[e[1]]
    if k == 'call':
        args = [ev(a, env) for a in e[2]]
        if e[1] in ('ceil', 'floor') and args[0] != round(args[0]) and abs(args[0] - round(args[0])) < 1e-9:
            raise Discard()
        if e[1] == 'step' and args[0] != args[1] and abs(args[0] - args[1]) < 1e-9 * (1 + abs(args[0])):
            raise Discard()
        if e[1] == 'tan' and abs(math.cos(args[0])) < 1e-3:
            raise Discard()
        if e[1] in ('sin', 'cos', 'tan') and abs(args[0]) > 1e4:
            raise Discard()
        if e[1] == 'logit' and not 1e-9 < args[0] < 1 - 1e-9:
            raise Discard()
        if e[1] == 'expit' and abs(args[0]) > 100:
            raise Discard()
        if e[1] in ('log', 'sqrt') and args[0] < 1e-9:
            raise Discard()
        if e[1] == 'pow' and (abs(args[1]) > 6 or abs(args[0]) < 1e-6 or (args[0] < 0 and args[1] != int(args[1]))):
            raise Discard()
        return _fin(_safe(REF_FUNC[e[1]][1])(*args))
    raise ValueError(k)


def evars(e):
    k = e[0]
    if k == 'num':
        return set()
    if k == 'var':
        return {e[1]}
    if k == 'neg':
        return evars(e[1])
    if k in ('bin', 'cmp'):
        return evars(e[2]) | evars(e[3])
    return set().union(*[evars(a) for a in e[2]])


def efuncs(e):
    k = e[0]
    if k in ('num', 'var'):
        return set()
    if k == 'neg':
        return efuncs(e[1])
    if k in ('bin', 'cmp'):
        return efuncs(e[2]) | efuncs(e[3])
    return set().union({e[1]}, *[efuncs(a) for a in e[2]])


def close_sd(x, y, m, rel=1e-7, tol=1e-8):
    """Standard deviations of a law around m; far from 0 the digits of the squares are lost"""
    return close(x, y, rel, tol) or abs(x * x - y * y) <= rel * y * y + 1e-13 * m * m


def close(a, b, rel=1e-9, ab=1e-9):
    try:
        if a == b:
            return True
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


nums = st.one_of(st.integers(0, 12), st.sampled_from([0.5, 0.25, 1.5, 2.75, 0.1, 3.2, 10.0, 100, 0.01]))


DIGITS = [1 / 3, 0.1 + 0.2, 123456789, 1234567.890625, 1e-07, 2 ** 0.5]
NUMS = [0, 1, 2, 3, 4, 5, 7, 9, 12, 0.5, 0.25, 1.5, 2.75, 0.1, 3.2, 10.0, 100, 0.01]


def decode(codes, names, funcs):
    """Postfix decoding of numbers to an expression tree"""
    stack = []
    names = list(names)

    def leaf(c):
        if names and c % 3:
            return ['var', names[(c // 3) % len(names)]]
        return ['num', NUMS[(c // 3) % len(NUMS)]]

    for c in codes:
        kind, r = c % 8, c // 8
        if kind < 4 or not stack:
            stack.append(leaf(r))
        elif kind == 4 and funcs:
            f = funcs[r % len(funcs)]
            r //= len(funcs)
            n = REF_FUNC[f][0]
            args = [stack.pop() for _ in range(min(n, len(stack)))]
            while len(args) < n:
                args.append(leaf(r + 7 * len(args)))
            if f == 'ifelse':
                args[0] = ['cmp', ['<', '<=', '>', '>=', '==', '!='][r % 6], args[0], leaf(r // 6)]
            stack.append(['call', f, args])
        elif kind == 5 and r % 3 == 0:
            stack.append(['neg', stack.pop()])
        else:
            b = stack.pop()
            a = stack.pop() if stack else leaf(r // 9)
            if r % 2:
                a, b = b, a
            stack.append(['bin', ['+', '-', '*', '/', '+', '-', '*', '/', '**'][r % 9], a, b])
    e = stack.pop()
    while stack:
        e = ['bin', '+', stack.pop(), e]
    return e


def exprs(names, funcs=tuple(REF_FUNC), max_leaves=8):
    names, funcs = list(names), list(funcs)
    return st.lists(st.integers(0, 20000), min_size=1, max_size=2 * max_leaves).map(lambda cs: decode(cs, names, funcs))


# ------------------------------------------------------------------ distributions (reference)
INF = float('inf')


def _lbeta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


class Ref:
    """Reference law: parameters in the documented order, log density, support, mean, sd"""
    def __init__(self, names, defaults, types, logpdf, support, mean, sd, discrete=False, cdf=None):
        self.names, self.defaults, self.types = names, defaults, types
        self.logpdf, self.support, self.mean, self.sd = logpdf, support, mean, sd
        self.discrete = discrete
        self.cdf = cdf


def _unif(x, a, b):
    return -math.log(b - a) if a <= x <= b else -INF


def _norm(x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi)


def _gamma(x, a, r):
    if x < 0:
        return -INF
    if x == 0:
        raise Discard()
    return a * math.log(r) - math.lgamma(a) + (a - 1) * math.log(x) - r * x


def _beta(x, a, b):
    if x < 0 or x > 1:
        return -INF
    if x in (0, 1):
        raise Discard()
    return (a - 1) * math.log(x) + (b - 1) * math.log(1 - x) - _lbeta(a, b)


def _binom(x, n, p):
    if x != int(x) or x < 0 or x > n:
        return -INF
    x = int(x)
    if p in (0, 1):
        return 0.0 if x == n * p else -INF
    return math.log(math.comb(int(n), x)) + x * math.log(p) + (n - x) * math.log(1 - p)


def _pois(x, m):
    if x != int(x) or x < 0:
        return -INF
    return x * math.log(m) - m - math.lgamma(x + 1)


def _exp(x, r):
    return math.log(r) - r * x if x >= 0 else -INF


def _tri(x, a, m, b):
    a, m, b = sorted([a, m, b])
    if x < a or x > b:
        return -INF
    if x in (a, b) and x != m:
        return -INF
    d = 2 / (b - a)
    if x < m:
        return math.log(d * (x - a) / (m - a))
    if x > m:
        return math.log(d * (b - x) / (b - m))
    return math.log(d)


def _invgamma(x, a, r):
    if x <= 0:
        return -INF
    s = 1 / r
    return a * math.log(s) - math.lgamma(a) - (a + 1) * math.log(x) - s / x


def _lnorm(x, ml, sl):
    if x <= 0:
        return -INF
    m, s = math.exp(ml), math.exp(sl)
    return _norm(math.log(x), m, s) - math.log(x)


LAW = {
    'k': Ref(['k'], [0], ['real'], lambda x, k: 0.0 if x == k else -INF, lambda k: (k, k), lambda k: k, lambda k: 0),
    'gamma': Ref(['shape', 'rate'], [1, 1], ['pos', 'pos'], _gamma, lambda a, r: (0, INF), lambda a, r: a / r, lambda a, r: math.sqrt(a) / r),
    'exp': Ref(['rate'], [1], ['pos'], _exp, lambda r: (0, INF), lambda r: 1 / r, lambda r: 1 / r),
    'lnorm': Ref(['meanlog', 'sdlog'], [0, 1], ['lm', 'ls'], _lnorm, lambda a, b: (0, INF),
                 lambda a, b: math.exp(math.exp(a) + math.exp(2 * b) / 2),
                 lambda a, b: math.exp(math.exp(a) + math.exp(2 * b) / 2) * math.sqrt(math.expm1(math.exp(2 * b)))),
    'unif': Ref(['min', 'max'], [0, 1], ['real', 'upper'], _unif, lambda a, b: (a, b), lambda a, b: (a + b) / 2, lambda a, b: (b - a) / math.sqrt(12)),
    'chisq': Ref(['df'], [1], ['pos'], lambda x, d: _gamma(x, d / 2, 0.5), lambda d: (0, INF), lambda d: d, lambda d: math.sqrt(2 * d)),
    'beta': Ref(['shape1', 'shape2'], [1, 1], ['pos', 'pos'], _beta, lambda a, b: (0, 1), lambda a, b: a / (a + b),
                lambda a, b: math.sqrt(a * b / ((a + b) ** 2 * (a + b + 1)))),
    'invgamma': Ref(['a', 'rate'], [None, 1], ['gt2', 'pos'], _invgamma, lambda a, r: (0, INF), lambda a, r: 1 / r / (a - 1),
                    lambda a, r: 1 / r / (a - 1) / math.sqrt(a - 2)),
    'norm': Ref(['mean', 'sd'], [0, 1], ['real', 'pos'], _norm, lambda m, s: (-INF, INF), lambda m, s: m, lambda m, s: s),
    'triangle': Ref(['a', 'm', 'b'], [0, 0.5, 1], ['real', 'real', 'real'], _tri, lambda *v: (min(v), max(v)), lambda *v: sum(v) / 3,
                    lambda a, m, b: math.sqrt((a * a + b * b + m * m - a * b - a * m - b * m) / 18)),
    'binom': Ref(['size', 'prob'], [1, 0.5], ['posint', 'prob'], _binom, lambda n, p: (0, n), lambda n, p: n * p,
                 lambda n, p: math.sqrt(n * p * (1 - p)), discrete=True),
    'pois': Ref(['lam'], [1], ['pos'], _pois, lambda m: (0, INF), lambda m: m, lambda m: math.sqrt(m), discrete=True),
}

ARG = {
    'real': st.one_of(st.integers(-20, 20), st.floats(-50, 50).map(lambda x: round(x, 3))),
    'pos': st.one_of(st.integers(1, 20), st.sampled_from([0.01, 0.1, 0.5, 0.9, 1.1, 1.5, 2.5, 7.25, 40.0]), st.floats(0.05, 30).map(lambda x: round(x, 3))),
    'gt2': st.one_of(st.integers(3, 12), st.sampled_from([2.1, 2.5, 4.75])),
    'posint': st.one_of(st.integers(1, 30), st.integers(31, 400)),
    'prob': st.one_of(st.sampled_from([0, 1, 0.5, 0.01, 0.99, 0.25]), st.floats(0, 1).map(lambda x: round(x, 3))),
    'lm': st.sampled_from([0, 0.1, 0.5, 1, 1.25]),
    'ls': st.sampled_from([0.05, 0.1, 0.5, 0.75, 1]),
}


@st.composite
def law_args(draw, fam):
    """Valid arguments (numbers) of a family, in the documented order"""
    out = []
    for t in LAW[fam].types:
        if t == 'upper':
            out.append(round(out[0] + draw(ARG['pos']), 6))
        else:
            out.append(draw(ARG[t]))
    if fam == 'triangle' and max(out) - min(out) < 1e-3:
        out[2] = out[0] + 1
    return out


@st.composite
def wide_args(draw, fam):
    """Also large counts"""
    out = draw(law_args(fam))
    if fam in ('binom', 'pois') and draw(st.integers(0, 3)) == 0:
        out[0] = draw(st.sampled_from([2000, 7500, 40000, 100000]))
    return out


@st.composite
def cats(draw, min_size=1):
    keys = draw(st.lists(st.sampled_from(['A', 'B', 'C', 'D', 'M', 'F', 'yes', 'no', 'k1', 'x', 'O+', 'a/b']), min_size=min_size, max_size=5, unique=True))
    return {k: draw(st.sampled_from([1, 2, 5, 0.5, 0.25, 0.1, 411, 52])) for k in keys}


def num_text(v):
    return repr(v)


@st.composite
def spellings(draw, fam, args):
    """Text of a distribution with positional/keyword/omitted (default) arguments in legal orders"""
    ref = LAW[fam]
    n = len(args)
    texts = [num_text(a) for a in args]
    npos = draw(st.integers(0, n))
    rest = [i for i in range(npos, n)]
    omit = [i for i in rest if ref.defaults[i] is not None and args[i] == ref.defaults[i] and draw(st.booleans())]
    rest = draw(st.permutations([i for i in rest if i not in omit]))
    parts = texts[:npos] + ['{}={}'.format(ref.names[i], texts[i]) for i in rest]
    sep = draw(st.sampled_from([',', ', ', ' , ']))
    return '{}({})'.format(fam, sep.join(parts))


# ------------------------------------------------------------------ statistics
def ks_p(xs, cdf):
    import scipy.stats as sts
    return sts.kstest(xs, cdf).pvalue


def ks2_p(xs, ys):
    import scipy.stats as sts
    return sts.ks_2samp(xs, ys).pvalue


def binom_p(k, n, p):
    import scipy.stats as sts
    return sts.binomtest(int(k), int(n), p).pvalue


def unrelated(what, *series):
    """Neighbouring draws of a law (numbers or labels) must not be correlated"""
    import numpy as np
    from core import check
    rng = np.random.RandomState(5)
    for xs in series:
        n = len(xs)
        if n < 40 or len(set(xs)) < 2:
            continue
        try:
            xs = np.asarray(xs, float)
        except (TypeError, ValueError):
            code = {x: i for i, x in enumerate(sorted(set(xs), key=str))}
            xs = np.array([code[x] for x in xs], float)
        # ranks, ties in random order, so that they are exchangeable
        r = np.empty(n)
        r[np.lexsort((rng.random_sample(n), xs))] = np.arange(n)
        forms = [('ranks', r)]
        for v in set(xs) if len(set(xs)) < 6 else ():
            b = (xs == v) * 1.0
            if 0.25 < b.mean() < 0.75:
                forms.append(('values', b))
        for name, f in forms:
            pairs = [(str(lag), f[lag:], f[:-lag]) for lag in (1, 2, 3, n // 2)]
            m = n // 2 * 2
            pairs += [('pair', f[0:m:2], f[1:m:2])]
            for lag, a, b in pairs:
                if a.std() == 0 or b.std() == 0:
                    continue
                z = np.corrcoef(a, b)[0, 1] * np.sqrt(len(a))
                check(len(a) < 20 or abs(z) < (6.5 if len(a) >= 100 else 7), '{}: draws ({} apart) are correlated (z = {:.1f}, {})', what, lag, z, name)


def chi_p(obs, exp):
    import scipy.stats as sts
    return sts.chisquare(obs, exp).pvalue


# ------------------------------------------------------------------ graphs
@st.composite
def dags(draw, min_nodes=1, max_nodes=8, names=None, large=False):
    """(names, edges), edges go forward in a hidden order; listing order shuffled"""
    n = draw(st.integers(min_nodes, max_nodes))
    pool = names or ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i1', 'j_2']
    dens = draw(st.sampled_from([0.4, 0.25, 0.7]))
    if large and draw(st.integers(0, 7)) == 0:
        n = draw(st.integers(11, 22))
        pool = pool + ['n{}'.format(i) for i in range(n - len(pool))]
        dens = draw(st.sampled_from([0.1, 0.05, 0.25]))
    order = draw(st.permutations(pool))[:n]
    edges = []
    for j in range(n):
        for i in range(j):
            if draw(st.floats(0, 1)) < dens:
                edges.append([order[i], order[j]])
    listing = draw(st.permutations(order))
    edges = draw(st.permutations(edges)) if edges else []
    return {'nodes': list(listing), 'edges': [list(e) for e in edges], 'order': list(order)}


class RefDag:
    """Naive reference graph"""
    def __init__(self, nodes, edges):
        self.nodes = set(nodes)
        self.edges = set(map(tuple, edges))

    def parents(self, n):
        return {a for a, b in self.edges if b == n}

    def children(self, n):
        return {b for a, b in self.edges if a == n}

    def anc(self, n):
        out, todo = set(), [n]
        while todo:
            for p in self.parents(todo.pop()):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def des(self, n):
        out, todo = set(), [n]
        while todo:
            for p in self.children(todo.pop()):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def drop(self, ns):
        ns = set(ns)
        self.nodes -= ns
        self.edges = {(a, b) for a, b in self.edges if a not in ns and b not in ns}

    def paths_nodes(self, a, b):
        """Nodes on directed paths from a to b"""
        if a == b:
            return {a}
        mid = ((self.des(a) | {a}) & (self.anc(b) | {b}))
        return mid if b in self.des(a) else set()

    def needed(self, targets, given):
        """Nodes found walking up from the targets, stopping at the given ones"""
        out, todo = set(targets), list(targets)
        while todo:
            n = todo.pop()
            if n in given:
                continue
            for p in self.parents(n):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out


# ------------------------------------------------------------------ networks
# node: {'n': name, 'k': 'val'|'exo'|'fn'|'rv'|'pseudo', 'e': expr (val, fn), 'd': family, 'a': [exprs] (rv), 'pa': [...] (pseudo), 'des': text}
NAMES = ['x', 'y', 'z', 'w', 'x1', 'x2', 'beta', 'gamma', 'a_b', 'pr', 'Rate', 'mu', 'k2', 'norm', 'T0', 'sigma', 'unif', 'f1', 'xx', 'pcore1', 'id', 'input', '_k', '__v', 'X', 'rate']
# names which differ in their case only
CASED = ['a', 'A', 'b', 'B', 'x1', 'X1', 'beta', 'Beta', 'BETA', 'rate', 'Rate', 'k_k', 'K_K', 'mu', 'Mu', 'MU', 'z', 'Z', 'aa', 'Aa', 'AA', 'sigma', 'Sigma', 'w0', 'W0', 'id']
PLAIN = ['a', 'b', 'c', 'd', 'e1', 'g', 'h', 'u', 'v', 'w1']


def lin(names, draw, lo=-3, hi=3):
    """Linear expression of parents with small integer coefficients"""
    e = ['num', draw(st.integers(0, 9))]
    for n in names:
        c = draw(st.sampled_from([1, 1, 2, 3, -1, -2]))
        t = ['var', n] if abs(c) == 1 else ['bin', '*', ['num', abs(c)], ['var', n]]
        e = ['bin', '-' if c < 0 else '+', e, t]
    return e


@st.composite
def nets(draw, min_nodes=1, max_nodes=7, names=None, kinds=('val', 'exo', 'fn', 'rv', 'rv'), maxpa=3, linear=False, des=False,
         fams=('unif', 'norm', 'k', 'triangle', 'gamma', 'beta', 'binom', 'exp', 'pois'), pseudo=False, cat=False):
    n = draw(st.integers(min_nodes, max_nodes))
    pool = draw(st.permutations(list(names or NAMES)))[:n]
    if names is None and n > 1 and draw(st.integers(0, 5)) == 0:
        i = draw(st.integers(0, len(CASED) - n))
        pool = draw(st.permutations(CASED[i:i + n]))
    nodes = []
    # most networks mix everything; some are rich in one kind, deep, or densely linked
    rich = draw(st.sampled_from([None, None, None, 'exo', 'rv', 'fn']))
    deep = draw(st.sampled_from([False, False, True]))
    line = draw(st.integers(0, 7)) == 0   # one after the other
    if rich in kinds:
        kinds = tuple(kinds) + (rich,) * 4
    for i, nm in enumerate(pool):
        prev = [m for m in nodes if m['k'] != 'pseudo' and m.get('d') != 'cat']
        k = draw(st.sampled_from(kinds))
        pas = []
        if prev and k in ('fn', 'rv'):
            pas = draw(st.lists(st.sampled_from([m['n'] for m in prev]), min_size=0 if k == 'rv' and not deep else 1, max_size=maxpa, unique=True))
            if line:
                k, pas = draw(st.sampled_from([k] + ['fn'] * ('fn' in kinds))), [prev[-1]['n']]
            elif deep and prev[-1]['n'] not in pas:
                pas = pas[:maxpa - 1] + [prev[-1]['n']]
        if k == 'fn' and not pas:
            k = 'val'
        node = {'n': nm, 'k': k}
        if k == 'val':
            node['e'] = draw(st.one_of(nums.map(lambda v: ['num', v]), st.sampled_from(DIGITS).map(lambda v: ['num', v]), st.integers(0, 9).map(lambda v: ['bin', '+', ['num', v], ['bin', '/', ['num', 1], ['num', 4]]]),
                                       st.integers(-4, 9).map(lambda v: ['call', 'exp', [['num', v]]] if v > 0 else ['call', 'abs', [['num', v]]]) if not linear else nums.map(lambda v: ['num', v])))
        elif k == 'fn':
            if linear or draw(st.booleans()):
                node['e'] = lin(pas, draw)
            else:
                e = lin(pas, draw)
                w = draw(st.sampled_from(['abs', 'max', 'ifelse', 'exp', 'sq', 'step']))
                x = ['var', pas[0]]
                node['e'] = {
                    'abs': ['call', 'abs', [e]], 'max': ['call', 'max', [e, ['num', 1]]],
                    'ifelse': ['call', 'ifelse', [['cmp', '>', x, ['num', 3]], e, ['num', 2]]],
                    'exp': ['call', 'exp', [['bin', '/', ['num', 1], ['bin', '+', ['num', 1], ['bin', '*', e, e]]]]],
                    'sq': ['bin', '*', e, ['bin', '+', ['num', 1], x]],
                    'step': ['call', 'step', [x, ['num', 4], e, ['num', 1.5]]],
                }[w]
        elif k == 'rv':
            if cat and draw(st.integers(0, 5)) == 0:
                node['d'], node['kv'] = 'cat', draw(cats(2))
                nodes.append(node)
                continue
            if pas:
                d = draw(st.sampled_from([f for f in fams if f in ('unif', 'norm', 'k', 'triangle', 'gamma', 'exp', 'binom', 'pois') and f not in pas]))
            else:
                d = draw(st.sampled_from(fams))
            node['d'] = d
            if not pas:
                node['a'] = [['num', v] for v in draw(law_args(d))]
            else:
                e = lin(pas, draw)
                pos = ['bin', '+', ['num', draw(st.sampled_from([1, 0.5, 2]))], ['bin', '*', ['var', pas[-1]], ['var', pas[-1]]]]
                if d == 'unif':
                    node['a'] = [e, ['bin', '+', e, ['num', draw(st.sampled_from([1, 2, 10]))]]]
                elif d == 'norm':
                    node['a'] = [e, ['num', draw(st.sampled_from([1, 0.5, 5]))] if linear or draw(st.booleans()) else pos]
                elif d == 'k':
                    node['a'] = [e]
                elif d == 'triangle':
                    node['a'] = [e, ['bin', '+', e, ['num', 1]], ['bin', '+', e, ['num', 3]]]
                elif d == 'gamma':
                    node['a'] = [['num', draw(st.sampled_from([1, 2, 5]))], pos]
                elif d == 'exp':
                    node['a'] = [pos]
                elif d == 'binom':
                    node['a'] = [['num', draw(st.sampled_from([1, 5, 20]))], ['bin', '/', ['num', 1], ['bin', '+', pos, ['num', 1]]]]
                elif d == 'pois':
                    node['a'] = [['bin', '+', ['num', 1], ['bin', '/', ['num', 1], ['bin', '+', pos, ['num', 1]]]]]
        if pseudo and prev and draw(st.integers(0, 7)) == 0:
            node = {'n': nm, 'k': 'pseudo', 'pa': draw(st.lists(st.sampled_from([m['n'] for m in prev]), min_size=1, max_size=3, unique=True))}
        if des and draw(st.booleans()):
            node['des'] = draw(st.sampled_from(['rate', 'Transmission', 'per_year', 'a-b', '0.5', 'x', 'see(1)', 'α', '=5', '~beta', 'x=1']))
        nodes.append(node)
    return {'name': draw(st.sampled_from(['Test', 'A', 'Model1', 'pcore', 'BN_x', 'Core2', 'pcore1', 'PCoreX', 'X_PCore'])), 'nodes': nodes}


def parents_of(node):
    k = node['k']
    if k in ('val', 'exo'):
        return set()
    if k == 'fn':
        return evars(node['e'])
    if k == 'pseudo':
        return set(node['pa'])
    if node['d'] == 'cat':
        return set()
    return set().union(*[evars(a) for a in node['a']])


def dist_text(node, sp=''):
    if node['d'] == 'cat':
        return 'cat({{{}}})'.format((',' + sp).join('"{}":{}'.format(k, num_text(v)) for k, v in node['kv'].items()))
    kw = node.get('kw', len(node['a']))   # arguments from this one are given by name
    names = LAW[node['d']].names
    return '{}({})'.format(node['d'], (',' + sp).join(show(a, sp) if i < kw else '{}={}'.format(names[i], show(a, sp)) for i, a in enumerate(node['a'])))


def node_text(node, sp=''):
    k = node['k']
    if k == 'exo':
        s = node['n']
    elif k in ('val', 'fn'):
        s = '{}{}={}{}'.format(node['n'], sp, sp, show(node['e'], sp))
    elif k == 'pseudo':
        s = '{}{}={}f({})'.format(node['n'], sp, sp, (',' + sp).join(node['pa']))
    else:
        s = '{}{}~{}{}'.format(node['n'], sp, sp, dist_text(node, sp))
    if node.get('des'):
        s += '{}#{}{}'.format(sp, sp, node['des'])
    return s


def script(net, order=None, sp=' ', head='PCore {} {{'):
    nodes = net['nodes']
    lines = [node_text(nodes[i], sp) for i in (order if order is not None else range(len(nodes)))]
    return '\n'.join([head.format(net['name'])] + ['    ' + s for s in lines] + ['}'])


def ref_dag(net):
    return RefDag([m['n'] for m in net['nodes']], [(p, m['n']) for m in net['nodes'] for p in parents_of(m)])


def node_logpdf(node, env, value):
    """Reference log density of a value of a variable given its parents in env"""
    if node['d'] == 'cat':
        tot = sum(node['kv'].values())
        return math.log(node['kv'][value] / tot) if value in node['kv'] else -INF
    args = [ev(a, env) for a in node['a']]
    return LAW[node['d']].logpdf(value, *args)


def exo_values(net, draw=None):
    """Deterministic values of the exogenous variables"""
    return {m['n']: 2 + i for i, m in enumerate(net['nodes']) if m['k'] == 'exo'}


def support_ok(node, env, value, tol=1e-9):
    if node['d'] == 'cat':
        return value in node['kv']
    args = [ev(a, env) for a in node['a']]
    lo, hi = LAW[node['d']].support(*args)
    t = tol * (1 + abs(value))
    if not lo - t <= value <= hi + t:
        return False
    return not LAW[node['d']].discrete or value == round(value)


def npy(d, on=True):
    """Values as they come from tables and arrays"""
    import numpy as np
    return {k: np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int) and abs(v) < 2 ** 62 else np.float64(v) if isinstance(v, float) else v
            for k, v in d.items()} if on else dict(d)


def squash(s):
    return re.sub(r'\s', '', s)
