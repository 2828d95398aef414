"""Recording layer: calls the real qosy code and writes what happened as JSON for TLC (see spec/Trace.tla).

Runs under /opt/venv with PYTHONPATH=/repo. Nothing here judges results: it only generates inputs, calls the public
API and records arguments, results, exceptions and which arguments changed.
"""
import contextlib, io, json, math, os, random, signal, sys, warnings
warnings.simplefilter('ignore')
import numpy as np
import scipy.sparse as ss
REPO = os.environ.get('QOSY_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import qosy as qy
from qosy.operatorstring import OperatorString, opstring
from qosy.basis import Basis, Operator
from qosy.transformation import Transformation
from qosy.lattice import Lattice, UnitCell

TN = {'Pauli': 'P', 'Majorana': 'M', 'Fermion': 'F'}
TF = {v: k for (k, v) in TN.items()}
MAXINT = 2 ** 30


# ---------------------------------------------------------------- encoding
def enc_str(s):
    """An OperatorString (or None)."""
    if s is None:
        return {'t': '-', 'f': 0, 'o': [], 'l': []}
    f = 0 if s.prefactor == 1 else 1 if s.prefactor == 1j else 9
    return {'t': TN.get(s.op_type, str(s.op_type)), 'f': f, 'o': [str(o) for o in s.orbital_operators],
            'l': [int(l) for l in s.orbital_labels]}


def dec_str(d):
    return OperatorString(list(d['o']), list(d['l']), TF[d['t']], prefactor=(1j if d['f'] == 1 else 1.0))


def exact_exp(vals, maxe=24):
    """Smallest e such that all the values times 2^e are integers below 2^30 (e <= 24); None if there is none."""
    for e in range(maxe + 1):
        ok = True
        for v in vals:
            for p in (v.real, v.imag):
                q = p * 2.0 ** e
                if not np.isfinite(q) or q != np.floor(q) or abs(q) > MAXINT:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return e
    return None


def snap(v):
    """Remove rounding noise: values within 1e-11 of a dyadic rational k/2^12 become that rational."""
    v = complex(v)
    out = []
    for p in (v.real, v.imag):
        if not np.isfinite(p):
            out.append(p)
            continue
        q = round(p * 4096.0) / 4096.0
        out.append(q if abs(q - p) < 1e-11 * max(1.0, abs(p)) else p)
    return complex(*out)


def cvals(vals):
    return [snap(v) for v in vals]


def fix(v, e):
    v = complex(v)
    out = []
    for p in (v.real, v.imag):
        q = p * 2.0 ** e
        if not np.isfinite(q) or abs(q) > MAXINT:
            q = MAXINT if not q < 0 else -MAXINT
        out.append(int(round(q)))
    return out


def enc_vals(vals, e=None, fe=14):
    """Complex numbers as Gaussian integers over 2^e; x says whether that is exact."""
    vals = cvals(vals)
    ee = exact_exp(vals)
    if e is None:
        if ee is not None:
            return {'e': ee, 'x': 1, 'c': [fix(v, ee) for v in vals]}
        return {'e': fe, 'x': 0, 'c': [fix(v, fe) for v in vals]}
    return {'e': e, 'x': 1 if (ee is not None and ee <= e) else 0, 'c': [fix(v, e) for v in vals]}


def enc_op(op, e=None, fe=14):
    d = enc_vals(list(op.coeffs), e, fe)
    d['t'] = TN.get(op.op_type, '-')
    d['s'] = [enc_str(s) for s in op._basis.op_strings]
    n = len(d['s'])
    if len(d['c']) != n:        # an operator that is not well-formed: no result, or an input that was altered by an earlier call
        if BUILDING:
            raise ValueError('coefficients and strings differ in number')
        d['c'] = (d['c'] + [[0, 0]] * n)[:n]
    return d


def enc_ops(ops, e=None, fe=14):
    """A list of operators over one exponent."""
    vals = cvals([c for op in ops for c in op.coeffs])
    ee = exact_exp(vals) if e is None else e
    return [enc_op(op, e=ee, fe=fe) for op in ops]


def enc_basis(b):
    return [enc_str(s) for s in b.op_strings]


def enc_sparse(m, e=None, fe=14):
    """A matrix as [row, col, re, im] (1-based, nonzero), with exponent and exactness."""
    a = m.toarray() if ss.issparse(m) else np.asarray(m)
    (r, c) = np.nonzero(a)
    v = enc_vals([a[i, j] for (i, j) in zip(r, c)], e, fe)
    return {'e': v['e'], 'x': v['x'], 'n': int(a.shape[0]), 'm': int(a.shape[1]),
            'a': [[int(i) + 1, int(j) + 1] + g for (i, j, g) in zip(r, c, v['c']) if g != [0, 0]]}


def enc_cols(a, e=None, fe=14):
    """A matrix as a list of dense columns."""
    a = a.toarray() if ss.issparse(a) else np.asarray(a)
    v = enc_vals(list(a.T.reshape(-1)), e, fe)
    n, m = a.shape
    return {'e': v['e'], 'x': v['x'], 'n': int(n), 'm': int(m),
            'v': [v['c'][j * n:(j + 1) * n] for j in range(m)]}


# ---------------------------------------------------------------- calls
def freeze(x, depth=0):
    """Projection of an argument, compared before and after a call."""
    if depth > 8:
        return None
    if isinstance(x, OperatorString):
        return ('S', x.op_type, x.prefactor, tuple(map(str, x.orbital_operators)), tuple(map(int, x.orbital_labels)),
                x.name)
    if isinstance(x, Basis):
        return ('B', tuple(freeze(s) for s in x.op_strings))
    if isinstance(x, Operator):
        return ('O', tuple(complex(c) for c in x.coeffs), tuple(freeze(s) for s in x._basis.op_strings), x.op_type)
    if ss.issparse(x):
        c = x.tocoo()
        return ('Q', c.shape, tuple(c.row.tolist()), tuple(c.col.tolist()), tuple(np.asarray(c.data).tolist()))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, str(x.dtype), tuple(x.reshape(-1).tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y, depth + 1) for y in x))
    if isinstance(x, dict):
        return ('D', tuple(sorted((repr(freeze(k, depth + 1)), freeze(v, depth + 1)) for (k, v) in x.items())))
    if isinstance(x, set):
        return ('T', tuple(sorted(map(repr, (freeze(k, depth + 1) for k in x)))))
    if isinstance(x, Lattice):
        return ('L', freeze([x.unit_cell, x.num_cells, x.periodic_boundaries, x.precision, list(x)], depth + 1))
    if isinstance(x, UnitCell):
        return ('U', freeze({k: v for (k, v) in x.__dict__.items()}, depth + 1))
    if isinstance(x, Transformation):
        return ('X', freeze(x.info, depth + 1))
    if isinstance(x, (int, float, complex, str, bool, np.generic)) or x is None:
        return x
    return ('?', type(x).__name__)


class CallTimeout(Exception):
    pass


def _alarm(*_):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)
CALL_LIMIT = int(os.environ.get('CALL_LIMIT', '60'))


HANGS = []


def call(fn, *args, **kw):
    """Returns (result, exc, mut): exc is the name of the exception ('' if none), mut the positions/names of the
    arguments whose projection changed."""
    names = [(str(i), a) for (i, a) in enumerate(args)] + sorted(kw.items())
    before = [(n, freeze(a)) for (n, a) in names]
    exc, res = '', None
    signal.alarm(CALL_LIMIT if len(HANGS) < 2 else 5)      # every one is reported; do not spend the whole time on them
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = fn(*args, **kw)
    except CallTimeout:
        exc = 'Timeout'
        HANGS.append(1)
    except Exception as e:      # recorded, judged by the specification
        exc = type(e).__name__
    finally:
        signal.alarm(0)
    mut = [n for ((n, b), (_, a)) in zip(before, names) if freeze(a) != b]
    return res, exc, mut


class Rec:
    """Collects sessions (lists of events)."""

    def __init__(self):
        self.sessions = []

    def session(self, events):
        if events:
            self.sessions.append(events)

    def chunked(self, events, n):
        for i in range(0, len(events), n):
            self.sessions.append(events[i:i + n])

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump({'sessions': self.sessions}, f)


def ev(op, exc='', mut=(), **kw):
    d = {'op': op, 'exc': exc, 'mut': list(mut)}
    d.update(kw)
    return d


def scramble(x, depth=0):
    """Changes a returned object in place, as its new owner may: this must not influence any later call."""
    try:
        if isinstance(x, Operator):
            x.coeffs = np.array(x.coeffs)
            x.coeffs *= 0
            x += Operator([7.0], [OperatorString([], [], x.op_type)], x.op_type)
        elif isinstance(x, Basis):
            while len(x.op_strings):
                x._indices.pop(x.op_strings.pop(), None)
        elif ss.issparse(x):
            x.data[:] = 7
        elif isinstance(x, np.ndarray):
            x[...] = 7
        elif isinstance(x, dict) and depth < 3:
            for v in x.values():
                scramble(v, depth + 1)
            x.clear()
        elif isinstance(x, (list, tuple)) and depth < 3:
            for v in x:
                scramble(v, depth + 1)
            if isinstance(x, list):
                x.clear()
    except Exception:       # not changeable: nothing to try
        pass


BUILDING = []


def guard(op, build, exc, mut, junk=(), **inputs):
    """Event with the encoded result if the call returned, else without. A result that cannot be encoded (wrong shape
    or type) is recorded as the exception BadResult. junk: results that are changed in place once they are recorded."""
    if not exc:
        try:
            BUILDING.append(1)
            e = ev(op, '', mut, **inputs, **build())
        except Exception as e:
            if os.environ.get('HDEBUG'):
                raise
            return ev(op, 'BadResult' + type(e).__name__, mut, **inputs)
        finally:
            BUILDING.pop()
        for x in junk:
            scramble(x)
        return e
    return ev(op, exc, mut, **inputs)


def again(rng, p, fn, *args):
    """The same call once more, some of the time."""
    return [fn(*args) for _ in range(2 if rng.random() < p else 1)]


def pick_labels(rng, n, widths):
    w = max(n, rng.choice(widths))
    return sorted(rng.sample(range(w), n))


WIDE = [300, 5000, 70000, 10 ** 6, 5 * 10 ** 8]


# ---------------------------------------------------------------- generators
def all_strings(t, labels):
    fs = {'P': ['', 'X', 'Y', 'Z'], 'M': ['', 'A', 'B', 'D']}[t]
    import itertools
    out = []
    for c in itertools.product(fs, repeat=len(labels)):
        o = [x for x in c if x]
        l = [lab for (x, lab) in zip(c, labels) if x]
        out.append(OperatorString(o, l, TF[t]))
    return out


def rand_string(rng, t, labels, kmin=0, kmax=4):
    fs = {'P': ['X', 'Y', 'Z'], 'M': ['A', 'B', 'D']}[t]
    k = rng.randint(kmin, min(kmax, len(labels)))
    l = sorted(rng.sample(list(labels), k))
    return OperatorString([rng.choice(fs) for _ in l], l, TF[t])


def rand_fermion(rng, labels, kmax=4, kmin=0, herm=True):
    """A normal-ordered fermion string of one of the three kinds: CDag labels ascending, C labels descending."""
    while True:
        n1 = rng.randint(0, min(kmax, len(labels)))
        n2 = rng.randint(0, min(max(kmax - n1, 0), len(labels)))
        if n1 + n2 < kmin:
            continue
        cd = sorted(rng.sample(list(labels), n1))
        c = sorted(rng.sample(list(labels), n2))
        if herm and not (len(cd) > len(c) or (len(cd) == len(c) and cd >= c)):
            cd, c = c, cd
        f = 1.0 if cd == c else rng.choice([1.0, 1j])
        return OperatorString(['CDag'] * len(cd) + ['C'] * len(c), cd + c[::-1], 'Fermion', prefactor=f)


def rand_coeff(rng, cplx=True, zero=0.1, den=4, big=8):
    if rng.random() < zero:
        return 0.0
    a = rng.randint(-big, big) / rng.choice([1, 1, 2, den])
    b = rng.randint(-big, big) / rng.choice([1, 1, 2, den]) if cplx and rng.random() < 0.5 else 0.0
    return complex(a, b) if b else a


def rand_op(rng, t, labels, nterms, cplx=True, kmin=0, kmax=3, **kw):
    d = {}
    for _ in range(nterms):
        s = rand_fermion(rng, labels, kmax, kmin) if t == 'F' else rand_string(rng, t, labels, kmin, kmax)
        d[s] = rand_coeff(rng, cplx, **kw)
    return Operator([complex(c) if cplx else c for c in d.values()], list(d.keys()), TF[t])


def main(run):
    """run(rec, rng, tier, n): n scales the number of random cases."""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--round', type=int, default=0)
    ap.add_argument('--gen', default='')
    ap.add_argument('--prop', default='')
    ap.add_argument('out')
    a = ap.parse_args()
    rng = random.Random('%s-%d-%d' % (a.prop, a.seed, a.round))
    np.random.seed((a.seed * 7919 + a.round) % (2 ** 31))
    rec = Rec()
    rec.gen = json.load(open(a.gen)) if a.gen else None
    rec.prop = a.prop
    rec.round = a.round
    run(rec, rng, a.tier)
    rec.dump(a.out)
