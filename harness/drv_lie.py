"""C17: generated Lie algebras."""
from lib import *
from drv_sym import cert
from exact import nullspace, big as biggest

NF = {'P': 'XYZ', 'M': 'ABD'}
TAB = {('X', 'Y'): (1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y')}
TAB.update({(b, a): (-c, r) for ((a, b), (c, r)) in list(TAB.items())})


# An independent product of strings, used only to build the certificates which TLC verifies.
def smul(s, t):
    """Strings as (kind, tuple of (label, factor)); returns (power of i, string)."""
    if s[0] == 'P':
        a, b, k = dict(s[1]), dict(t[1]), 1
        out = {}
        for l in set(a) | set(b):
            if l in a and l in b:
                if a[l] == b[l]:
                    continue
                c, out[l] = TAB[(a[l], b[l])]
                k *= c
            else:
                out[l] = a.get(l) or b.get(l)
        return k, ('P', tuple(sorted(out.items())))

    def den(s):
        k, w = 1, []
        n = sum(f in 'AB' for (_, f) in s[1])
        if (n * (n - 1) // 2) % 2:
            k *= 1j
        for (l, f) in s[1]:
            if f == 'A':
                w.append(2 * l)
            elif f == 'B':
                w.append(2 * l + 1)
            else:
                k *= -1j
                w += [2 * l, 2 * l + 1]
        return k, w
    (k1, w1), (k2, w2) = den(s), den(t)
    k, w = k1 * k2, []
    for g in w1 + w2:
        n = sum(h > g for h in w)
        k *= (-1) ** n
        if g in w:
            w.remove(g)
        else:
            w = sorted(w + [g])
    labs = sorted({g // 2 for g in w})
    r = ('M', tuple((l, 'D' if 2 * l in w and 2 * l + 1 in w else 'A' if 2 * l in w else 'B') for l in labs))
    return k / den(r)[0], r


def bracket(f, g):
    out = {}
    for (s, a) in f.items():
        for (t, b) in g.items():
            (k, r), (k2, _) = smul(s, t), smul(t, s)
            c = -1j * (k - k2)
            if c:
                out[r] = out.get(r, 0) + int(round(c.real)) * a * b
    return {s: c for (s, c) in out.items() if c}


def prim(f):
    g = 0
    for c in f.values():
        g = math.gcd(g, abs(c))
    return {s: c // g for (s, c) in f.items()} if g else f


class Span:
    """Incremental elimination over the rationals."""

    def __init__(self):
        self.rows = []

    def reduce(self, f):
        from fractions import Fraction as Q
        v = {s: Q(c) for (s, c) in f.items()}
        for (p, r) in self.rows:
            c = v.get(p, 0)
            if c:
                for (s, x) in r.items():
                    v[s] = v.get(s, 0) - c * x
                    if v[s] == 0:
                        del v[s]
        return v

    def add(self, f):
        v = self.reduce(f)
        if not v:
            return False
        p = min(v)
        c = v[p]
        self.rows.append((p, {s: x / c for (s, x) in v.items()}))
        return True


def closure(gens, limit):
    sp = Span()
    for g in gens:
        if not sp.add(g):
            return None
    el, pairs = list(gens), []
    k = 0
    while k < len(el):
        for (i, g) in enumerate(gens):
            b = prim(bracket(g, el[k]))
            if b and sp.add(b):
                el.append(b)
                pairs.append([i + 1, k + 1])
                if len(el) > limit or max(abs(c) for c in b.values()) > 2 ** 10:
                    return None
        k += 1
    return el, pairs


def sk(s):
    return (TN[s.op_type], tuple(sorted((int(l), str(o)) for (l, o) in zip(s.orbital_labels, s.orbital_operators))))


def tostr(k):
    return OperatorString([f for (_, f) in k[1]], [l for (l, _) in k[1]], TF[k[0]])


def integers(v):
    """The integer vector v is proportional to."""
    v = np.real(v)
    m = min(abs(x) for x in v if abs(x) > 1e-9)
    for k in range(1, 2000):
        w = v * (k / m)
        if np.abs(w - np.round(w)).max() < 1e-7:
            w = [int(round(x)) for x in w]
            if max(map(abs, w)) < 2 ** 13:
                return w
            break
    raise ValueError('not proportional to an integer vector')


def e_ops(rng, ops, limit):
    gens = [prim({sk(s): int(c.real) for (c, s) in op}) for op in ops]
    r = closure(gens, limit)
    if r is None:
        return None
    el, pairs = r
    US = sorted({s for f in el for s in f})
    if len(US) > 70:
        return None
    NA = nullspace([[f.get(s, 0) for s in US] for f in el], len(US))
    if biggest(NA) > 2 ** 12:
        return None
    idx = {s: i for (i, s) in enumerate(US)}
    if rng.random() < .3:       # the generators times powers of two
        ops = [(2.0 ** rng.randint(-12, 12)) * op for op in ops]
    res, exc, mut = call(qy.generate_lie_algebra, ops)

    def build():
        R = np.zeros((len(US), len(res)), dtype=complex)
        stray = []
        for (j, op) in enumerate(res):
            for (c, s) in op:
                if sk(s) in idx:
                    R[idx[sk(s)], j] += c
                elif abs(c) > 1e-9:
                    stray.append(enc_str(s))
        R /= np.array([np.linalg.norm(R[:, j]) or 1.0 for j in range(R.shape[1])])
        d = cert(R, e=14, top=max([1] + [sum(abs(p) for x in r for p in x) for r in NA]))
        d['Z'] = []
        if max([0] + [sum(abs(a) + abs(b) for (a, b) in w) for w in d['W']]) > 2 ** (9 + d['we']):
            try:
                d['Z'] = [integers(R[:, j]) for j in range(R.shape[1])]     # ill-conditioned: exact rank instead
            except ValueError:
                d['W'] = []                                                 # or the measured smallest singular value
        d['sigma'] = fix(np.linalg.svd(R, compute_uv=False)[-1], 26)[0] if R.shape[1] else 0
        return dict(d, n=len(res), first=enc_ops(res[:len(ops)]), stray=stray)
    return guard('lie_ops', build, exc, mut, [res], B=enc_ops(ops), U=[enc_str(tostr(s)) for s in US], pairs=pairs, NA=NA)


def e_str(basis):
    res, exc, mut = call(qy.generate_lie_algebra, basis)
    return guard('lie_str', lambda: {'r': enc_basis(res)}, exc, mut, [res], B=enc_basis(basis))


def enc_key(s):
    return json.dumps(enc_str(s))


def strs(rng, t, n):
    """Generating sets of strings whose algebra is not too large."""
    L = sorted(rng.sample(range(rng.choice([8, 8, 300, 70000])), n))
    kind = rng.choice(['random', 'random', 'chain', 'quadratic', 'local', 'single'])
    if kind == 'random':
        S = [rand_string(rng, t, L, 0, n) for _ in range(rng.randint(1, 5))]
    elif kind == 'chain':
        F = 'XYZ' if t == 'P' else 'ABD'
        f, g = rng.sample(F, 2)
        S = [OperatorString([f, f], [L[i], L[i + 1]], TF[t]) for i in range(n - 1)] + [OperatorString([g], [l], TF[t]) for l in L]
    elif kind == 'quadratic':
        S = []
        for i in range(n):
            for j in range(i, n):
                if rng.random() < .6:
                    S.append(OperatorString(['D'], [L[i]], 'Majorana') if i == j else OperatorString([rng.choice('AB'), rng.choice('AB')], [L[i], L[j]], 'Majorana'))
    elif kind == 'single':     # one factor, or a few factors apart from each other
        S = [OperatorString([rng.choice(NF[t])], [l], TF[t]) for l in L for _ in range(rng.randint(0, 1) + (n < 3))]
        if rng.random() < .5:
            S.append(rand_string(rng, t, L, 1, n))
    else:
        S = [rand_string(rng, t, L, 1, 2) for _ in range(rng.randint(2, 5))]
    rng.shuffle(S)
    return Basis(list({enc_key(s): s for s in S}.values()))


def ops(rng, t, n):
    L = sorted(rng.sample(range(rng.choice([n, 9, 300, 70000])), n))
    k = rng.randint(1, 4)
    out = []
    mixed, q = rng.random() < .4, rng.random()
    if rng.random() < .12:      # a commutator that is nearly a multiple of another generator
        a, b, c = (rand_string(rng, t, L, 1, n) for _ in range(3))
        f = bracket({sk(a): 1}, {sk(b): 1})
        if f and sk(c) not in f:
            (r, x), = f.items()
            return rng.sample([Operator([1.0], [a]), Operator([1.0], [b]), Operator([float(x * 2 ** rng.randint(4, 9)), 1.0], [tostr(r), c])], 3)
    for i in range(k):
        r = rng.random() if mixed else q
        if r < .4:
            out.append(rand_op(rng, t, L, rng.randint(1, 3), cplx=False, kmax=2, den=1, big=2, zero=0))
        elif r < .6:       # collective operators
            f = rng.choice('XYZ' if t == 'P' else 'ABD')
            if rng.random() < .5 or n < 2:
                out.append(Operator([1.0] * n, [OperatorString([f], [l], TF[t]) for l in L]))
            else:
                out.append(Operator([1.0] * (n - 1), [OperatorString([f, f], [l, m], TF[t]) for (l, m) in zip(L, L[1:])]))
        elif r < .7:       # coefficients of different size
            op = rand_op(rng, t, L, rng.randint(2, 3), cplx=False, kmax=2, den=1, big=1, zero=0)
            op.coeffs *= np.array([rng.choice([1, 1, 2 ** rng.randint(1, 10)]) for _ in op.coeffs])
            out.append(op)
        elif r < .85:
            out.append(rand_op(rng, t, L, rng.randint(1, 2), cplx=False, kmin=1, kmax=n, den=1, big=1, zero=0))
        else:
            out.append(Operator([float(rng.choice([1, -1, 2, 3]))], [rand_string(rng, t, L, 0, 3)]))
    for op in out:
        if any(c == 0 or c != int(c.real) for c in op.coeffs) or len(op._basis) == 0:
            return None
    return out


def witnesses():
    """Commutators that are almost in the span of the previous elements."""
    P = lambda *terms: Operator([float(c) for (c, _, _) in terms], [OperatorString(list(o), list(l), 'Pauli') for (_, o, l) in terms])
    return [
        [P((2, 'Y', [0]), (-1, 'XZ', [0, 1]), (-2, 'Y', [1])), P((2, 'XX', [0, 1]), (-1, '', []), (1, 'X', [1]))],
        [P((-1, 'X', [2]), (-2, 'ZY', [0, 1]), (2048, 'Y', [0])), P((-1, 'XZ', [0, 1]))],
        [P((-1, 'ZY', [0, 1])), P((-1, 'ZY', [0, 1]), (-256, 'Y', [1]), (-2, 'YY', [0, 1])), P((-2, 'ZX', [0, 1]), (-1, 'X', [0]), (-2, '', []))]]


def run(rec, rng, tier):
    big = 3 if tier == 'thorough' else 1
    if rec.round == 0:      # all pairs of strings on two orbitals
        import itertools
        evs = []
        for t in 'PM':
            S = all_strings(t, [0, 1])
            evs += [e_str(Basis([a, b])) for (a, b) in itertools.combinations(rng.sample(S, len(S)), 2)]
        rec.chunked(evs, 20)
        for o in witnesses():
            e = e_ops(rng, o, 26)
            if e:
                rec.session([e])
    evs = []
    for _ in range(180 * big):
        t = rng.choice('PM')
        b = strs(rng, t, rng.randint(1, 3 if tier == 'quick' else 4))
        if len(b):
            evs += again(rng, .15, e_str, b)
    rec.chunked(evs, 3)
    k = 0
    while k < 170 * big:
        t = rng.choice('PM')
        o = ops(rng, t, rng.randint(1, 3))
        e = o and e_ops(rng, o, 26 if rng.random() < .9 else 40)
        if e:
            rec.session([e])
            k += 1


if __name__ == '__main__':
    main(run)
