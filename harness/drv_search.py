"""C18, C19: cached exploration and the selected-CI searches."""
import itertools

from lib import *
import qosy.algorithms as alg
from drv_lie import bracket, smul, sk


def int_op(rng, t, labels, n, kmin=1, kmax=2, big=3):
    d = {}
    for _ in range(n):
        d[rand_string(rng, t, labels, kmin, kmax)] = rng.choice([c for c in range(-big, big + 1) if c])
    return Operator([float(c) for c in d.values()], list(d.keys()), TF[t])


def chain(rng, t, n):
    d = {}
    if t == 'P':
        js = [rng.choice([-2, -1, 1, 1, 2]) for _ in range(3)]
        for i in range(n - 1):
            for (f, j) in zip('XYZ', js):
                d[OperatorString([f, f], [i, i + 1], 'Pauli')] = float(j)
        for i in range(n):
            if rng.random() < 0.4:
                d[OperatorString(['Z'], [i], 'Pauli')] = float(rng.randint(1, 3))
    else:
        for i in range(n - 1):
            d[OperatorString(['A', 'B'], [i, i + 1], 'Majorana')] = float(rng.choice([-1, 1, 2]))
            d[OperatorString(['B', 'A'], [i, i + 1], 'Majorana')] = float(rng.choice([-1, 1, 2]))
        for i in range(n):
            if rng.random() < 0.5:
                d[OperatorString(['D'], [i], 'Majorana')] = float(rng.randint(1, 3))
            if i < n - 1 and rng.random() < 0.3:
                d[OperatorString(['D', 'D'], [i, i + 1], 'Majorana')] = 1.0
    return Operator(list(d.values()), list(d.keys()), TF[t])


def c18(rec, rng, tier):
    explore = getattr(alg, '_explore', None)
    if explore is None:
        return
    for hist in rec.gen:
        t = rng.choice('PPM')
        labels = rng.choice([[0, 1, 2, 3], [0, 1, 2, 3], [0, 3, 10, 11]])
        lab = dict(enumerate(labels))
        H = chain(rng, t, 4) if labels[3] == 3 and rng.random() < 0.5 else int_op(rng, t, labels, rng.randint(2, 7), 1, 3)
        U = []
        while len(U) < 12:
            s = OperatorString([], [], TF[t]) if rng.random() < 0.03 else rand_string(rng, t, labels, 1, 3)
            if s not in U:
                U.append(s)
        if rng.random() < 0.6:       # strings reached by exploring are queried again
            try:
                ext = alg.structure_constants(Basis(U[:2]), H._basis, return_extended_basis=True)[1]
                for s in ext:
                    if s not in U:
                        U[rng.randrange(2, 12)] = s
            except Exception:
                pass
        es = [ev('xnew', H=enc_op(H, e=0))]
        cache = (Basis(), Basis(), dict())
        for q in hist:
            B = Basis([U[i - 1] for i in q['q']])
            A = [lab[x] for x in q['A']]
            kw = {} if q['all'] else {'allowed_labels': rng.choice([set, list])(A)}
            if q['all'] and rng.random() < 0.3:
                kw = {'allowed_labels': None}
            r, exc, mut = call(explore, B, H, *cache, **kw)
            mut = [m for m in mut if m not in ('2', '3', '4')]     # the cache is meant to change
            if exc == 'TypeError' and len(es) == 1:
                es = []
                break
            es.append(guard('xplore', lambda: dict(L=enc_sparse(r[0]), ext=enc_basis(r[1]), eb=enc_basis(cache[0]), xb=enc_basis(cache[1])),
                            exc, mut, B=enc_basis(B), all=q['all'], A=A))
        rec.session(es)


# ---------------------------------------------------------------- C19
def rawop(op):
    """Exact coefficients over 2^24."""
    return enc_op(op, e=24)


def n14(x):
    return fix(x, 14)[0]


def act(word, s):
    """An independent action of a word of label permutations and plain time reversals on a string."""
    k = 1
    for L in reversed(word):
        if L['k'] == 'tr':
            k, s = k * (-1) ** len(s[1]), s      # Pauli strings only
            continue
        p = L['p']
        if s[0] == 'P':
            s = ('P', tuple(sorted((p[l], f) for (l, f) in s[1])))
        else:
            one = ('M', ())
            r, kk = one, 1
            gam = []
            for (l, f) in s[1]:
                gam += [(l, 'A')] if f == 'A' else [(l, 'B')] if f == 'B' else [(l, 'A'), (l, 'B')]
            # s = c * product of its gammas; the image is c * product of the images
            a, ka = one, 1
            for (l, f) in gam:
                z, a = smul(a, ('M', ((l, f),)))
                ka *= z
            b, kb = one, 1
            for (l, f) in gam:
                z, b = smul(b, ('M', ((p[l], f),)))
                kb *= z
            k *= kb / ka
            s = b
    return int(round(complex(k).real)), s


def constrained(Hs, strs, orth, words):
    """C (commutator norms), A (rows of the constraints), N (basis of the operators that obey them)."""
    n = len(strs)
    S = [sk(s) for s in strs]
    C = np.zeros((n, n))
    for H in Hs:
        h = {sk(s): int(c.real) for (c, s) in H}
        cols = [bracket({s: 1}, h) for s in S]
        C += np.array([[sum(a.get(k, 0) * b.get(k, 0) for k in a) for b in cols] for a in cols], dtype=float).reshape(n, n)
    R = []
    for o in orth:
        f = {sk(s): c.real for (c, s) in o}
        R.append([f.get(s, 0.0) for s in S])
    for w in words:
        img = [act(w, s) for s in S]
        for i in range(n):
            R.append([(img[j][0] if img[j][1] == S[i] else 0) - (1 if i == j else 0) for j in range(n)])
    R = [r for r in R if any(r)]
    if R:
        A = np.array(R, dtype=float)
        u, s, vt = np.linalg.svd(A)
        rk = int((s > 1e-9).sum())
        return C, A, vt[rk:].T
    return C, np.zeros((0, n)), np.eye(n)


def certificate(Hs, strs, orth, words):
    """Eigenvectors of the commutator norm among the operators that obey the constraints."""
    n = len(strs)
    if n > 14:
        return []
    C, A, N = constrained(Hs, strs, orth, words)
    if N.shape[1] == 0:
        return [{'U': [], 'lam': [], 'mu': []}]
    lam, V = np.linalg.eigh(N.T @ C @ N)
    U = N @ V
    mu = np.linalg.lstsq(A.T, C @ U - U * lam, rcond=None)[0] if len(A) else np.zeros((0, U.shape[1]))
    return [{'U': [[n14(x) for x in u] for u in U.T], 'lam': [n14(x) for x in lam], 'mu': [[n14(x) for x in m] for m in mu.T]}]


def witness(Hs, strs, orth, words):
    """For larger bases: the best operator that obeys the constraints."""
    if len(strs) <= 14:
        return []
    C, A, N = constrained(Hs, strs, orth, words)
    if N.shape[1] == 0:
        return []
    lam, V = np.linalg.eigh(N.T @ C @ N)
    return [rawop(Operator(N @ V[:, 0], list(strs), strs[0].op_type))]


def rand_init(rng, t, H, kind):
    labels = sorted({int(l) for s in H._basis for l in s.orbital_labels})
    r = rng.random()
    k = rng.randint(1, 3)
    if kind == 'bilinear':
        d = {}
        for _ in range(k):
            d[rand_string(rng, 'M', labels, 1, 2)] = 1.0
        d = {s: rng.choice([1., -1., 2.]) for s in d}
        d = {s: c for (s, c) in d.items() if sum(2 if o == 'D' else 1 for o in s.orbital_operators) == 2} or {OperatorString(['D'], [labels[0]], 'Majorana'): 1.0}
        return Operator(list(d.values()), list(d.keys()), 'Majorana')
    return int_op(rng, t, labels, k, 1, 2)


def rand_H(rng):
    t = rng.choice('PPM')
    r = rng.random()
    if t == 'M' and r < 0.6:
        n = rng.randint(3, 5)
        d = {}
        for i in range(n - 1):
            for (f, g) in (('A', 'B'), ('B', 'A')):
                if rng.random() < 0.8:
                    d[OperatorString([f, g], [i, i + 1], 'Majorana')] = float(rng.choice([-2, -1, 1, 2, 3]))
        for i in range(n):
            if rng.random() < 0.6:
                d[OperatorString(['D'], [i], 'Majorana')] = float(rng.randint(1, 3))
        if d:
            return t, Operator(list(d.values()), list(d.keys()), 'Majorana'), 'bilinear'
    if r < 0.3:
        return t, chain(rng, t, rng.randint(2, 3)), ''
    return t, int_op(rng, t, list(range(rng.randint(2, 4))), rng.randint(2, 5), 1, 2), ''


def thr24(x):
    return int(math.floor(x * 2.0 ** 24))


def e_search(rng, large=False, anti=False, force=None):
    t, H, kind = rand_H(rng)
    if rng.random() < .25:     # couplings of different sizes
        far = set(rng.sample(range(len(H)), min(len(H), 2)))
        H = Operator([(6 if i in far else 1) * c / abs(c) for (i, c) in enumerate(H.coeffs)], H._basis.op_strings)
    if large:
        t, kind = rng.choice('PPM'), ''
        H = chain(rng, t, rng.randint(3, 4))
    init = rand_init(rng, t, H, kind)
    variant = rng.choice(['simple', 'ci', 'sweep', 'one', 'greedy', 'greedy', 'greedy', 'greedy'] if not large else ['greedy', 'greedy', 'sweep'])
    tiny = force == 'tiny'
    variant = 'sweep' if tiny else force or variant
    if tiny:       # a handful of strings and constraints
        labels = list(range(rng.randint(1, 2)))
        H, kind = int_op(rng, t, labels, rng.randint(1, 2)), ''
        init = int_op(rng, t, labels, rng.randint(1, 2))
    if anti:
        labels = sorted({int(l) for s in H._basis for l in s.orbital_labels})
        variant, init = 'greedy', int_op(rng, t, labels, rng.randint(2, 4), 1, 2)
        if rng.random() < .6:      # everything of the first kind is added; strings that commute, so many of the second
            anti, labels = 'all', list(range(rng.randint(3, 4)))
            f = 'D' if t == 'M' else rng.choice('XYZ')
            H = Operator([float(rng.randint(1, 3))], [rand_string(rng, t, labels, 1, 1)])
            d = [OperatorString([f] * len(l), l, TF[t]) for k in (1, 2, 3) for l in itertools.combinations(labels, k)]
            init = Operator([float(c) for c in rng.sample([-4, -3, -2, -1, 1, 2, 3, 4], 4)], rng.sample(d, 4))
    if variant == 'simple' and not (kind == 'bilinear' or max(int(l) for s in H._basis for l in s.orbital_labels) < 2):
        if force:
            return None
        variant = 'ci'
    steps = rng.choice([0, 1, 2, 2, 3, 3, 4] if variant != 'sweep' else [0, 1, 1, 2, 2])
    thr = rng.choice([1e-6, 0.001, 0.01, 0.03, 0.1, 0.15])
    mx = rng.choice([2, 3, 4, 6, 8, 100] if not large else [8, 30, 100])
    kw, Hs, orth, words, free = {}, [H], [], [], False
    o = dict(steps=steps, nH=[], nO=0, max=[mx] * 64, thr=thr24(thr), tcn=-1, mrc=0)
    if rng.random() < 0.9 or thr != 1e-6:
        kw['threshold'] = thr
    if rng.random() < 0.9 or mx != 100:
        kw['max_basis_size'] = mx
    fn = {'simple': 'selected_ci_simple', 'ci': 'selected_ci', 'sweep': 'selected_ci_sweep', 'one': 'selected_ci_greedy_simple',
          'greedy': 'selected_ci_greedy'}[variant]
    cap = 30
    if variant in ('ci', 'sweep') and (force == 'ci' or rng.random() < 0.5):
        kw['max_num_evecs'] = kw['min_num_evecs'] = rng.choice([1, 2, 3, 5] if not force else [3, 4, 6])
        if rng.random() < .6:
            kw['min_num_evecs'] = 1
        if rng.random() < 0.7:
            kw['eval_threshold'] = rng.choice([.5, 2.5, 6.5, 20.5])
    if variant == 'sweep' and (large or tiny or rng.random() < 0.3):
        orth = [int_op(rng, t, sorted({int(l) for s in H._basis for l in s.orbital_labels}), rng.randint(1, 2)) for _ in range(rng.randint(1, 2))]
        kw['orth_ops'] = orth
    o['pf'] = o['tf'] = 0
    if variant in ('ci', 'sweep') and rng.random() < .3:
        m = o['tf'] = rng.randint(1, 2)
        kw['filter_trunc_fun' if variant == 'ci' else 'trunc_filter_fun'] = lambda v, B: np.array([x if len(s.orbital_labels) <= m else 0.0 for (x, s) in zip(v, B)])
    if variant == 'sweep' and rng.random() < .3:
        m2 = o['pf'] = rng.randint(2, 3)
        kw['pre_filter_fun'] = lambda B: Basis([s for s in B if len(s.orbital_labels) <= m2])
    nH = 10
    if variant == 'greedy':
        nH = rng.choice([1, 1, 2, 3, 10, 10]) if not anti else 64 if anti == 'all' else 1
        if nH != 10 or rng.random() < 0.5:
            kw['num_H_terms'] = nH
        o['nH'] = [nH] * 64
        if rng.random() < 0.15 and steps:
            o['nH'] = [rng.choice([1, 2, 10]) for _ in range(steps)]
            kw['num_H_terms'] = rng.choice([list, np.array])(o['nH'])
        if rng.random() < 0.15 and steps:
            o['max'] = [rng.choice([2, 4, 6, 100]) for _ in range(steps)]
            kw['max_basis_size'] = rng.choice([list, np.array])(o['max'])
        if anti or rng.random() < 0.25:
            o['nO'] = kw['num_O_terms'] = rng.randint(1, 4) if not anti else rng.randint(1, 3) if anti == 'all' else rng.randint(2, 6)
        r = rng.choice([.1, .2, .3, .39]) if large else rng.random() if not anti else 1.0
        labels = sorted({int(l) for s in H._basis for l in s.orbital_labels} | {int(l) for s in init._basis for l in s.orbital_labels})
        if r < 0.25:
            orth = [int_op(rng, t, labels, rng.randint(1, 2)) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.4:
                orth[0] = Operator([1.0], [rng.choice(init._basis.op_strings)])
            kw['orth_ops'] = orth
        if 0.15 < r < 0.4:
            n = max(labels) + 1
            p = list(range(n))[::-1] if rng.random() < 0.7 else rng.sample(range(n), n)
            if t == 'P' and rng.random() < 0.3:
                words, ts = [[{'k': 'tr'}]], [qy.time_reversal()]
            else:
                words, ts = [[{'k': 'perm', 'p': p}]], [qy.label_permutation(p)]
            kw['transformations'] = ts
        elif 0.4 < r < 0.55:
            Hs = [H] + [int_op(rng, t, labels, rng.randint(1, 3)) for _ in range(rng.randint(0, 2))]
            orth, words = [], []
        elif 0.55 < r < 0.7:
            kw['target_operator'] = init if rng.random() < 0.5 else int_op(rng, t, labels, 2)
            kw['num_vecs'] = rng.choice([1, 2, 3])
            free = True
        elif 0.7 < r < 0.8:
            kw['num_vecs'] = rng.choice([2, 3])
        if rng.random() < 0.15:
            tc = rng.choice([0.25, 1.0, 4.0, 8.0])
            kw['target_com_norm'] = tc
            o['tcn'] = int(tc * 2 ** 14)
        if rng.random() < 0.15:
            m = rng.choice([1, 64, 256, 512])
            kw['min_relative_change'] = m / 1024
            o['mrc'] = m
        if rng.random() < 0.7:
            kw['verbose'] = False
    if variant != 'simple' and rng.random() < 0.4:
        kw['explored_data'] = (Basis(), Basis(), dict())
        if rng.random() < 0.7:   # filled by an earlier search
            call(alg.selected_ci_greedy, init, H, rng.randint(1, 2), num_H_terms=3, explored_data=kw['explored_data'], verbose=False)
    args = (init, H if len(Hs) == 1 and rng.random() < 0.9 else Hs, steps) if variant == 'greedy' else (init, H, steps)
    np.random.seed(rng.randrange(2 ** 31))
    r, exc, mut = call(getattr(qy, fn, None) or getattr(alg, fn), *args, **kw)
    mut = [m for m in mut if m != 'explored_data']
    if exc and (o['pf'] or o['tf']):      # the filter of the caller may have removed every string
        return None
    if not exc:
        sizes = [len(op._basis) for op in r[2]]
        if any(s > 30 for s in sizes) or (large and not any(s >= 20 for s in sizes)) or (variant == 'simple' and any(s >= 20 for s in sizes)):
            return None
        if 'target_operator' in kw and any(np.isnan(c) for c in r[3]):
            return None
    elif variant == 'simple':     # dense enough for the sparse solver: not this machine's business
        s, _, _ = call(lambda: [len(b) for b in growth(init, H)])
        if not s or max(s) >= 20:
            return None
    certs = []

    def build():
        certs = [certificate(Hs, op._basis.op_strings, orth, words) for op in r[2]]
        return dict(ops=[rawop(op) for op in r[2]], norms=[n14(x) for x in r[3]], best=rawop(r[0]) if r[2] else enc_op(r[0], e=0),
                    bestn=n14(r[1]), certs=certs, wits=[witness(Hs, op._basis.op_strings, orth, words) for op in r[2]])
    fr = free or (len(Hs) > 1 and kw.get('num_vecs', 1) > 1) or (kw.get('num_vecs', 1) > 1 and (orth or words))
    if kw.get('num_vecs', 1) > 1 and (orth or words):
        return None
    return guard('search', build, exc, mut, variant=variant, Hs=[enc_op(h, e=0) for h in Hs], init=enc_op(init, e=0),
                 orth=[enc_op(x, e=0) for x in orth], words=words, free=bool(fr), **o)


def e_fixed(variant, H, init, steps, perm=None, orth=(), mx=100, **kw):
    """One search on a given input (strings as (coefficient, factors, labels))."""
    P = lambda terms: Operator([float(c) for (c, _, _) in terms], [OperatorString(list(f), list(l), 'Pauli') for (_, f, l) in terms])
    H, init, orth, words = P(H), P(init), [P(x) for x in orth], []
    o = dict(steps=steps, nH=[10] * 64 if variant == 'greedy' else [], nO=kw.get('num_O_terms') or 0, max=[mx] * 64, thr=thr24(kw.get('threshold', 1e-6)), tcn=-1, mrc=0, pf=0, tf=0)
    if perm:
        words, kw['transformations'] = [[{'k': 'perm', 'p': perm}]], [qy.label_permutation(perm)]
    if orth:
        kw['orth_ops'] = orth
    r, exc, mut = call(getattr(qy, 'selected_ci_' + variant, None) or getattr(alg, 'selected_ci_' + variant), init, H, steps, max_basis_size=mx, **kw)

    def build():
        return dict(ops=[rawop(op) for op in r[2]], norms=[n14(x) for x in r[3]], best=rawop(r[0]), bestn=n14(r[1]),
                    certs=[certificate([H], op._basis.op_strings, orth, words) for op in r[2]], wits=[witness([H], op._basis.op_strings, orth, words) for op in r[2]])
    return guard('search', build, exc, mut, variant=variant, Hs=[enc_op(H, e=0)], init=enc_op(init, e=0), orth=[enc_op(x, e=0) for x in orth], words=words, free=False, **o)


def xxz(n, xy, z, *more):
    return [(c, f + f, [i, i + 1]) for i in range(n - 1) for (f, c) in (('X', xy), ('Y', xy), ('Z', z))] + list(more)


def witnesses():
    """Exactly singular factors, and a basis of two strings with constraints."""
    yield e_fixed('greedy', [(c, f + f, [i, i + 1]) for i in range(3) for (f, c) in (('X', 2), ('Y', -1), ('Z', -1))],
                  [(-3, 'X', [2]), (-3, 'ZX', [0, 2])], 1, [3, 2, 1, 0], mx=8)
    yield e_fixed('greedy', [(c, f + f, [i, i + 1]) for i in range(2) for (f, c) in (('X', -2), ('Y', -1), ('Z', -1))],
                  [(1, 'XX', [1, 2]), (3, 'XY', [0, 2]), (-2, 'X', [0])], 2, [2, 1, 0], mx=30, num_O_terms=4)
    yield e_fixed('greedy', xxz(3, 1, -2, (3, 'Z', [2])), [(-3, 'XY', [0, 2]), (3, 'Z', [1]), (1, 'Z', [0])], 2, [2, 0, 1], threshold=.1)
    yield e_fixed('sweep', [(6, 'XX', [0, 1]), (-1, 'YY', [0, 1]), (6, 'ZZ', [0, 1])], [(3, 'Z', [0]), (-2, 'YX', [0, 1]), (2, 'Y', [1])], 1,
                  orth=[[(3, 'ZX', [0, 1])]], mx=6, threshold=.001, max_num_evecs=1, min_num_evecs=1, eval_threshold=.5)


def e_hist(rng, thr=False):
    """Long searches with uneven couplings: what is recorded, what is taken as the best, and when it stops."""
    n = rng.randint(4, 7)
    k = lambda: float(rng.choice([-1, 1]) * rng.randint(1, 6))
    t = rng.choice('PPM')
    if t == 'P':
        two, one = rng.choice([('Z', 'X'), ('X', 'Z'), ('Y', 'X')])
        S = [OperatorString([two, two], [i, i + 1], 'Pauli') for i in range(n - 1)] + [OperatorString([one], [i], 'Pauli') for i in range(n)]
        if rng.random() < .4:
            S += [OperatorString([one, one], [i, i + 1], 'Pauli') for i in range(n - 1)]
        init = OperatorString([rng.choice('XYZ')], [n // 2], 'Pauli')
    else:
        S = [OperatorString(['A', 'B'], [i, i + 1], 'Majorana') for i in range(n - 1)] + [OperatorString(['B', 'A'], [i, i + 1], 'Majorana') for i in range(n - 1)]
        S += [OperatorString(['D', 'D'], [i, i + 1], 'Majorana') for i in range(n - 1) if rng.random() < .6] + [OperatorString(['D'], [i], 'Majorana') for i in range(n)]
        init = OperatorString(['D'], [n // 2], 'Majorana')
    H = Operator([k() for _ in S], S)
    init = Operator([1.0], [init])
    steps, nH, mx = rng.randint(4, 9), rng.choice([1, 2, 2, 3]), rng.choice([4, 6, 8, 10, 12])
    o = dict(steps=steps, nH=[nH] * 64, nO=0, max=[mx] * 64, thr=thr24(1e-6), tcn=-1, mrc=0, tf=0, pf=0)
    kw = dict(num_H_terms=nH, max_basis_size=mx, verbose=False)
    if rng.random() < .2:
        tc = rng.choice([1.0, 4.0, 16.0])
        kw['target_com_norm'], o['tcn'] = tc, int(tc * 2 ** 14)
    if rng.random() < .2:
        m = rng.choice([16, 64, 128])
        kw['min_relative_change'], o['mrc'] = m / 1024, m
    fn, variant = alg.selected_ci_greedy, 'hist'
    if not thr and rng.random() < .5:      # the other searches of one operator
        fn, variant = rng.choice([alg.selected_ci, alg.selected_ci_greedy_simple, alg.selected_ci_sweep]), 'other'
        kw = dict(max_basis_size=mx, threshold=rng.choice([1e-6, .05, .15]))
        steps = rng.randint(3, 6) if fn is not alg.selected_ci_sweep else 2
        if rng.random() < .6:      # and their bases
            variant = {alg.selected_ci: 'ci', alg.selected_ci_greedy_simple: 'one'}.get(fn, 'sweep')
            mx = kw['max_basis_size'] = rng.randint(2, 5)
            steps = rng.randint(4, 8) if variant != 'sweep' else 2
            o.update(max=[mx] * 64, thr=thr24(kw['threshold']))
            if t == 'M':
                H = Operator([c for (c, x) in H if x.orbital_operators.tolist() != ['D', 'D']], [x for (_, x) in H if x.orbital_operators.tolist() != ['D', 'D']])
        o['steps'] = steps
    elif thr:    # with truncations by coefficient: the threshold is lowered when a step is worse
        th = rng.choice([.03, .05, .1, .15, .2])
        kw['threshold'], o['thr'], variant = th, thr24(th), 'greedy'
        if rng.random() < .5:
            kw['num_H_terms'], o['nH'] = 30, [30] * 64
    np.random.seed(rng.randrange(2 ** 31))
    r, exc, mut = call(fn, init, H, steps, **kw)
    if not exc and any(len(op._basis) > 60 for op in r[2]):
        return None
    if thr and not exc and rng.random() < .8 and not any(y > min(r[3][:i + 1]) + .001 for (i, y) in enumerate(r[3][1:-1])):
        return None

    def build():
        e = [[] for _ in r[2]]
        return dict(ops=[rawop(op) for op in r[2]], norms=[n14(x) for x in r[3]], best=rawop(r[0]) if r[2] else enc_op(r[0], e=0),
                    bestn=n14(r[1]), certs=e, wits=e)
    return guard('search', build, exc, mut, variant=variant, Hs=[enc_op(H, e=0)], init=enc_op(init, e=0), orth=[], words=[], free=False, **o)


def e_target(rng, worse=False):
    """Searches that follow a target operator."""
    t, H, kind = rand_H(rng)
    if len(H) <= 6 and rng.random() < .7:     # couplings that all differ
        H = Operator([a * rng.choice([1., -1.]) for a in rng.sample(range(1, 7), len(H))], H._basis.op_strings)
    init = rand_init(rng, t, H, kind)
    tgt = init if rng.random() < .5 else int_op(rng, t, sorted({int(l) for s in H._basis for l in s.orbital_labels}), rng.randint(1, 3), 1, 2)
    tgt = Operator(tgt.coeffs / np.linalg.norm(tgt.coeffs), list(tgt._basis.op_strings))
    steps, nH, mx, nv, thr = rng.randint(1, 4) if not worse else rng.randint(3, 6), rng.choice([1, 2, 10]), rng.choice([2, 4, 6, 100]), rng.choice([1, 1, 2, 3]), rng.choice([1e-6, .01, .1])
    if worse:
        nv, mx = rng.choice([2, 3]), rng.choice([2, 3, 4, 6])
    kw = dict(num_H_terms=nH, max_basis_size=mx, threshold=thr, target_operator=tgt, verbose=False)
    if nv > 1 or rng.random() < .5:
        kw['num_vecs'] = nv
    tf = -1
    if rng.random() < (.7 if not worse else .2):
        tf = kw['target_fidelity'] = rng.choice([.1, .3, .5, .75, .9, .98])
        r, exc, mut = call(alg.selected_ci_greedy, init, H, steps, **dict(kw, target_fidelity=None))
        if not exc and len(r[2]) > 1:        # a fidelity that some later step does not reach at once
            val = lambda a: {sk(s): c for (c, s) in a}
            fid, best = [], 0
            for (i, a) in enumerate(r[2]):
                b = val(tgt if i == 0 else r[2][best])
                fid.append(abs(sum(c * b.get(k, 0) for (k, c) in val(a).items())) ** 2)
                best = i if abs(r[3][i]) < abs(r[3][best]) else best
            if fid[0] - min(fid[1:]) > .05:
                tf = kw['target_fidelity'] = rng.uniform(min(fid[1:]) + .02, fid[0] - .02)
            elif rng.random() < .7:
                return None
    np.random.seed(rng.randrange(2 ** 31))
    r, exc, mut = call(alg.selected_ci_greedy, init, H, steps, **kw)
    if not exc and (not r[2] or any(len(op._basis) > 14 for op in r[2]) or any(np.isnan(x) for x in r[3])):
        return None
    if worse and not exc and all(abs(b) < abs(a) + .01 for (a, b) in zip(r[3], r[3][1:-1])):
        return None
    return guard('search', lambda: dict(ops=[rawop(op) for op in r[2]], norms=[n14(x) for x in r[3]], best=rawop(r[0]), bestn=n14(r[1]),
                                        certs=[certificate([H], op._basis.op_strings, [], []) for op in r[2]], wits=[[] for _ in r[2]]),
                 exc, mut, variant='target', Hs=[enc_op(H, e=0)], init=enc_op(init, e=0), orth=[], words=[], free=True, tgt=rawop(tgt), nv=nv,
                 tfid=int(tf * 2 ** 14) if tf > 0 else -1, tf=0, steps=steps, nH=[nH] * 64, nO=0, max=[mx] * 64, thr=thr24(thr), tcn=-1, mrc=0, pf=0)


def growth(init, H):
    """Upper bounds for the expanded bases: everything reachable."""
    seen = set(sk(s) for s in init._basis)
    h = {sk(s): 1 for (_, s) in H}
    todo = list(seen)
    while todo and len(seen) < 100:
        s = todo.pop()
        for k in bracket({s: 1}, h):
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return [seen]


def e_many(rng, which):
    t, H, kind = rand_H(rng)
    if rng.random() < .6 and len(H) <= 5:     # couplings that all differ
        H = Operator([a * rng.choice([1, -1]) for a in rng.sample(range(1, 6), len(H))], H._basis.op_strings)
    k = rng.randint(1, 3)
    if which == 2 and rng.random() < .4:      # far from closed after one step
        n, kind = rng.randint(4, 6), 'bilinear'
        t, S = 'M', [OperatorString(list(f), [i, i + 1], 'Majorana') for i in range(n - 1) for f in ('AB', 'BA')] + [OperatorString(['D'], [i], 'Majorana') for i in range(n)]
        H = Operator([float(rng.choice([-1, 1]) * rng.randint(1, 4)) for _ in S], S)
    inits = []
    labels = sorted({int(l) for s in H._basis for l in s.orbital_labels})
    used = set()
    for _ in range(k):
        op = rand_init(rng, t, H, kind)
        keep = [(c, s) for (c, s) in op if sk(s) not in used] if which == 2 or rng.random() < 0.6 else list(op)
        used |= {sk(s) for (_, s) in op}
        if keep:
            inits.append(Operator([c.real for (c, _) in keep], [s for (_, s) in keep], TF[t]))
    if not inits:
        return None
    k = len(inits)
    steps = rng.choice([0, 1, 2, 3] if which == 1 else [0, 1, 2, 3, 3, 4])
    nH = rng.choice([1, 3, 10, 300] if which == 1 else [1, 3, 300, 300])
    thr, mx = 1e-6 if which == 2 else rng.choice([1e-6, 0.01, 0.03]), rng.choice([2, 4, 6, 10, 100])
    if which == 2:
        mx = max(mx, k)      # room for k independent operators
    kw = {'num_H_terms': nH, 'threshold': thr, 'max_basis_size': mx}
    nHs, mxs = [nH] * steps, [mx] * steps
    if which == 1 and steps:
        if rng.random() < .3:
            nHs = [rng.choice([1, 2, 10]) for _ in range(steps)]
            kw['num_H_terms'] = rng.choice([list, np.array])(nHs)
        if rng.random() < .3:
            mxs = [rng.choice([2, 3, 4, 6, 100]) for _ in range(steps)]
            kw['max_basis_size'] = rng.choice([list, np.array])(mxs)
    nO, orth = 0, []
    if which == 1 and rng.random() < .25:
        nO = kw['num_O_terms'] = rng.randint(1, 4)
    if which == 2 and steps:
        if rng.random() < .3:
            nHs = [rng.choice([1, 3, 10, 300]) for _ in range(steps)]
            kw['num_H_terms'] = rng.choice([list, np.array])(nHs)
        if rng.random() < .5:
            orth = [int_op(rng, t, labels, rng.randint(1, 2)) for _ in range(rng.randint(1, 2))]
            if rng.random() < .5:
                orth[0] = Operator([1.0], [rng.choice(rng.choice(inits)._basis.op_strings)])
            kw['orth_ops'] = orth
    nH = min(nHs or [nH])
    if rng.random() < 0.4:
        kw['explored_data'] = (Basis(), Basis(), dict())
        if rng.random() < .6:   # filled by an earlier search
            call(alg.selected_ci_greedy, inits[0], H, rng.randint(1, 2), num_H_terms=3, explored_data=kw['explored_data'], verbose=False)
    if rng.random() < 0.7:
        kw['verbose'] = False
    fn = alg.selected_ci_greedy_many_ops if which == 1 else alg.selected_ci_greedy_many_ops2
    np.random.seed(rng.randrange(2 ** 31))
    r, exc, mut = call(fn, inits, H, steps, **kw)
    mut = [m for m in mut if m != 'explored_data']
    if not exc and any(len(op._basis) > 36 for ops in r[0] for op in ops):
        return None

    def feas(step, i):
        ops = r[0]
        cur = [ops[step][j] if j < i else ops[step - 1][j] if step else inits[j] for j in range(k) if j != i]
        S = list(ops[step][i]._basis.op_strings)
        ind = {sk(s): a for (a, s) in enumerate(S)}
        A = np.zeros((len(cur), len(S)))
        for (a, o) in enumerate(cur):
            for (c, s) in o:
                if sk(s) in ind:
                    A[a, ind[sk(s)]] += c.real
        if len(S) > 24:
            return []
        if not cur:
            return []
        u, s, vt = np.linalg.svd(A)
        if np.any((s > 1e-9) & (s < 1e-3)):
            return []
        rk = int((s > 1e-9).sum())
        return [n14(x) for x in vt[-1]] if rk < len(S) else []

    def build():
        d = dict(ops=[[rawop(op) for op in ops] for ops in r[0]], norms=[[n14(x) for x in ns] for ns in r[1]])
        if which == 1:
            d['feas'] = [[feas(s, i) for i in range(k)] for s in range(len(r[0]))]
        else:
            d['certs'] = [certificate([H], ops[0]._basis.op_strings, orth, []) for ops in r[0]]
        return d
    return guard('smany' if which == 1 else 'smany2', build, exc, mut, H=enc_op(H, e=0), inits=[enc_op(x, e=0) for x in inits], steps=steps, nH=nH, nHs=nHs, nO=nO, orth=[enc_op(x, e=0) for x in orth], max=mxs if which == 1 else mx, thr=thr24(thr))


def e_trunc(rng):
    fb, fo = getattr(alg, '_truncate_basis', None), getattr(alg, '_truncate_operator', None)
    t = rng.choice('PM')
    n = rng.randint(0, 9)
    S = []
    while len(S) < n:
        s = rand_string(rng, t, [0, 1, 2, 10], 0, 3)
        if s not in S:
            S.append(s)
    pool = [rng.randint(0, 12) for _ in range(4)]
    vals = [rng.choice([1, -1, 1j]) * rng.choice(pool) / 16 for _ in S]
    thr = rng.choice(pool + [0, 3, 5]) / 16
    mx = rng.choice([0, 1, 2, 3, 5, n, n + 1, 100])
    vec = [fix(v, 14) for v in vals]
    if rng.random() < 0.5 or not S:
        if fb is None:
            return None
        r, exc, mut = call(fb, Basis(S), np.array(vals, dtype=complex), threshold=thr, max_basis_size=mx)
        res = lambda: dict(r=enc_basis(r), coeffs=[])
    else:
        if fo is None:
            return None
        r, exc, mut = call(fo, Operator(np.array(vals, dtype=complex), S, TF[t]), threshold=thr, max_basis_size=mx)
        if exc and not any(abs(v) > thr for v in vals) or mx == 0:
            return None      # an operator without terms
        res = lambda: dict(r=enc_basis(r._basis), coeffs=[fix(c, 14) for c in r.coeffs])
    if exc == 'TypeError':
        return None
    return guard('trunc', res, exc, mut, B=[enc_str(s) for s in S], vec=vec, thr=int(thr * 2 ** 14), max=mx)


def e_hifi(rng):
    t = rng.choice('PM')
    n = rng.choice([2, 4, 6, 8])
    S = []
    while len(S) < n:
        s = rand_string(rng, t, [0, 1, 2, 10], 0, 3)
        if s not in S:
            S.append(s)
    cols = []
    i = 0
    while i < n:
        if n - i >= 4 and rng.random() < 0.6:
            for h in rng.sample([(1, 1, 1, 1), (1, -1, 1, -1), (1, 1, -1, -1), (1, -1, -1, 1)], 3):
                v = np.zeros(n, dtype=complex)
                v[i:i + 4] = np.array(h) * 0.5 * rng.choice([1, -1, 1j])
                cols.append(v)
            i += 4
        else:
            v = np.zeros(n, dtype=complex)
            v[i] = rng.choice([1, -1, 1j])
            cols.append(v)
            i += 1
    rng.shuffle(cols)
    cols = cols[:rng.randint(1, len(cols))]
    if not any(c.imag.any() for c in cols):
        cols = [c.real for c in cols] if rng.random() < 0.7 else cols
    E = np.array(cols).T
    pick = rng.sample(S, rng.randint(1, n)) + ([s for s in [rand_string(rng, t, [3, 4], 1, 2)] if s not in S] if rng.random() < 0.4 else [])
    T = Operator(np.array([complex(rng.choice([-2, -1, 1, 2, 3]), rng.choice([0, 0, 1])) for _ in pick]), pick, TF[t])
    tv = np.array([sum(c for (c, s) in T if s == b) for b in S])
    if np.abs(E.conj().T @ tv).max() < 1e-9:
        return None
    vals = [rng.randint(0, 9) for _ in cols]
    r, exc, mut = call(alg.highest_fidelity_operator, T, E, np.array(vals, dtype=float), Basis(S))
    return guard('hifi', lambda: dict(vec=[fix(v, 14) for v in r[0]], norm=fix(r[1], 10)[0], fid=fix(r[2], 10)[0]), exc, mut,
                 B=[enc_str(s) for s in S], E=enc_cols(E), vals=vals, T=enc_op(T, e=0))


def c19(rec, rng, tier):
    def many(n, f):
        es = []
        k = 0
        while len(es) < n and k < 20 * n:
            k += 1
            e = f()
            if e is not None:
                es.append(e)
        for e in es:
            rec.session([e])
    if rec.round == 0:
        for e in witnesses():
            rec.session([e])
    many(120, lambda: e_search(rng))
    many(16, lambda: e_search(rng, force='simple'))
    many(14, lambda: e_search(rng, force='ci'))
    many(12, lambda: e_search(rng, force='tiny'))
    many(12, lambda: e_search(rng, True))
    many(20, lambda: e_search(rng, anti=True))
    many(60, lambda: e_hist(rng))
    many(24, lambda: e_hist(rng, True))
    many(40, lambda: e_target(rng))
    many(16, lambda: e_target(rng, True))     # with steps that are worse than an earlier one
    many(24, lambda: e_many(rng, 1))
    many(30, lambda: e_many(rng, 2))
    many(40, lambda: e_trunc(rng))
    if hasattr(alg, 'highest_fidelity_operator'):
        many(30, lambda: e_hifi(rng))


def run(rec, rng, tier):
    {'C18': c18, 'C19': c19}[rec.prop](rec, rng, tier)


if __name__ == '__main__':
    main(run)
