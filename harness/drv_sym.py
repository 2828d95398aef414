"""C13, C14, C15, C16: symmetry matrices, symmetric operators, the generator, symmetrized bases."""
import itertools
from lib import *
from drv_crystal import Prog
from crystals import Crystal
from exact import nullspace, big as biggest, well_posed, gram_in_range


def dense(a):
    a = a.toarray() if ss.issparse(a) else np.asarray(a)
    return a.astype(complex)


def cert(a, e=11, top=None):
    """Columns in fixed point (R) with a left inverse (W) of the columns at lower precision (Q). top bounds the sum of
    the magnitudes of the integer coefficients that the columns will be multiplied with."""
    a = dense(a)
    if a.ndim != 2:
        raise ValueError('not a matrix')
    W = np.linalg.pinv(a) if a.shape[1] else np.zeros((0, a.shape[0]))
    m = np.abs(W).max() if W.size else 1
    we = max(4, min(11, int(np.floor(np.log2(2.0 ** 12 / max(m, 1e-3))))))
    Q = enc_cols(a, e=e)
    big = np.abs(a).max() if a.size else 1
    hi = e if not top else max(e, min(20, int(np.floor(29 - np.log2(top) - np.log2(max(1, big))))))
    return {'R': Q if hi == e else enc_cols(a, e=hi), 'Q': Q, 'W': [[fix(v, we) for v in w] for w in W], 'we': we}


def size(space, O=None):
    """Bound on the L1 norm of the integer rows that express a symmetry on a space."""
    tot = {}
    for o in enc_space(space):
        for (c, x) in zip(o['c'], o['s']):
            k = json.dumps(x)
            tot[k] = tot.get(k, 0) + abs(c[0]) + abs(c[1])
    m = max([1] + list(tot.values()))
    return 2 * m * (1 if O is None else max([1, sum(abs(p) for c in O['c'] for p in c)]))


def scaled(rng, ops, k):
    return [Operator(np.array(o.coeffs) * 2.0 ** rng.randint(-k, k), list(o._basis.op_strings)) for o in ops]


def sysev(op):
    return enc_op(op)


# ---------------------------------------------------------------- search spaces
def label_set(rng, n):
    return list(range(n))


def strings_of(t, labels, kmax):
    return [s for s in all_strings(t, labels) if len(s.orbital_labels) <= kmax]


def space_strings(rng, t, labels, m):
    """A basis of strings: all local strings, a random subset, or with the identity."""
    S = [s for s in strings_of(t, labels, rng.choice([1, 2, 2, 3])) if s.orbital_labels.size or rng.random() < .5] if False else \
        [s for s in strings_of(t, labels, rng.choice([2, 2, 3]))]
    rng.shuffle(S)
    r = rng.random()
    if r < .3:
        S = [s for s in S if len(s.orbital_labels) > 0]
    return S[:m] if r < .85 else S[:max(1, m // 4)]


def space_ops(rng, t, labels, m, pool=None, cplx=False):
    """A list of independent operators with dyadic coefficients, real ones unless cplx."""
    S = pool or space_strings(rng, t, labels, m)
    kind = rng.choice(['strings', 'hadamard', 'disjoint', 'general', 'general', 'sums', 'unit'])
    ops = []
    ph = lambda: rng.choice([1.0, 1.0, -1.0, 1j, -1j]) if cplx else 1.0
    if kind == 'strings':
        return [Operator([ph() * rng.choice([1.0, -1.0, 2.0, 0.5])], [s]) for s in S]
    if kind == 'hadamard':         # orthonormal
        for i in range(0, len(S) - 3, 4):
            for h in [(1, 1, 1, 1), (1, -1, 1, -1), (1, 1, -1, -1), (1, -1, -1, 1)][:rng.randint(1, 4)]:
                ops.append(Operator(np.array(h) * 0.5 * ph(), S[i:i + 4]))
        return ops or [Operator([1.0], [S[0]])]
    if kind == 'disjoint':
        i = 0
        while i < len(S):
            k = rng.randint(1, 3)
            ops.append(Operator([ph() * rng.choice([1.0, -1.0, 2.0]) for _ in S[i:i + k]], S[i:i + k]))
            i += k
        return ops
    if kind == 'sums':
        return [Operator([1.0] * (i + 1), S[:i + 1]) if i < 5 else Operator([1.0, -1.0], [S[i], S[i - 1]]) for i in range(len(S))]
    M = []
    fails = 0
    while len(M) < min(m, max(1, len(S) - rng.randint(0, 3))) and len(M) < 14 and fails < 200:
        if kind == 'unit':      # norm 1, not orthogonal
            v = [0] * len(S)
            k = 4 if len(S) >= 4 and rng.random() < .8 else 1
            for i in rng.sample(range(min(len(S), 9)) if rng.random() < .8 else range(len(S)), min(k, len(S))):
                v[i] = rng.choice([.5, -.5]) * ph() if k == 4 else rng.choice([1, -1])
        else:
            v = [rng.choice([0, 0, 0, 1, -1, 2]) * ph() for _ in S]
        fails += 1
        if np.linalg.matrix_rank(np.array(M + [v])) == len(M) + 1:
            M.append(v)
    return [Operator([complex(x) if cplx else float(x) for x in v if x], [s for (x, s) in zip(v, S) if x]) for v in M]


def rand_sym_op(rng, t, labels, cplx=0, wide=.25):
    """The symmetry operators, sometimes with coefficients of different magnitudes or (with probability cplx) complex."""
    O = rand_sym_op1(rng, t, labels)
    r = rng.random()
    if r < cplx:
        return Operator([complex(c) * rng.choice([1, 1j, 1 + 1j]) for c in O.coeffs], list(O._basis.op_strings))
    if r > 1 - wide and len(O.coeffs) > 1:       # two scales
        (a, b) = rng.choice([(5, -6), (4, -7), (1, -10), (3, -8)])
        return Operator([c * 2.0 ** (rng.choice([a, b]) if i > 1 else (a, b)[i]) for (i, c) in enumerate(O.coeffs)], list(O._basis.op_strings))
    if r > .95 - wide:
        k = rng.choice([3, 5, 5])
        return Operator([c * 2.0 ** rng.randint(-k, k) for c in O.coeffs], list(O._basis.op_strings))
    return O


def rand_sym_op1(rng, t, labels):
    """Known charges, Hamiltonians, random ones."""
    F = {'P': ['X', 'Y', 'Z'], 'M': ['A', 'B', 'D']}[t]
    n = len(labels)
    r = rng.random()
    if r < .25:
        f = rng.choice(F if t == 'P' else ['D'])
        return Operator([1.0] * n, [OperatorString([f], [l], TF[t]) for l in labels])
    if r < .5 and n > 1:
        d = {}
        for i in range(n - 1):
            for f in rng.sample(F, rng.randint(1, 3)):
                d[OperatorString([f, f], [labels[i], labels[i + 1]], TF[t])] = float(rng.choice([1, 1, -1, 2]))
        return Operator(list(d.values()), list(d.keys()))
    if r < .65:
        return Operator([1.0], [rand_string(rng, t, labels, 1, n)])
    while True:
        op = rand_op(rng, t, labels, rng.randint(1, 4), cplx=False, kmin=0, kmax=3, den=1, big=3, zero=0)
        op = op.remove_zeros()
        if len(op._basis) > 0:
            return op


def enc_space(space):
    if isinstance(space, Basis):
        return [enc_op(Operator([1.0], [s])) for s in space]
    return enc_ops(space)


def prog(rng, n, k=3):
    """A transformation program (registers st.T) on labels 0..n-1; returns the one whose transformations exist."""
    if rng.random() < .5:
        P = Prog(rng)
        P.n = n
    else:
        per = rng.random() < .7
        c = rng.choice([lambda: Crystal('chain', 1, [([0], [''])], [n], [per]),
                        lambda: Crystal('chain', 2, [([0], ['Up', 'Dn'])], [max(1, n // 2)], [per]) if n % 2 == 0 else Crystal('chain', 1, [([0], [''])], [n], [per])])()
        P = Prog(rng, c)
    P.build(k)
    if not P.T:
        P.perm()
    return P


def supports(w, t):
    """Whether the transformation accepts strings of this type (tried out, not judged)."""
    _, exc, _ = call(w.apply, OperatorString(['X'] if t == 'P' else ['A'], [0], TF[t]))
    return not exc


def pick(rng, P, t):
    ok = [i for i in range(len(P.T)) if supports(P.T[i], t)]
    return rng.choice(ok) if ok else None


def crows(M, e=None):
    a = dense(M)
    v = enc_sparse(a, fe=6) if e is None else enc_sparse(a, e=e)
    rows = [[] for _ in range(a.shape[0])]
    for (i, j, x, y) in v['a']:
        rows[i - 1].append([j, x, y])
    return {'crows': rows, 'ce': v['e'], 'cx': v['x']}


def e_symmat(rng, P, i, space):
    strs = isinstance(space, Basis)
    res, exc, mut = call(qy.symmetry_matrix, space, P.T[i])
    return guard('symmat', lambda: {'M': enc_sparse(res) if strs else enc_cols(res, e=10)}, exc, mut, junk=[res], i=i + 1, B=enc_space(space), strs=strs)


def e_solve(rng, y, fn, sym, space, mode, dflt, wide=False, value=True):
    kw = {}
    top = size(space, y['O'] if y['kind'] == 'op' else None)
    if not (mode == 'commutator' and dflt):
        kw['operation_mode'] = mode
    sup = rng.random() < .6 and value
    if sup:
        kw['return_superoperator'] = True
    m = len(space)
    if rng.random() < .35 and m > 4:
        r0, exc, _ = call(fn, space, sym, operation_mode=mode)
        k = 1 if exc else np.asarray(r0).shape[1]
        if k + 1 < m - 1:
            kw['num_vecs'] = rng.randint(k + 1, m - 2)
    res, exc, mut = call(fn, space, sym, **kw)

    def build():
        if not sup:
            d = cert(res, top=top)
            d.update({'sup': False})
            return d
        (vecs, so, evals, evecs) = res
        d = cert(vecs, top=top)
        d.update(crows(so, None))
        big = max([1.0] + [abs(v) for v in evals] + list(np.abs(dense(so)).sum(axis=1)))
        ve = int(np.floor(28 - 9 - d['ce'] - np.log2(big)))
        if ve < 3 and (wide or not isinstance(space, Basis) and y['kind'] == 'tr'):   # oblique lists: huge inverse Gram matrices
            d = cert(vecs, top=top)
            d.update({'sup': False})
            return d
        if ve < 3:
            raise ValueError('superoperator out of range')
        ve = min(ve, 10)
        d.update({'sup': True, 'V': enc_cols(evecs, e=9), 'val': [fix(v, ve)[0] for v in evals], 've': ve})
        if len(evals) and np.abs(np.imag(evals)).max() > 1e-9:
            raise ValueError('complex eigenvalues')
        return d
    return guard('solve', build, exc, mut, junk=[res], y=dict(y, mode=mode), B=enc_space(space))


def e_soltol(rng, fn, sym, space, mode):
    """All operators whose eigenvalue is below a wider tolerance."""
    r0, exc, mut = call(fn, space, sym, operation_mode=mode, return_superoperator=True)
    if exc:
        return None
    val = sorted(float(np.real(v)) for v in r0[2])
    gaps = [(a + b) / 2 for (a, b) in zip(val, val[1:]) if b - a > .4 and b < 60]
    if not gaps:
        return None
    tol = rng.choice(gaps)
    res, exc, mut = call(fn, space, sym, operation_mode=mode, return_superoperator=True, tol=tol)
    return guard('soltol', lambda: dict(cert(res[0]), V=enc_cols(res[3], e=11), n=len(space),
                                        val=[fix(v, 12)[0] for v in res[2]]), exc, mut, junk=[res], tol=fix(tol, 12)[0])


def e_gentol(rng, syms, space, mode):
    """The generator hands its tolerance on."""
    def gen(**kw):
        g = qy.SymmetricOperatorGenerator(space)
        for s in syms:
            g.add_symmetry(s, operation_mode=mode)
        g.generate(mode='noncumulative', sparsification=False, verbose=False, **kw)
        return g
    g0, exc, mut = call(gen)
    if exc:
        return None
    k = rng.randrange(len(syms))
    val = sorted(float(np.real(v)) for v in g0.eigenvalues[k])
    gaps = [(a + b) / 2 for (a, b) in zip(val, val[1:]) if b - a > .4 and b < 60]
    if not gaps:
        return None
    tol = rng.choice(gaps)
    g, exc, mut = call(gen, tol=tol)
    return guard('soltol', lambda: dict(cert(g.output_operators[k]), V=enc_cols(g.eigenvectors[k], e=11), n=len(space),
                                        val=[fix(v, 12)[0] for v in g.eigenvalues[k]]), exc, mut, junk=[g], tol=fix(tol, 12)[0])


# ---------------------------------------------------------------- generator
def gen_session(rng, P, t, n, m, small=False):
    labels = list(range(n))
    if small:
        space = Basis(space_strings(rng, t, labels, 99))
    elif rng.random() < .5:
        space = Basis(space_strings(rng, t, labels, m))
    else:
        space = space_ops(rng, t, labels, m)
    evs = list(P.evs)
    U = []
    for op in ([Operator([1.0], [s]) for s in space] if isinstance(space, Basis) else space):
        for s in op._basis:
            if s not in U:
                U.append(s)
    A = np.zeros((len(U), len(space)), dtype=complex)
    for (j, op) in enumerate([Operator([1.0], [s]) for s in space] if isinstance(space, Basis) else space):
        for (c, s) in op:
            A[U.index(s), j] += c
    NA = nullspace(A.T.tolist(), len(U))
    if biggest(NA) > 2 ** 12:
        return None
    syms = []
    plain = small or rng.random() < .4       # no discrete symmetries
    for _ in range(rng.randint(1, 4)):
        mode = 'commutator' if rng.random() < .75 else 'anticommutator'
        i = pick(rng, P, t)
        if i is not None and not plain and rng.random() < .65:
            syms.append((dict(kind='tr', i=i + 1, O=0, mode=mode), P.T[i]))
        else:
            O = (rand_sym_op if plain else rand_sym_op1)(rng, t, labels, *([0 if small else .15, .9 if small else .25] if plain else []))
            syms.append((dict(kind='op', i=0, O=enc_op(O), mode=mode), O))
    ls = [Operator([1.0], [s]) for s in space] if isinstance(space, Basis) else space
    if all(y['kind'] == 'op' for (y, _) in syms):
        if not well_posed(ls, [(O, y['mode']) for (y, O) in syms], labels):
            return None
    top = max([size(space)] + [size(space, y['O']) for (y, _) in syms if y['kind'] == 'op'])
    if top > 2 ** 16:
        return None
    gen, exc, mut = call(qy.SymmetricOperatorGenerator, space)
    evs.append(ev('gnew', exc, mut, B=enc_space(space)))
    k = 0
    runs = rng.choice([1, 1, 1, 2])
    cuts = sorted({rng.randint(1, len(syms)) for _ in range(runs - 1)} | {len(syms)})
    for cut in cuts:
        while k < cut:
            (y, obj) = syms[k]
            args = (obj,) if y['mode'] == 'commutator' and rng.random() < .5 else (obj, y['mode'])
            _, exc, mut = call(gen.add_symmetry, *args)
            evs.append(ev('gadd', exc, mut, y=y))
            k += 1
        kw = {}
        for (o, p) in (('sparsification', True), ('orthogonalization', False)):
            v = rng.random() < .5
            if v != p or rng.random() < .3:
                kw[o] = v
        mode = rng.choice(['cumulative', 'noncumulative'])
        if mode == 'noncumulative' or rng.random() < .5:
            kw['mode'] = mode
        if rng.random() < .7:
            kw['verbose'] = False
        before = freeze(space)
        _, exc, mut = call(gen.generate, **kw)
        if freeze(space) != before:
            mut = mut + ['basis']

        def build():
            out = []
            outs = gen.projected_output_operators
            if mode == 'cumulative':      # outputs of earlier calls are kept, those of this call come last
                outs = outs[-len(syms[:cut]):]
            for o in outs:
                if mode == 'cumulative':
                    R = np.zeros((len(U), len(o)), dtype=complex)
                    for (j, op) in enumerate(o):
                        for (c, s) in op:
                            if abs(c) > 1e-9 or s in U:
                                R[U.index(s), j] += c
                    out.append(dict(cert(R, top=max([len(U) * biggest(NA), 2] + [2 * sum(abs(p) for c in y['O']['c'] for p in c) for (y, _) in syms if y['kind'] == 'op'])), kind='ops'))
                else:
                    out.append(dict(cert(o, top=top), kind='cols'))
            single = [cert(o, top=top) for o in gen.output_operators] if mode == 'noncumulative' else []
            return {'out': out, 'single': single}
        evs.append(guard('ggen', build, exc, mut, U=[enc_str(s) for s in U], NA=NA, opts=[mode] + sorted(k for k in kw if kw[k])))
        if exc:
            break
    return evs


def e_symbasis(rng, P, idx, basis):
    gens = [P.T[i] for i in idx]
    res, exc, mut = call(qy.symmetrize_basis, basis, gens)
    return guard('symbasis', lambda: {'r': [enc_op(o, e=12) for o in res]}, exc, mut, junk=[res], gens=[i + 1 for i in idx], B=[enc_str(s) for s in basis])


def run(rec, rng, tier):
    big = 2 if tier == 'thorough' else 1
    if rec.prop == 'C13':
        for k in range(90 * big):
            t = rng.choice('PMM')
            n = rng.randint(2, 4)
            P = prog(rng, n)
            n = P.n
            evs = list(P.evs)
            for _ in range(4):
                i = pick(rng, P, t)
                if i is None:
                    break
                space = Basis(space_strings(rng, t, range(n), rng.choice([6, 14, 26]))) if rng.random() < .5 else scaled(rng, space_ops(rng, t, range(n), rng.choice([4, 8, 14])), rng.choice([0, 0, 0, 2]))
                if rng.random() < .5:
                    evs.append(e_symmat(rng, P, i, space))
                for _ in range(rng.choice([1, 1, 2])):
                    evs.append(e_solve(rng, dict(kind='tr', i=i + 1, O=0), qy.invariant_operators, P.T[i], space, rng.choice(['commutator', 'commutator', 'anticommutator']), rng.random() < .5))
                    if isinstance(space, Basis) and rng.random() < .5:
                        evs += [e for e in [e_soltol(rng, qy.invariant_operators, P.T[i], space, rng.choice(['commutator', 'anticommutator']))] if e]
            rec.session(evs)
    elif rec.prop == 'C14':
        for k in range(190 * big):
            t = rng.choice('PM')
            n = rng.randint(1, 4)
            labels = sorted(rng.sample(range(9), n))
            space = Basis(space_strings(rng, t, labels, rng.choice([6, 14, 28]))) if rng.random() < .55 else space_ops(rng, t, labels, rng.choice([4, 8, 14]), cplx=rng.random() < .3)
            wide = not isinstance(space, Basis) and rng.random() < .3
            if wide:
                space = scaled(rng, space, 5)
            evs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if not evs or rng.random() < .7:
                    O = rand_sym_op(rng, t, labels, .2) if rng.random() < .96 else Operator([], [], TF[t])
                mode = rng.choice(['commutator', 'commutator', 'anticommutator'])
                ls = [Operator([1.0], [s]) for s in space] if isinstance(space, Basis) else space
                es = enc_op(O)['e'] + enc_space(space)[0]['e'] if len(space) else 0
                if size(space, enc_op(O)) > 2 ** 18 or not well_posed(ls, [(O, mode)], labels):
                    continue
                big_O = len(O) > 0 and max(abs(c) for c in O.coeffs) / min(abs(c) for c in O.coeffs) > 8
                evs.append(e_solve(rng, dict(kind='op', i=0, O=enc_op(O)), qy.commuting_operators, O, space, mode, rng.random() < .5, wide or big_O, gram_in_range(ls, O, mode, labels, es)))
                if isinstance(space, Basis) and rng.random() < .4:
                    evs += [e for e in [e_soltol(rng, qy.commuting_operators, O, space, mode)] if e]
            rec.session(evs)
    elif rec.prop == 'C15':
        for k in range(110 * big):
            t = rng.choice('PM')
            n = rng.randint(2, 4)
            P = prog(rng, n)
            s = gen_session(rng, P, t, P.n, rng.choice([6, 10, 18, 24]))
            if s:
                rec.session(s)
        for k in range(30 * big):
            t, n = rng.choice('PM'), rng.randint(1, 3)
            P = prog(rng, n)
            space = Basis(space_strings(rng, t, list(range(P.n)), rng.choice([4, 8, 12])))
            if len(space):
                syms = [rand_sym_op(rng, t, list(range(P.n)), .2) if i is None or rng.random() < .6 else P.T[i] for i in (pick(rng, P, t) for _ in range(rng.randint(1, 2)))]
                e = e_gentol(rng, syms, space, rng.choice(['commutator', 'anticommutator']))
                if e:
                    rec.session([e])
        for k in range(50 * big):
            P = Prog(rng)
            P.n = rng.randint(1, 2)
            P.perm()
            s = gen_session(rng, P, rng.choice('PM'), P.n, 0, small=True)
            if s:
                rec.session(s)
    elif rec.prop == 'C16':
        for k in range(110 * big):
            t = rng.choice('PMM')
            n = rng.randint(2, 5)
            P = Prog(rng)
            P.n = n
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < .6:
                    P.perm()
                elif r < .75:
                    p = [(i + 1) % n for i in range(n)]
                    P.add('perm', qy.label_permutation, (p,), p=p)
                elif r < .9:
                    p = list(range(n))
                    i, j = rng.sample(range(n), 2)
                    p[i], p[j] = j, i
                    P.add('perm', qy.label_permutation, (np.array(p),), p=p)
                else:
                    p = list(range(n))
                    P.add('perm', qy.label_permutation, (p,), p=p)
            evs = list(P.evs)
            for _ in range(3):
                idx = rng.choices(range(len(P.T)), k=rng.randint(1, 3)) if rng.random() < .4 else rng.sample(range(len(P.T)), rng.randint(1, len(P.T)))
                S = strings_of(t, range(n), 3)
                rng.shuffle(S)
                evs.append(e_symbasis(rng, P, idx, Basis(S[:rng.choice([3, 10, 25])])))
            rec.session(evs)


if __name__ == '__main__':
    main(run)
