"""C01, C02, C06: string and operator algebra, structure constants, Liouvillian and commutant matrices."""
from lib import *

MODES = ['product', 'commutator', 'anticommutator']
FN = {'product': qy.product, 'commutator': qy.commutator, 'anticommutator': qy.anticommutator}


def pair_event(a, b):
    r, exc, mut = {}, '', []
    for m in MODES:
        res, x, mu = call(FN[m], a, b)
        exc = exc or x
        mut += mu
        if not x:
            try:
                (c, s) = res
                v = enc_vals([c], 0)
                r[m] = {'has': s is not None, 'c': v['c'][0], 'x': v['x'], 's': enc_str(s)}
            except Exception as e:
                exc = exc or 'BadResult' + type(e).__name__
    return ev('pair', exc, mut, a=enc_str(a), b=enc_str(b), r=r)


def pair_refused(a, b):
    xs = []
    mut = []
    for m in MODES:
        _, x, mu = call(FN[m], a, b)
        xs.append(x)
        mut += mu
    return ev('pairrej', '', mut, a=enc_str(a), b=enc_str(b), x=xs)


def scaled(A, e):
    return A if e == 0 else Operator(A.coeffs * 2.0 ** e, A._basis.op_strings, A.op_type)


def opop_event(mode, A, B, s=(0, 0)):
    """The operation is bilinear: the operands may be scaled by powers of two, which are divided out of the result."""
    ea, eb = enc_op(A), enc_op(B)
    if ea['e'] + eb['e'] - s[0] - s[1] > 48:       # numbers below 1e-16 count as zero
        s = (0, 0)
    A2, B2 = scaled(A, s[0]), (scaled(B, s[1]) if B is not A or s[0] != s[1] else None)
    res, exc, mut = call(FN[mode], A2, A2 if B2 is None else B2)
    return guard('opop', lambda: {'r': enc_op(scaled(res, -s[0] - s[1]))}, exc, mut, junk=[res], mode=mode, A=ea, B=eb)


def sc_event(mode, A, B, ext=True):
    res, exc, mut = call(qy.structure_constants, A, B, operation_mode=mode, return_extended_basis=True)

    def build():
        (sc, ext) = res
        return {'ext': enc_basis(ext), 'mats': [enc_sparse(sc[s]) for s in B], 'nm': len(sc)}
    return guard('sc', build, exc, mut, junk=[res], mode=mode, A=enc_basis(A), B=enc_basis(B))


def sc_tuple_event(mode, A, B):
    res, exc, mut = call(qy.structure_constants, A, B, operation_mode=mode, return_extended_basis=True,
                         return_data_tuple=True)

    def build():
        (sc, ext) = res
        mats = []
        for s in B:
            (r, c, d) = sc[s]
            v = enc_vals(d)
            mats.append({'e': v['e'], 'x': v['x'], 'n': len(ext), 'm': len(A),
                         'a': [[int(i) + 1, int(j) + 1] + g for (i, j, g) in zip(r, c, v['c'])]})
        return {'ext': enc_basis(ext), 'mats': mats, 'nm': len(sc)}
    return guard('sc', build, exc, mut, junk=[res], mode=mode, A=enc_basis(A), B=enc_basis(B))


def liou_event(mode, basis, O):
    isb = isinstance(basis, Basis)
    ops = [Operator([1.0], [s]) for s in basis] if isb else basis
    eops = enc_ops(ops)
    eO = enc_op(O)
    r1, x1, m1 = call(qy.liouvillian_matrix, basis, O, operation_mode=mode, return_extended_basis=True)
    r2, x2, m2 = call(qy.liouvillian_matrix, basis, O, operation_mode=mode)
    r3, x3, m3 = call(qy.commutant_matrix, basis, O, operation_mode=mode)
    r4, x4, m4 = call(qy.commutant_matrix, basis, O, operation_mode=mode, return_extended_basis=True)

    def build():
        (L, ext) = r1
        (C4, ext4) = r4
        d = lambda m: m.toarray() if ss.issparse(m) else np.asarray(m)
        return {'ext': enc_basis(ext), 'L': enc_sparse(L), 'C': enc_sparse(r3),
                'same': bool(d(L).shape == d(r2).shape and np.allclose(d(L), d(r2)) and ext == ext4
                             and d(C4).shape == d(r3).shape and np.allclose(d(C4), d(r3)))}
    return guard('liou', build, x1 or x2 or x3 or x4, m1 + m2 + m3 + m4, junk=[r1, r2, r3, r4], mode=mode, B=eops, O=eO,
                 bs=([enc_str(s) for s in basis] if isb else []))


def run(rec, rng, tier):
    big = tier == 'thorough'
    if rec.prop == 'C01':
        evs = []
        if rec.round == 0:
            for t in 'PM':
                S = all_strings(t, [0, 1])
                evs += [pair_event(a, b) for a in S for b in S]
            S = all_strings('M', [3, 4, 7])
            T = all_strings('P', [3, 4, 7])
            for Q in (S, T):
                prs = [(a, b) for a in Q for b in Q]
                evs += [pair_event(a, b) for (a, b) in (prs if big else rng.sample(prs, 900))]
        for _ in range(4000 if big else 2500):
            t = rng.choice('PM')
            w = rng.choice([5, 9, 30] + WIDE)
            labs = sorted(rng.sample(range(w), min(w, rng.randint(2, 14))))
            k = rng.choice([3, 6, 14])
            a = rand_string(rng, t, labs, 0, k)
            b = a if rng.random() < .05 else rand_string(rng, t, labs, 0, k)
            evs.append(pair_event(a, b))
            if rng.random() < .2:    # the identical support, other factors
                fs = {'P': 'XYZ', 'M': 'ABD'}[t]
                c = OperatorString([rng.choice(fs) for _ in a.orbital_labels], a.orbital_labels, a.op_type)
                evs.append(pair_event(a, c))
        for _ in range(20):
            evs.append(pair_refused(rand_fermion(rng, range(6)), rand_fermion(rng, range(6))))
        rec.chunked(evs, 40)
    elif rec.prop == 'C02':
        evs = []
        for _ in range(1500 if big else 800):
            t = rng.choice('PM')
            labs = pick_labels(rng, rng.choice([2, 3]), [3, 4, 12, 12] + WIDE[:3])
            n1, n2 = rng.choice([(1, 1), (2, 3), (4, 4), (6, 5), (8, 8), (5, 2), (3, 7), (2, 2), (4, 1)])
            if rng.random() < .05:
                n1, n2 = rng.choice([(0, 3), (3, 0), (0, 0)])
            k = rng.choice([1, 2, 2, 3, 3])
            A = rand_op(rng, t, labs, n1, cplx=rng.random() < .7, kmax=k)
            B = rand_op(rng, t, labs, n2, cplx=rng.random() < .7, kmax=k)
            if rng.random() < .1:    # tiny coefficients next to ordinary ones
                A = Operator([rng.choice([1.0, 2.0 ** -11, -2.0 ** -10 * 1j]) for _ in A.coeffs], A._basis.op_strings, TF[t])
                B = Operator([rng.choice([1.0, 2.0 ** -9]) for _ in B.coeffs], B._basis.op_strings, TF[t])
            q = rng.random()
            if q < .1:
                B = A
            elif q < .2:      # cancellations: products of (S+T) and (S-T)
                B = Operator([c * rng.choice([1, -1, 1j]) for c in A.coeffs], A._basis.op_strings, TF[t])
            elif q < .35:     # the same strings in another order, with other coefficients
                q = list(A._basis.op_strings)
                rng.shuffle(q)
                B = Operator([rand_coeff(rng, zero=.05) for _ in q], q, TF[t])
            sc = (rng.choice([-20, -14, -3, 5, 12]), rng.choice([-20, -9, 0, 4])) if rng.random() < .25 else (0, 0)
            for mode in (MODES if rng.random() < .3 else [rng.choice(MODES)]):
                evs += again(rng, .05, opop_event, mode, A, B, sc)
        for _ in range(12):
            A = rand_op(rng, 'P', [0, 1, 2], 2)
            B = rand_op(rng, 'M', [0, 1, 2], 2)
            s = rand_string(rng, 'P', [0, 1, 2])
            for (x, y, w) in ((A, B, 'types'), (B, A, 'types'), (A, s, 'string'), (s, A, 'string'),
                              (rand_op(rng, 'F', [0, 1, 2], 2), rand_op(rng, 'F', [0, 1, 2], 2), 'fermion')):
                xs, mut = [], []
                if w == 'fermion' and (len(x) == 0 or len(y) == 0):
                    continue
                for m in MODES:
                    _, e, mu = call(FN[m], x, y)
                    xs.append(e)
                    mut += mu
                evs.append(ev('oprej', '', mut, x=xs, why=w))
        rec.chunked(evs, 20)
    elif rec.prop == 'C06':
        evs = []
        for i in range(300 if big else 160):
            t = rng.choice('PM')
            labs = pick_labels(rng, 3, [3, 6, 15] + WIDE[:3])
            mode = MODES[i % 3]
            pool = all_strings(t, labs)
            A = Basis(rng.sample(pool, rng.choice([0, 1, 4, 8, 15])))
            B = Basis(rng.sample(pool, rng.choice([1, 3, 6])))
            evs += again(rng, .1, sc_event, mode, A, B)
            if rng.random() < .4:
                evs.append(sc_tuple_event(mode, A, B))
        for i in range(500 if big else 280):
            t = rng.choice('PM')
            labs = pick_labels(rng, 3, [3, 6, 15] + WIDE[:3])
            mode = MODES[i % 3]
            O = rand_op(rng, t, labs, rng.choice([1, 2, 4, 6]), cplx=rng.random() < .5, zero=.05, big=4, den=2)
            if rng.random() < .5:
                basis = Basis(rng.sample(all_strings(t, labs), rng.choice([1, 4, 9, 14])))
            else:
                basis = []
                while not basis:
                    basis = [o for o in (rand_op(rng, t, labs, rng.choice([1, 2, 3]), cplx=rng.random() < .4, zero=0.05, big=3, den=2)
                                         for _ in range(rng.choice([1, 3, 6]))) if len(o)]
                if rng.random() < .2:
                    basis.append(basis[0])
            evs += again(rng, .1, liou_event, mode, basis, O)
        rec.chunked(evs, 4)


if __name__ == '__main__':
    main(run)
