"""C07, C08, C09: conversions, conversion matrices, cluster bases."""
from lib import *

NAMES = ['Pauli', 'Majorana', 'Fermion']


def scaled(A, e):
    return Operator(A.coeffs * 2.0 ** e, A._basis.op_strings, A.op_type)


def conv_event(x, to, inc, sc=0):
    """Conversion is linear: an Operator may be scaled by a power of two, which is divided out of the result."""
    A = x if isinstance(x, Operator) else Operator([1.0], [x])
    ea = enc_op(A)
    args = {} if inc is None else {'include_identity': inc}
    res, exc, mut = call(qy.convert, x if sc == 0 else scaled(x, sc), to, **args)
    return guard('conv', lambda: {'r': enc_op(res if sc == 0 else scaled(res, -sc))}, exc, mut, junk=[res], A=ea, to=TN[to], inc=bool(inc), str=not isinstance(x, Operator))


def rand_any(rng, t, labels, k, herm=True):
    return rand_fermion(rng, labels, k, herm=herm) if t == 'F' else rand_string(rng, t, labels, 0, k)


def cmat(F, T):
    return call(qy.conversion_matrix, F, T)


def cm_event(F, T):
    res, exc, mut = cmat(F, T)
    return guard('cmat', lambda: {'M': enc_sparse(res)}, exc, mut, junk=[res], F=enc_basis(F), T=enc_basis(T))


def distinct(strings):
    out = []
    for s in strings:
        if s not in out:
            out.append(s)
    return out


def as_op(s, to):
    r = call(qy.convert, s, to)[0]
    return Operator([], [], to) if r is None else r


def cmr_event(F, T):
    res, exc, mut = cmat(Basis(F), Basis(T))
    to = T[0].op_type if T else F[0].op_type if F else 'Pauli'
    return guard('cmatr', lambda: {'M': enc_sparse(res)}, exc, mut, junk=[res], F=enc_basis(Basis(F)), T=enc_basis(Basis(T)),
                 conv=[enc_op(as_op(f, to)) for f in F])


def sub_event(F, T, fi, ti):
    res, exc, mut = cmat(Basis([F[i - 1] for i in fi]), Basis([T[i - 1] for i in ti]))
    return guard('cmatsub', lambda: {'M': enc_sparse(res)}, exc, mut, junk=[res], fi=fi, ti=ti)


def cmtol_event(F, T, k):
    res, exc, mut = call(qy.conversion_matrix, F, T, tol=.75 / 2 ** k)
    return guard('cmattol', lambda: {'M': enc_sparse(res)}, exc, mut, junk=[res], n=len(T), m=len(F), k=k)


def cinv_event(F, T):
    r1, x1, m1 = cmat(F, T)
    r2, x2, m2 = cmat(T, F)
    return guard('cinv', lambda: {'M': enc_sparse(r1), 'N': enc_sparse(r2)}, x1 or x2, m1 + m2, junk=[r1, r2], n=len(F))


def cluster_event(rng, k, labels, t, inc):
    def spell(q):
        return np.array(q) if rng.random() < .3 else list(q)
    kk = k if isinstance(k, int) else (np.array(k) if rng.random() < .3 else list(k))
    l2 = list(labels)
    rng.shuffle(l2)
    args = {} if not inc and rng.random() < .5 else {'include_identity': inc}
    r, x, m = call(qy.cluster_basis, kk, spell(labels), t, **args)
    r2, x2, m2 = call(qy.cluster_basis, kk, spell(l2), t, **args)
    ks = list(range(k + 1)) if isinstance(k, int) else list(k)
    return guard('cluster', lambda: {'r': enc_basis(r), 'r2': enc_basis(r2)}, x or x2, m + m2, junk=[r, r2], t=TN[t], ks=ks, labels=list(labels), inc=inc)


def run(rec, rng, tier):
    big = tier == 'thorough'
    if rec.prop == 'C07':
        evs = []
        if rec.round == 0:
            pool = [s for t in 'PM' for s in all_strings(t, [0, 1, 2])]
            pool += list(qy.cluster_basis(3, [0, 1, 2], 'Fermion'))
            for s in (pool if big else rng.sample(pool, 130)):
                for to in NAMES:
                    evs.append(conv_event(s, to, rng.choice([True, False, None])))
            for t in NAMES:
                for to in NAMES:
                    for inc in (True, False, None):
                        evs.append(conv_event(OperatorString([], [], t), to, inc))
                        evs.append(conv_event(Operator([], [], t), to, inc))
                        evs.append(conv_event(Operator([2.5], [OperatorString([], [], t)]), to, inc))
        for _ in range(900 if big else 450):
            t = rng.choice('PMF')
            to = rng.choice(NAMES)
            labs = sorted(rng.sample(range(rng.choice([4, 6, 11])), rng.choice([2, 3, 4])))
            s = rand_any(rng, t, labs, 4, herm=rng.random() < .7)
            evs += again(rng, .15, conv_event, s, to, rng.choice([True, True, False, None]))
        for _ in range(100):     # far labels (Majorana and fermion only)
            t = rng.choice('MF')
            labs = pick_labels(rng, 3, WIDE)
            evs.append(conv_event(rand_any(rng, t, labs, 3), 'Fermion' if t == 'M' else 'Majorana', rng.random() < .5))
        for _ in range(700 if big else 350):
            t = rng.choice('PMF')
            to = rng.choice(NAMES)
            labs = sorted(rng.sample(range(rng.choice([3, 4, 7])), rng.choice([2, 3])))
            A = rand_op(rng, t, labs, rng.choice([1, 2, 3, 5, 8]), cplx=rng.random() < .5, kmax=rng.choice([2, 3]))
            if len(A) == 0:
                continue
            evs += again(rng, .1, conv_event, A, to, rng.choice([True, True, False, None]), rng.choice([0, 0, 0, 0, -30, -12, 10]))
        for _ in range(4):
            for (x, to, why) in ((3, 'Pauli', 'number'), ('X 1', 'Majorana', 'text'), ([1], 'Fermion', 'list'),
                                 (rand_string(rng, 'P', [0, 1], 1), 'Boson', 'target'), (rand_fermion(rng, [0, 1], 2, 1), 'pauli', 'target')):
                _, exc, mut = call(qy.convert, x, to)
                evs.append(ev('convrej', exc, mut, why=why))
        rec.chunked(evs, 20)
    elif rec.prop == 'C08':
        sizes = [1, 1, 2, 2, 2, 3] + ([3, 3, 4] if big else [])
        for n in sizes:
            for (a, b) in [('Majorana', 'Fermion'), ('Fermion', 'Majorana'), ('Pauli', 'Majorana'), ('Majorana', 'Pauli'), ('Pauli', 'Fermion'), ('Fermion', 'Pauli')]:
                labs = list(range(n))
                if 'Pauli' not in (a, b) and rng.random() < .7:
                    labs = pick_labels(rng, n, [20] + WIDE[:3])
                F, T = qy.cluster_basis(n, labs, a), qy.cluster_basis(n, labs, b)
                evs = [cm_event(F, T)]
                for _ in range(8):
                    w = rng.random()
                    fi = list(range(1, len(F) + 1))
                    ti = list(range(1, len(T) + 1))
                    rng.shuffle(fi)
                    rng.shuffle(ti)
                    if w < .3:
                        fi = fi[:rng.randint(1, len(fi))]
                    elif w < .6:
                        ti = ti[:max(1, len(ti) - rng.randint(0, 3))]
                        fi = fi[:rng.randint(1, len(fi))]
                    elif w < .8:     # exactly the strings needed by some columns, possibly without one of them
                        fi = fi[:rng.randint(1, min(4, len(fi)))]
                        m, _, _ = cmat(F, T)
                        rows = sorted(set((np.nonzero(m.toarray()[:, [i - 1 for i in fi]])[0] + 1).tolist())) if m is not None else ti
                        rng.shuffle(rows)
                        ti = rows[:-1] if len(rows) > 1 and rng.random() < .5 else rows
                    evs.append(sub_event(F, T, fi, ti))
                evs.append(cmtol_event(F, T, rng.randint(0, 3)))
                if n < 4:
                    evs.append(cinv_event(F, T))
                rec.session(evs)
        # bases of any strings, also of the same type, with the needed strings in any order, more than these, or one less
        for _ in range(160 if big else 80):
            a, b = rng.choice(NAMES), rng.choice(NAMES)
            ta, tb = TN[a], TN[b]
            k = rng.choice([2, 3, 4, 4, 6] if ta != 'F' and tb != 'F' else [2, 3, 4])
            labs = pick_labels(rng, max(k, 3), [4, 6, 8] if 'Pauli' in (a, b) else [6, 20] + WIDE[:3])
            F = distinct(rand_any(rng, ta, labs, k) for _ in range(rng.randint(0, 5)))
            T = distinct([s for f in F for s in as_op(f, b)._basis.op_strings] + [rand_any(rng, tb, labs, k) for _ in range(rng.choice([0, 0, 1, 3]))])
            rng.shuffle(T)
            if len(T) > 40:
                continue
            if T and rng.random() < .25:
                T.pop()
            evs = again(rng, .2, cmr_event, F, T)
            rec.session(evs)
        # several clusters in one basis
        for _ in range(6 if big else 3):
            l1, l2 = sorted(rng.sample(range(9), 2)), sorted(rng.sample(range(9), 2))
            a, b = rng.choice([('Majorana', 'Fermion'), ('Fermion', 'Majorana')])
            F = qy.cluster_basis(2, l1, a) + qy.cluster_basis(2, l2, a)
            T = qy.cluster_basis(2, l1, b) + qy.cluster_basis(2, l2, b)
            rec.session([cm_event(F, T), cinv_event(F, T)])
    else:
        evs = []
        for t in NAMES:
            for n in range(1, 5 if t == 'Fermion' or big else 4):
                for k in range(1, n + 2):
                    labs = rng.sample(range(rng.choice([n, 9, 200] + WIDE[2:4])), n)
                    evs.append(cluster_event(rng, k, labs, t, rng.random() < .5))
                for ks in ([[n], [1, n], [0, 2], [2, 1], [3], [n + 1, 1], [1, 1]]):
                    labs = rng.sample(range(rng.choice([n, 30])), n)
                    evs.append(cluster_event(rng, ks, labs, t, rng.random() < .5))
            for _ in range(30 if big else 12):
                n = rng.randint(1, 5)
                labs = rng.sample(range(rng.choice([n, 12, 40])), n)
                k = rng.choice([1, 2, 3]) if rng.random() < .5 else rng.sample(range(0, 4), rng.randint(1, 3))
                if t == 'Fermion' and n == 5 or k == [0]:
                    k = 1
                evs.append(cluster_event(rng, k, labs, t, rng.random() < .5))
        rec.chunked(evs, 3)


if __name__ == '__main__':
    main(run)
