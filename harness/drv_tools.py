"""C22, C23: helper functions and subspace tools."""
import itertools
from lib import *
from exact import nullspace, big as biggest
T = qy.tools


def rint(x):
    v = int(round(float(x)))
    if abs(float(x) - v) > 1e-9:
        raise ValueError(x)
    return v


def e_sign(p, arr):
    res, exc, mut = call(T.sign, np.array(p, dtype=int) if arr else list(p))
    return guard('sign', lambda: {'r': rint(res)}, exc, mut, p=list(p))


def e_sort(v, how, arr, scale):
    x = [a * scale for a in v]
    x = np.array(x) if arr else x
    args = {} if how == 'default' else {'method': how}
    res, exc, mut = call(T.sort_sign, x, **args)
    return guard('sortsign', lambda: {'r': [rint(a / scale) for a in res[0]], 's': rint(res[1])}, exc, mut, [res], v=list(v), how=how)


def e_cliques(adj):
    res, exc, mut = call(T.maximal_cliques, [list(a) for a in adj])
    return guard('cliques', lambda: {'r': [[int(x) for x in c] for c in res]}, exc, mut, [res], adj=[list(a) for a in adj])


def e_comps(adj):
    a = [list(x) for x in adj]
    rs = [call(T.connected_components, a), call(T.connected_components, a, mode='DFS'), call(T.connected_components, a, mode='BFS')]
    return guard('comps', lambda: {'r': [[[int(x) for x in c] for c in r[0]] for r in rs]}, ''.join(r[1] for r in rs)[:20],
                 sum((r[2] for r in rs), []), [r[0] for r in rs], adj=[list(x) for x in adj], bfs=3)


def e_argsort(v, comp):
    if comp:
        res, exc, mut = call(T.argsort, [tuple(x) for x in v], comp=T.compare)
    else:
        res, exc, mut = call(T.argsort, [x[0] for x in v])
    return guard('argsort', lambda: {'r': [rint(x) for x in res]}, exc, mut, [res], v=[list(x) for x in v])


def e_dups(v, how, scale=1, tol=None):
    if how == 'arrays':
        jit = (lambda k: 0) if not tol else lambda k: ((7 * k) % 11 - 5) * tol / 12        # nearly equal
        res, exc, mut = call(T.remove_duplicates, [np.array(x, dtype=float) * scale + jit(k) for (k, x) in enumerate(v)], **({'tol': tol} if tol else {}))
    elif how == 'numbers':
        res, exc, mut = call(T.remove_duplicates, [x[0] for x in v])
    else:
        res, exc, mut = call(T.remove_duplicates, [list(x) for x in v], equiv=lambda a, b: a == b)
    scale = scale if how == 'arrays' else 1
    return guard('dups', lambda: {'r': [[rint(x)] if how == 'numbers' else [int(round(float(y / scale))) if tol else rint(y / scale) for y in x] for x in res]}, exc, mut, v=[list(x) for x in v])


def e_compose(p, q, arr):
    f = (lambda z: np.array(z, dtype=int)) if arr else list
    res, exc, mut = call(T.compose_permutations, f(p), f(q))
    return guard('compose', lambda: {'r': [rint(x) for x in res]}, exc, mut, [res], p=list(p), q=list(q))


def e_subst(text, subs, sw):
    if sw:
        (a, b) = subs
        res, exc, mut = call(T.swap, text, a, b)
        pairs = [(a, b), (b, a)]
    else:
        res, exc, mut = call(T.replace, text, dict(subs))
        pairs = list(dict(subs).items())
    return guard('subst', lambda: {'r': list(res)}, exc, mut, text=list(text), subs=[[list(a), list(b)] for (a, b) in pairs])


def graph(n, edges, rng):
    adj = [[] for _ in range(n)]
    for (a, b) in edges:
        adj[a].append(b)
        adj[b].append(a)
    for a in adj:
        rng.shuffle(a)
    return adj


def c22(rec, rng, big):
    evs = []
    if rec.round == 0:
        for n in range(0, 6 if big else 5):
            for p in itertools.permutations(range(n)):
                evs.append(e_sign(p, rng.random() < .5))
        for n in range(0, 5):
            for v in itertools.product([0, 1, 2], repeat=n):
                for how in ('insertionsort', 'mergesort', 'default'):
                    evs.append(e_sort(v, how, rng.random() < .5, rng.choice([1, 0.25, 3])))
        for a in [q for n in range(3) for q in itertools.product([0, 1, 5], repeat=n)]:
            for b in [q for n in range(3) for q in itertools.product([0, 1, 5], repeat=n)]:
                res, exc, mut = call(T.compare, list(a), tuple(b))
                evs.append(guard('compare', lambda: {'r': rint(res)}, exc, mut, a=list(a), b=list(b)))
        for n in range(0, 5):
            E = list(itertools.combinations(range(n), 2))
            for k in range(2 ** len(E)):
                adj = graph(n, [e for (i, e) in enumerate(E) if k >> i & 1], rng)
                evs.append(e_cliques(adj))
                evs.append(e_comps(adj))
    for _ in range(400 if big else 150):
        n = rng.randint(3, 12)
        p = list(range(n))
        rng.shuffle(p)
        q = list(range(n))
        rng.shuffle(q)
        evs.append(e_sign(p, rng.random() < .5))
        evs.append(e_compose(p, q, rng.random() < .5))
        v = [rng.randint(-rng.choice([2, 50]), 50) for _ in range(rng.randint(2, 12))]
        for how in ('insertionsort', 'mergesort'):
            evs.append(e_sort(v, how, rng.random() < .5, rng.choice([1, 0.25, 0.001])))
        a = [rng.randint(0, 3) for _ in range(rng.randint(0, 6))]
        b = list(a) if rng.random() < .6 else [rng.randint(0, 3) for _ in range(rng.randint(0, 6))]
        if b and rng.random() < .7:
            b[rng.randrange(len(b))] += rng.choice([-1, 1])
        f = rng.choice([list, tuple, np.array])
        res, exc, mut = call(T.compare, f(a), list(b))
        evs.append(guard('compare', lambda: {'r': rint(res)}, exc, mut, a=a, b=b))
        evs.append(e_argsort([[rng.randint(0, 9)] for _ in range(rng.randint(0, 9))], False))
        evs.append(e_argsort([[rng.randint(0, 2) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 9))], True))
        w = rng.randint(1, 3)
        evs.append(e_dups([[rng.randint(0, 2) for _ in range(w)] for _ in range(rng.randint(0, 9))], rng.choice(['arrays', 'lists'])))
        pal = rng.choice([[0, 100000, 100001], [1000000, 1000001, -1000001], [3, 4, 10 ** 7, 10 ** 7 + 3]])
        evs.append(e_dups([[rng.choice(pal) for _ in range(w)] for _ in range(rng.randint(0, 6))], rng.choice(['arrays', 'lists']), rng.choice([1, 0.25, 8, 2.0 ** -10])))
        evs.append(e_dups([[rng.choice(pal)] for _ in range(rng.randint(0, 6))], 'numbers'))
        evs.append(e_dups([[rng.randint(0, 3) for _ in range(w)] for _ in range(rng.randint(2, 7))], 'arrays', 8, rng.choice([.01, 1e-3, .1])))
        n = rng.randint(5, 8)
        pe = rng.choice([.2, .4, .6, .8])
        adj = graph(n, [e for e in itertools.combinations(range(n), 2) if rng.random() < pe], rng)
        evs.append(e_cliques(adj))
        evs.append(e_comps(adj))
        n = rng.randint(5, 9)    # cycles, paths, cliques joined at a node
        k = rng.choice(['cycle', 'path', 'star', 'two', 'multi'])
        E = {'cycle': [(i, (i + 1) % n) for i in range(n)], 'path': [(i, i + 1) for i in range(n - 1)], 'star': [(0, i) for i in range(1, n)],
             'two': [(i, j) for i in range(n) for j in range(i) if (i < n // 2) == (j < n // 2) or (i == n // 2 and j == 0)],
             'multi': [(i, j) for i in range(n) for j in range(i) if i % 3 != j % 3]}[k]
        pm = list(range(n))
        rng.shuffle(pm)
        adj = graph(n, [(pm[i], pm[j]) for (i, j) in E], rng)
        evs.append(e_cliques(adj))
        evs.append(e_comps(adj))
    for _ in range(40 if big else 12):      # beyond the sizes where numpy's sorting changes its method; many ties
        n = rng.randint(17, 48)
        p = list(range(n))
        for _ in range(rng.choice([1, 2, n])):
            i, j = rng.randrange(n), rng.randrange(n)
            p[i], p[j] = p[j], p[i]
        evs.append(e_sign(p, rng.random() < .5))
        q = list(range(n))
        rng.shuffle(q)
        evs.append(e_compose(p, q, rng.random() < .5))
        k = rng.choice([1, 2, 5, 1000])
        v = [rng.randint(-k, k) for _ in range(n)]
        if rng.random() < .3:
            v = v[::-1] if rng.random() < .5 else sorted(v)
        for how in ('insertionsort', 'mergesort'):
            evs += again(rng, .3, e_sort, v, how, rng.random() < .5, rng.choice([1, 0.5, 1024, 0.001]))
        evs.append(e_argsort([[rng.randint(0, k)] for _ in range(n)], False))
        evs.append(e_argsort([[rng.randint(0, 2) for _ in range(rng.randint(0, 3))] for _ in range(n)], True))
        evs.append(e_dups([[rng.randint(0, 3) for _ in range(2)] for _ in range(n)], rng.choice(['arrays', 'lists'])))
        n = rng.randint(9, 11)
        pe = rng.choice([.1, .3, .5, .7, .9])
        adj = graph(n, [e for e in itertools.combinations(range(n), 2) if rng.random() < pe], rng)
        evs += again(rng, .3, e_cliques, adj)
        n = rng.randint(9, 24)
        adj = graph(n, [e for e in itertools.combinations(range(n), 2) if rng.random() < rng.choice([.03, .08, .2])], rng)
        evs += again(rng, .3, e_comps, adj)
    for _ in range(1500 if big else 600):
        al = rng.choice(['ab', 'abc', 'X1 2', 'a.b|*', 'A1[\\'])
        word = lambda lo, hi: ''.join(rng.choice(al) for _ in range(rng.randint(lo, hi)))
        text = word(0, 12)
        if rng.random() < .35:
            a, b = word(1, 3), word(1, 3)
            if a == b or rng.random() < .4:
                b = a + word(1, 1)
            evs.append(e_subst(text, (a, b), True))
        else:
            subs = {}
            for _ in range(rng.randint(0, 5)):
                subs[word(1, 4)] = word(0, 3)
            evs.append(e_subst(text, list(subs.items()), False))
    rec.chunked(evs, 60)


# ---------------------------------------------------------------- C23
def imat(rng, n, m, cplx, r=None, mag=3):
    """n x m integer matrix of rank at most r."""
    def g():
        z = rng.choice([0, 0, 1, -1, rng.randint(-mag, mag)])
        return complex(z, rng.choice([0, 0, 1, -1])) if cplx else z
    if r is None or r >= min(n, m):
        return np.array([[g() for _ in range(m)] for _ in range(n)], dtype=complex if cplx else float).reshape(n, m)
    L = np.array([[g() for _ in range(r)] for _ in range(n)], dtype=complex).reshape(n, r)
    R = np.array([[rng.choice([0, 1, 1, -1]) for _ in range(m)] for _ in range(r)], dtype=complex).reshape(r, m)
    A = L.dot(R)
    return A if cplx else A.real


def independent(A):
    """The first independent columns."""
    keep = []
    for j in range(A.shape[1]):
        if np.linalg.matrix_rank(A[:, keep + [j]]) == len(keep) + 1:
            keep.append(j)
    return A[:, keep]


def clear(Q, R):
    """The spaces of Q and R meet exactly or stay apart by a clear angle (the code decides by a tolerance of 1e-10)."""
    w = np.linalg.svd(Q.conj().T.dot(R))[1] if R.shape[1] else np.zeros(0)
    d = [abs(1 - x) for x in w]
    return all(x < 1e-13 or x > 1e-8 for x in d)


def cols(A):
    return [[[int(round(z.real)), int(round(z.imag))] for z in np.asarray(A, dtype=complex)[:, j]] for j in range(A.shape[1])]


def c23(rec, rng, big):
    evs = []
    N = 400 if big else 200
    while len(evs) < N:
        n, m = rng.choice([(rng.randint(1, 7), rng.randint(0, 6))] * 9 + [(rng.randint(8, 12), rng.randint(2, 12))])
        cplx = rng.random() < .5
        tol = rng.random() < .7
        A = imat(rng, n, m, cplx, rng.choice([None, 1, 2, 3]) if tol else None)
        if rng.random() < .2 and m:
            A[:, rng.randrange(m)] = 0
        if not tol:
            A = independent(A)
        elif rng.random() < .2 and m > 1:
            A[:, rng.randrange(m)] = A[:, rng.randrange(m)]
        if not np.any(A) and tol and m and n:
            continue
        sp = rng.random() < .4
        X = (ss.csr_matrix(A) if rng.random() < .7 else ss.csc_matrix(A)) if sp else (A.copy() if rng.random() < .7 or cplx else A.astype(int))
        if n == 0 or A.shape[1] == 0:
            continue
        if rng.random() < .3:      # the lengths of the columns do not matter, down to the tolerance
            k = [2.0 ** rng.randint(-10, 10) for _ in range(A.shape[1])]
            X = X.dot(ss.diags(k).asformat(X.format)) if sp else X * np.array(k)
            X = X.asformat(X.format) if sp else X
        if not sp and rng.random() < .2:
            X = np.asfortranarray(X)
        for _ in range(rng.choice([1, 1, 1, 2])):
            res, exc, mut = call(T.gram_schmidt, X, **({'tol': rng.choice([1e-10, 1e-8])} if tol else {}))
            before = freeze(X)
            evs.append(guard('gs', lambda: {'R': enc_cols(res, 12)}, exc, mut, [res], n=n, A=cols(A), tol=tol, sp=sp))
            if freeze(X) != before:      # the result is a new matrix
                evs[-1]['mut'] = ['alias']
    N += 300 if big else 150
    while len(evs) < N:
        n = rng.choice([rng.randint(1, 7)] * 9 + [rng.randint(8, 10)])
        cplx = rng.random() < .5
        A = independent(imat(rng, n, rng.randint(1, n), cplx, mag=2))
        kind = rng.choice(['any', 'nested', 'equal', 'shared', 'disjoint', 'near', 'near', 'empty'])
        if kind == 'any':
            B = independent(imat(rng, n, rng.randint(1, n), rng.random() < .5, mag=2))
        elif kind == 'nested':
            B = A[:, :rng.randint(1, max(1, A.shape[1]))]
        elif kind == 'equal':
            B = A[:, ::-1].copy()
            if B.shape[1] > 1:
                B[:, 0] += B[:, 1]
        elif kind == 'shared':
            B = independent(np.hstack([A[:, :1] + (A[:, 1:2] if A.shape[1] > 1 else 0), imat(rng, n, rng.randint(0, n - 1), cplx, mag=2)]))
        elif kind == 'disjoint':
            A = A[:, :1]
            B = independent(np.hstack([A, imat(rng, n, n, cplx)]))[:, 1:]
        elif kind == 'near':      # almost shared directions are not shared
            A = A[:, :rng.randint(1, max(1, A.shape[1] - 1))]
            K = 2 ** rng.randint(5, 10)
            E = imat(rng, n, A.shape[1], cplx, mag=1)
            for j in range(A.shape[1]):
                if rng.random() < .4:
                    E[:, j] = 0
            B = independent(np.hstack([K * A + E, imat(rng, n, rng.choice([0, 0, 1]), cplx, mag=1)]))
        else:
            B = np.zeros((n, 0))
        if A.shape[1] == 0 or (B.shape[1] == 0 and kind != 'empty'):
            continue
        NA, NB = nullspace(np.asarray(A).T, n), nullspace(np.asarray(B).T, n)
        if biggest(NA) > 5000 or biggest(NB) > 5000:
            continue
        QA = np.linalg.qr(A)[0]
        QB = np.linalg.qr(B)[0] if B.shape[1] else B
        if kind == 'near' and not clear(QA, QB):
            continue
        for _ in range(rng.choice([1, 1, 1, 2])):
          res, exc, mut = call(T.intersection, QA, QB)
          evs.append(guard('inter', lambda: {'R': enc_cols(res, 14)}, exc, mut, [res], n=n, A=cols(A), B=cols(B), NA=NA, NB=NB, kind=kind))
    N += 300 if big else 150
    while len(evs) < N:
        n = rng.choice([rng.randint(2, 8)] * 9 + [rng.randint(9, 12)])
        cplx = rng.random() < .4
        A = independent(imat(rng, n, rng.randint(2, n), cplx, mag=2))
        if A.shape[1] < 2:
            continue
        NA = nullspace(np.asarray(A).T, n)
        if biggest(NA) > 300:
            continue
        orth = rng.random() < .5
        X = A.copy()
        if rng.random() < .3:
            X = np.linalg.qr(A)[0]
        if rng.random() < .2:
            X = X * np.array([2.0 ** rng.randint(-6, 6) for _ in range(X.shape[1])])
        if rng.random() < .2:
            X = ss.csr_matrix(X)
        res, exc, mut = call(T.sparsify, X, **({} if orth and rng.random() < .5 else {'orthogonalize': orth}))

        def build():
            W = np.linalg.pinv(np.asarray(res))
            w = [[fix(z, 10) for z in row] for row in W]
            return {'R': enc_cols(res, 14), 'W': w, 'we': 10}
        evs.append(guard('sparsify', build, exc, mut, [res], n=n, A=cols(A), NA=NA, orth=orth))
    for (f, why) in ((lambda: T.intersection(np.eye(2), np.eye(3)), 'intersection-shapes'),):
        _, exc, mut = call(f)
        evs.append(ev('toolrej', exc, mut, why=why))
    rec.chunked(evs, 10)


def run(rec, rng, tier):
    (c22 if rec.prop == 'C22' else c23)(rec, rng, tier == 'thorough')


if __name__ == '__main__':
    main(run)
