"""C20, C21: matrices, vectors, density matrices; exact and free-fermion diagonalization."""
from lib import *
import itertools

D = sys.modules.get('qosy.diagonalization') or __import__('qosy.diagonalization', fromlist=['x'])


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def as_op(x):
    return enc_op(x) if isinstance(x, Operator) else dict(enc_vals([1.0]), t=TN[x.op_type], s=[enc_str(x)])


def ivec(rng, m, cplx=True):
    """A random vector of small integers, often sparse."""
    z = rng.choice([0, 0, .5, .8])
    v = [0 if rng.random() < z else complex(rng.randint(-4, 4), rng.randint(-4, 4) if cplx else 0) for _ in range(m)]
    v = np.array(v)
    return v if cplx or rng.random() < .5 else v.real + 0.0


# ---------------------------------------------------------------- C20
def e_mat(x, n):
    res, exc, mut = call(qy.to_matrix, x, n)
    return guard('mat', lambda: {'M': enc_sparse(res)}, exc, mut, [res], A=as_op(x), n=n)


def e_tmat(x, p):
    def f():
        y = qy.label_permutation(p).apply(x)
        return qy.to_matrix(y, len(p))
    res, exc, mut = call(f)
    return guard('tmat', lambda: {'M': enc_sparse(res)}, exc, mut, [res], A=as_op(x), n=len(p), p=list(map(int, p)))


def e_tovec(M, basis, n, which):
    res, exc, mut = call(getattr(qy, which), M, basis, n)

    def build():
        if which == 'to_vector':
            return {'vec': enc_vals(np.asarray(res).tolist()), 'hasop': False}
        return {'vec': enc_vals(list(res.coeffs)), 'hasop': True, 'o': enc_op(res)}
    return guard('tovec', build, exc, mut, [res], M=enc_sparse(M), B=enc_basis(basis), n=n)


def e_tconf(p, cs):
    n = len(p)
    fn = getattr(D, 'apply_transformation_conf', None)
    if fn is None:
        return None
    T = qy.label_permutation(p)
    out, exc, mut = [], '', []
    for c in cs:
        res, exc, mut = call(fn, T, c, n)
        if exc or mut:
            break
        out.append(int(res))
    return ev('tconf', exc, mut, p=list(map(int, p)), n=n, cs=cs, r=out)


def e_tvec(p, v):
    n = len(p)
    res, exc, mut = call(qy.apply_transformation, qy.label_permutation(p), v, n)
    return guard('tvec', lambda: {'r': enc_vals(np.asarray(res).tolist())}, exc, mut, [res], p=list(map(int, p)), n=n, v=enc_vals(v.tolist()))


def e_rdm(u, v, q, n):
    res, exc, mut = call(qy.reduced_density_matrix, u if v is None else (u, v), q, n)
    v = u if v is None else v
    return guard('rdm', lambda: {'R': enc_cols(res)}, exc, mut, [res], u=enc_vals(u.tolist()), v=enc_vals(v.tolist()), q=[int(x) for x in q], n=n)


def e_renyi(rho, k, e, default):
    """rho: integer matrix over 2^e."""
    args = {} if default else {'n': k}
    res, exc, mut = call(qy.renyi_entropy, np.array(rho) / 2.0 ** e, **args)

    def build():
        x = float(np.exp((1 - k) * res)) * 2.0 ** (e * k)
        return {'val': int(round(x)) if abs(x - round(x)) < 1e-6 * max(1, abs(x)) and abs(x) < MAXINT else -1}
    return guard('renyi', build, exc, mut, R=enc_cols(np.array(rho), e=0), k=k)


def c20(rec, rng, tier, big):
    S = []
    for n in (1, 2):
        for s in all_strings('P', range(n)):
            S.append(e_mat(s, n))
            if n == 2:
                S.append(e_mat(s, 3))
    for _ in range(40 * big):
        n = rng.randint(1, 7)
        S += again(rng, .15, e_mat, rand_string(rng, 'P', range(n), 0, n), n)
    for n in (1, 3):
        S.append(e_mat(Operator([], [], 'Pauli'), n))
    for _ in range(60 * big):
        n = rng.randint(1, 6)
        A = rand_op(rng, 'P', range(n), rng.randint(1, 6), kmax=n)
        S += again(rng, .15, e_mat, A if rng.random() < .7 else 2.0 ** rng.randint(-10, 8) * A, n)
    for _ in range(40 * big):
        n = rng.randint(1, 5)
        p = perm(rng, n)
        x = rand_string(rng, 'P', range(n), 0, n) if rng.random() < .4 else rand_op(rng, 'P', range(n), rng.randint(1, 5), kmax=n, cplx=False)
        S.append(e_tmat(x, p if rng.random() < .5 else np.array(p)))
    for _ in range(60 * big):
        n = rng.randint(1, 3)
        full = all_strings('P', range(n))
        if rng.random() < .3:
            b = list(full)
            rng.shuffle(b)
        else:
            b = rng.sample(full, rng.randint(1, min(9, len(full))))
        r = rng.random()
        if r < .5:
            M = np.array([rand_coeff(rng, True, .3, 2) for _ in range(4 ** n)]).reshape(2 ** n, 2 ** n) + 0j
        else:
            ss_ = rng.sample(full, rng.randint(1, min(6, len(full))))
            d = {json.dumps(enc_str(s)): (s, rand_coeff(rng)) for s in ss_}
            M = sum(c * qy.to_matrix(s, n) for (s, c) in d.values()).toarray()
        S.append(e_tovec(ss.csr_matrix(M) if rng.random() < .6 else ss.csc_matrix(M) if rng.random() < .5 else M, Basis(b), n, rng.choice(['to_vector', 'to_operator'])))
    for _ in range(60 * big):
        n = rng.randint(1, 7)
        p = perm(rng, n)
        S.append(e_tvec(p if rng.random() < .5 else np.array(p), ivec(rng, 2 ** n, rng.random() < .7)))
        S.append(e_tconf(p, list(range(2 ** n)) if n < 4 else rng.sample(range(2 ** n), 8)))
    for _ in range(90 * big):
        n = rng.randint(1, 6)
        q = perm(rng, n)[:rng.randint(0, n)]
        u = ivec(rng, 2 ** n)
        v = ivec(rng, 2 ** n) if rng.random() < .5 else None
        q = rng.choice([list, tuple, lambda x: np.array(x, dtype=int)])(q)
        S += again(rng, .15, e_rdm, u, v, q, n)
    for _ in range(60 * big):
        m = rng.choice([1, 2, 2, 4, 4, 8])
        k = rng.choice([2, 2, 3, 4] if m < 8 else [2, 3])
        if rng.random() < .5:
            w = [rng.randint(0, 8) for _ in range(m)]
            w[0] += 1
            rho = np.diag(w).astype(complex)
        elif rng.random() < .5:      # of a pair of states: not Hermitian
            rho = np.array([rng.randint(0, 3) * (rng.random() < .7) for _ in range(m * m)]).reshape(m, m).astype(complex)
            if rng.random() < .5:
                P = np.diag([rng.choice([1, -1, 1j, -1j]) for _ in range(m)])
                rho = P @ rho @ P.conj().T
            if rng.random() < .3:
                rho = rho.real if not rho.imag.any() else rho
        else:
            B = np.array([complex(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(m * 2)]).reshape(m, 2)
            B[0, 0] += 1 if not B.any() else 0
            rho = B @ B.conj().T
        tr = np.trace(np.linalg.matrix_power(rho, k))
        if tr.real < 1e8 and tr.real > 0.5 and abs(tr.imag) < 1e-9:
            S += again(rng, .2, e_renyi, rho, k, rng.randint(0, 4), k == 2 and rng.random() < .5)

    def rej(why, want, fn, *a):
        _, exc, mut = call(fn, *a)
        S.append(ev('dgrej', exc, mut, why=why, want=want))
    T2 = qy.label_permutation([1, 0])
    v = np.arange(8.) + 0j
    rej('matrix-majorana', 'NotImplementedError', qy.to_matrix, opstring('A 0 B 1'), 2)
    rej('matrix-fermion', 'NotImplementedError', qy.to_matrix, opstring('CDag 0 C 1'), 2)
    rej('matrix-majorana', 'NotImplementedError', qy.to_matrix, Operator([1.], [opstring('D 0')]), 1)
    rej('matrix-type', 'ValueError', qy.to_matrix, 'X 0', 1)
    rej('matrix-type', 'ValueError', qy.to_matrix, Basis([opstring('X 0')]), 1)
    rej('permutation-length', 'ValueError', qy.apply_transformation, T2, v, 3)
    rej('permutation-kind', 'ValueError', qy.apply_transformation, qy.time_reversal(), v, 3)
    rej('density-matrix-type', 'ValueError', qy.reduced_density_matrix, [1., 0.], [0], 1)
    if hasattr(D, 'apply_transformation_conf'):
        rej('permutation-length', 'ValueError', D.apply_transformation_conf, T2, 3, 3)
        rej('permutation-kind', 'ValueError', D.apply_transformation_conf, qy.particle_hole(), 3, 3)
    rec.chunked([e for e in S if e], 8)


# ---------------------------------------------------------------- C21
SC = 1.0      # the code is given SC * A: energies are recorded over SC


def times(A):
    return A if SC == 1.0 else SC * A


def pairs(vals):
    return [fix(v / SC, 14) for v in vals]


def cols14(a):
    return enc_cols(np.asarray(a), e=14)


def e_eig(A, n, herm=True, k=0):
    kw = {} if herm else {'mode': 'nonHermitian'}
    if k:
        kw['num_vecs'] = k
    res, exc, mut = call(qy.diagonalize, times(A), n, **kw)
    fv, fX = [], cols14(np.zeros((0, 0)))
    if k and herm:
        full, e2, _ = call(qy.diagonalize, times(A), n)     # judged by its own event; here a certificate
        if not e2:
            fv, fX = pairs(full[0]), cols14(full[1])
    return guard('eig', lambda: {'vals': pairs(res[0]), 'X': cols14(res[1])}, exc, mut, [res], A=enc_op(A), n=n, herm=herm, k=k, fv=fv, fX=fX)


def herm_op(rng, t, n, k=None):
    """A Hermitian operator with integer coefficients."""
    return rand_op(rng, t, range(n), rng.randint(1, 6) if k is None else k, cplx=False, kmin=1 if t == 'F' else 0, kmax=min(n + (t == 'F'), 4), den=1, big=3, zero=0)


def fstr(cd, c, f=1.0):
    return OperatorString(['CDag'] * len(cd) + ['C'] * len(c), list(cd) + list(c), 'Fermion', prefactor=f)


def quad_fermion(rng, n, pairing, loose=True):
    """Quadratic fermion Hamiltonian with real coefficients."""
    d = []
    dens = rng.choice([.3, .6, 1])
    for i in range(n):
        for j in range(i, n):
            if rng.random() > dens:
                continue
            if i == j:
                d.append(fstr([i], [i]))
                continue
            a, b = (j, i) if not loose or rng.random() < .5 else (i, j)
            r = rng.choice(['re', 'im', 'both'])
            if r != 'im':
                d.append(fstr([a], [b]))
            if r != 're':
                d.append(fstr([a], [b], 1j))
            if pairing:
                r = rng.choice(['', 're', 'im', 'both'])
                if r in ('re', 'both'):
                    d.append(fstr([i, j], []))
                if r in ('im', 'both'):
                    d.append(fstr([i, j], [], 1j))
    if not d:
        d.append(fstr([0], [0]))
    rng.shuffle(d)
    c = [float(rng.choice([1, 2, 3, -1, -2, 1])) for _ in d]
    if rng.random() < .3:
        c = [1.0] * len(d)
    return Operator(c, d)


def quad_majorana(rng, n, hopping=False):
    d = []
    dens = rng.choice([.3, .6, 1])
    for i in range(n):
        for j in range(i, n):
            for (x, y) in ([('D', '')] if i == j else itertools.product('AB', 'AB')):
                if rng.random() < dens:
                    d.append(OperatorString([x], [i], 'Majorana') if i == j else OperatorString([x, y], [i, j], 'Majorana'))
    if not d:
        d.append(OperatorString(['D'], [0], 'Majorana'))
    rng.shuffle(d)
    return Operator([float(rng.choice([1, 2, -1, -2, 3])) for _ in d], d)


def hop_majorana(rng, n):
    """Number-conserving: the Majorana form of hoppings and on-site terms, with exact coefficients."""
    while True:
        A = qy.convert(quad_fermion(rng, n, False, False), 'Majorana').remove_zeros()
        if len(A._basis):
            return A


def shifted(rng, A, n):
    """The same Hamiltonian on other labels, within 0 .. n-1."""
    m = max(l for s in A._basis.op_strings for l in s.orbital_labels) + 1
    if n <= m or rng.random() < .5:
        return A
    lab = sorted(rng.sample(range(n), m))
    return Operator(list(A.coeffs), [OperatorString(list(s.orbital_operators), [lab[l] for l in s.orbital_labels], s.op_type, prefactor=s.prefactor) for s in A._basis.op_strings])


def empty(n=0):
    return cols14(np.zeros((n, 0)))


def e_tb(A, n, k=0):
    fn = qy.diagonalize_quadratic_tightbinding
    res, exc, mut = call(fn, times(A), n, **({'num_vecs': k} if k else {}))
    FE, FP = [], empty(n)
    if k:
        full, e2, _ = call(fn, times(A), n)
        if not e2:     # energies of the full problem, in any order
            full = (np.sort(full[0]), np.asarray(full[1])[:, np.argsort(full[0])])
            FE, FP = [v[0] for v in pairs(full[0])], cols14(full[1])
    return guard('tb', lambda: {'E': [v[0] for v in pairs(res[0])], 'P': cols14(res[1])}, exc, mut, [res], A=enc_op(A), n=n, k=k, FE=FE, FP=FP)


def e_bdg(A, n, k=0):
    res, exc, mut = call(qy.diagonalize_bdg, times(A), n, **({'num_vecs': k} if k else {}))
    FE, FU, FV = [], empty(n), empty(n)
    if k:
        full, e2, _ = call(qy.diagonalize_bdg, times(A), n)
        if not e2:
            FE, FU, FV = [v[0] for v in pairs(full[0])], cols14(full[1]), cols14(full[2])
    return guard('bdg', lambda: {'E': [v[0] for v in pairs(res[0])], 'U': cols14(res[1]), 'V': cols14(res[2])}, exc, mut, [res],
                 A=enc_op(A), n=n, k=k, FE=FE, FU=FU, FV=FV)


def e_quad(A, n):
    res, exc, mut = call(qy.diagonalize_quadratic, times(A), n)

    def build():
        F = np.asarray(res[2])
        return {'shift': fix(res[0] / SC, 14)[0], 'E': [v[0] for v in pairs(res[1])], 'P': cols14(F[:n, :]), 'Q': cols14(F[n:, :]), 'Z': cols14(res[3])}
    return guard('quad', build, exc, mut, [res], A=enc_op(A), n=n)


def e_cross(A, n):
    (full, e1, m1), (res, e2, m2) = call(qy.diagonalize, times(A), n), call(qy.diagonalize_quadratic, times(A), n)
    return guard('cross', lambda: {'vals': [v[0] for v in pairs(full[0])], 'E': [v[0] for v in pairs(res[1])], 'shift': fix(res[0] / SC, 14)[0]}, e1 or e2, m1 + m2, A=enc_op(A), n=n)


def sc(rng, fn, *a):
    """Events with the Hamiltonian at some scale."""
    global SC
    SC = 2.0 ** (rng.randint(-12, 4) if rng.random() < .3 else 0)
    out = again(rng, .12, fn, *a)
    SC = 1.0
    return out


def c21(rec, rng, tier, big):
    S = []
    nm = 4
    for _ in range(70 * big):
        t = rng.choice('PMF')
        n = rng.randint(1, nm)
        S += sc(rng, e_eig, herm_op(rng, t, n), n + (rng.random() < .2 and n < nm))
    for _ in range(25 * big):
        t = rng.choice('PPMF')
        n = rng.randint(2, nm)
        A = herm_op(rng, t, n, rng.randint(4, 9))
        S += sc(rng, e_eig, A, n, True, rng.randint(1, 2 ** n - 2))
    for _ in range(25 * big):
        n = rng.randint(1, nm)
        if rng.random() < .5:
            A = rand_op(rng, 'P', range(n), rng.randint(1, 5), cplx=True, kmax=n, den=1, big=3, zero=0)
            S += sc(rng, e_eig, A, n, False, rng.choice([0, 0, 1]) if n > 1 and len(A._basis) > 2 else 0)
        else:
            S += sc(rng, e_eig, herm_op(rng, rng.choice('PMF'), n), n, False)
    N = 6 if tier == 'quick' else 7
    for _ in range(60 * big):
        n = rng.randint(1, N)
        m = n + rng.choice([0, 0, 1])
        A = shifted(rng, quad_fermion(rng, n, False), m)
        S += sc(rng, e_tb, A, m)
    for _ in range(20 * big):
        n = rng.randint(1, N)
        S += sc(rng, e_tb, hop_majorana(rng, n), n)
    for _ in range(20 * big):
        n = rng.randint(3, N + 1)
        S += sc(rng, e_tb, quad_fermion(rng, n, False), n, rng.randint(1, n - 2))
    for _ in range(60 * big):
        n = rng.randint(1, N)
        m = n + rng.choice([0, 0, 1])
        A = shifted(rng, quad_fermion(rng, n, rng.random() < .8) if rng.random() < .7 else quad_majorana(rng, n), m)
        S += sc(rng, e_bdg, A, m)
    for _ in range(15 * big):
        n = rng.randint(2, N)
        S += sc(rng, e_bdg, quad_fermion(rng, n, True), n, rng.randint(1, 2 * n - 2))
    for _ in range(90 * big):
        n = rng.randint(1, N)
        m = n + rng.choice([0, 0, 0, 1])
        A = shifted(rng, quad_fermion(rng, n, rng.random() < .7) if rng.random() < .5 else quad_majorana(rng, n), m)
        S += sc(rng, e_quad, A, m)
    for _ in range(20 * big):
        n = rng.randint(1, 3)
        S += sc(rng, e_cross, quad_fermion(rng, n, True, False) if rng.random() < .5 else quad_majorana(rng, n), n)

    def rej(why, fn, *a):
        _, exc, mut = call(fn, *a)
        S.append(ev('dgrej', exc, mut, why=why, want='ValueError'))
    fs = [qy.diagonalize_quadratic, qy.diagonalize_quadratic_tightbinding, qy.diagonalize_bdg]
    for fn in fs:
        hop = fstr([1], [0])
        for bad in [fstr([0, 1], [1, 0]), fstr([0, 2], [2, 1]), fstr([0, 1, 2], [])]:
            i = rng.randint(0, 1)
            terms = [hop, bad] if i else [bad, hop]
            rej('not-quadratic', fn, Operator([1.0, float(rng.randint(1, 3))], terms), 3)
        rej('not-quadratic', fn, Operator([1.0, 2.0], [OperatorString(['D'], [0], 'Majorana'), OperatorString(['D', 'D'], [0, 1], 'Majorana')]), 2)
        rej('not-quadratic', fn, Operator([1.0], [OperatorString(['A', 'B', 'A', 'A'], [0, 1, 2, 3], 'Majorana')]), 4)
        rej('not-quadratic', fn, Operator([1.0, 2.0], [OperatorString(['A', 'D'], [0, 1], 'Majorana'), OperatorString(['A', 'B'], [0, 1], 'Majorana')]), 2)
        rej('not-quadratic', fn, Operator([2.0], [OperatorString(['D', 'B'], [0, 2], 'Majorana')]), 3)
        rej('linear', fn, Operator([1.0, 1.0], [fstr([0], []), fstr([1], [0])]), 2)
    rej('pairing', fs[1], Operator([1.0, 1.0], [fstr([1], [0]), fstr([0, 1], [])]), 2)
    rej('type', fs[0], Operator([1.0], [opstring('Z 0')]), 1)
    rej('type', fs[2], Operator([1.0], [opstring('Z 0')]), 1)
    rec.chunked([e for e in S if e], 5)


def run(rec, rng, tier):
    big = 4 if tier == 'thorough' else 1
    (c20 if rec.prop == 'C20' else c21)(rec, rng, tier, big)


if __name__ == '__main__':
    main(run)
