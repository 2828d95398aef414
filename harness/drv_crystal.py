"""C10, C11, C12, C25: lattices, distance bases, symmetry transformations, symmetrized lattices."""
import itertools
from lib import *
from crystals import Crystal, rand_crystal, VECS, NAMES
from qosy import transformation as tr


def e_lat(c):
    lat, exc, mut = call(c.build)
    if exc:
        return ev('lat', exc, mut, lat=c.enc()), None

    def build():
        orbs = [(p, n, k) for (p, n, k) in lat]
        return {'orbs': [[c.frac(p), list(n), [int(x) for x in k]] for (p, n, k) in orbs], 'len': len(lat),
                'pos': [c.frac(lat.position(i)) for i in range(len(lat))],
                'ids': [int(lat.index(p, n)) for (p, n, _) in orbs]}
    return guard('lat', build, '', [], lat=c.enc()), lat


def rand_pos(rng, c, lat):
    """Positions: orbitals displaced by periods, nearby grid points, arbitrary points."""
    r = rng.random()
    if r < 0.6:
        a = rng.choice(c.atoms)[0]
        x = [rng.randrange(c.N[i]) * c.D + a[i] for i in range(c.d)]
        for i in range(c.d):
            if rng.random() < 0.6:
                x[i] += rng.choice([-4, -3, -2, -1, 1, 2, 3, 5]) * c.N[i] * c.D
        return x
    if r < 0.8:
        return [rng.randint(-2 * c.D, (c.N[i] + 2) * c.D) for i in range(c.d)]
    return [rng.randint(-4 * c.D * c.N[i], 4 * c.D * c.N[i]) for i in range(c.d)]


def e_index(rng, c, lat, noisy=False):
    x = rand_pos(rng, c, lat)
    names = sorted({n for (_, o) in c.atoms for n in o})
    nm = rng.choice(names + ['', 'zz', names[0] + 'x']) if rng.random() < 0.4 else rng.choice(names)
    pos = c.cart(x)
    if noisy and rng.random() < .5:
        # roundoff of the caller, far below the precision of the lattice
        pos = pos + np.array([rng.uniform(-1, 1) for _ in range(c.d)]) * 10.0 ** (-c.prec - 3)
    if nm == '' and rng.random() < 0.5:
        res, exc, mut = call(lat.index, pos)
    else:
        res, exc, mut = call(lat.index, pos, nm)
    return guard('latidx', lambda: {'r': int(res)}, exc, mut, x=x, nm=list(nm))


def e_dist(rng, c, lat):
    n = len(lat)
    a, b = [], []
    enc = []
    for _ in range(2):
        if rng.random() < 0.6:
            i = rng.randrange(n)
            enc.append((rng.choice([int, np.int64])(i), {'i': i, 'x': []}))
        else:
            x = rand_pos(rng, c, lat)
            enc.append((c.cart(x), {'i': -1, 'x': x}))
    res, exc, mut = call(lat.distance, enc[0][0], enc[1][0])
    return guard('latdist', lambda: {'r': c.d2(res)}, exc, mut, a=enc[0][1], b=enc[1][1])


def e_distb(rng, c, lat, t=None):
    n = len(lat)
    t = t or rng.choice('PMF')
    d2s = sorted({c.d2(lat.distance(i, j)) for i in range(n) for j in range(n)})
    sc = c.gs * c.D ** 2 / c.sc ** 2
    r2 = rng.choice(d2s[:5])
    if rng.random() < 0.5:
        R, R2 = np.sqrt(r2 / sc), r2
    else:
        R, R2 = np.sqrt((r2 + 0.5) / sc), r2
    kmax = 1 if t == 'F' and n > 7 else 2 if t == 'F' or n > 10 else 3
    k = rng.randint(0 if rng.random() < 0.1 else 1, kmax)
    if rng.random() < 0.5:
        arg, ks = k, list(range(1, k + 1))
    else:
        ks = sorted(rng.sample(range(1, kmax + 1), rng.randint(1, kmax)))
        arg = rng.choice([list, np.array])(rng.sample(ks, len(ks)))
    kw = {}
    allowed = list(range(n))
    if rng.random() < 0.5:
        allowed = rng.sample(range(n), rng.randint(0 if rng.random() < 0.1 else 1, n))
        kw['allowed_orbitals'] = rng.choice([list, lambda a: np.array(a, dtype=int)])(allowed)
    inc = rng.random() < 0.4
    if inc or rng.random() < 0.3:
        kw['include_identity'] = inc
    if rng.random() < .2 and R > .3:        # a wider tolerance for a smaller radius
        kw['tol'] = 0.25
        R = R - 0.25
        if R2 == r2:
            R += 1e-9
    def one():
        res, exc, mut = call(qy.distance_basis, lat, arg, R, TF[t], **kw)
        return guard('distb', lambda: {'r': enc_basis(res)}, exc, mut, junk=[res], t=t, ks=ks, R2=R2, allowed=allowed, inc=inc)
    return again(rng, .15, one)


# ---------------------------------------------------------------- symmetrized lattices
GENS = {'chain': [[[-1]]],
        'square': [[[0, -1], [1, 0]], [[0, 1], [1, 0]], [[-1, 0], [0, 1]], [[-1, 0], [0, -1]], [[1, 0], [0, -1]]],
        'rect': [[[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[-1, 0], [0, -1]]],
        'tri': [[[0, -1], [1, 1]], [[-1, -1], [1, 0]], [[0, 1], [1, 0]], [[-1, 0], [0, -1]]],
        'hex120': [[[1, -1], [1, 0]], [[0, -1], [1, -1]], [[0, 1], [1, 0]], [[-1, 0], [0, -1]]],
        'cubic': [[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]]}


def e_symlat(rng):
    kind = rng.choice(['chain', 'square', 'square', 'rect', 'tri', 'tri', 'hex120', 'cubic'])
    d = len(VECS[kind][0])
    while True:
        c = rand_crystal(rng, 9, kinds=[kind], forms=True)
        if sum(1 for _ in c.atoms) <= (1 if d == 3 else 3):
            break
    c.per = [True] * d
    if c.ctor in ('defaults', 'default-name'):
        c.ctor = None
    gens = rng.sample(GENS[kind], rng.randint(0 if rng.random() < 0.1 else 1, min(2, len(GENS[kind]))))
    k = rng.randint(1, 2 if d == 2 else 1 if d == 3 else 3)
    V = c.V
    # lattice coordinates -> Cartesian: R = V^T M V^-T
    mats = [V.T @ np.array(M, dtype=float) @ np.linalg.inv(V.T) for M in gens]
    for (M, A) in zip(gens, mats):
        assert np.allclose(A @ A.T, np.eye(d)), (kind, M)
    lat = c.build()
    kw = {} if k == 1 and rng.random() < 0.5 else {'num_expansions': k}
    res, exc, mut = call(qy.symmetrize_lattice, lat, mats, **kw)

    def build():
        uc = res.unit_cell
        return {'R': [{'f': c.frac(p), 'o': [list(n) for n in o]} for (p, o) in zip(uc.atom_positions, uc.atom_orbitals)],
                'vec': [c.frac(v) for v in uc.lattice_vectors], 'cells': [int(x) for x in res.num_cells],
                'per': [bool(x) for x in res.periodic_boundaries]}
    return guard('symlat', build, exc, mut, lat=c.enc(), gens=gens, k=k)


# ---------------------------------------------------------------- transformations
class Prog:
    """A program that builds transformations and applies them."""

    def __init__(self, rng, c=None):
        self.rng, self.c, self.evs, self.T = rng, c, [], []
        self.lat = None
        if c is not None:
            e, self.lat = e_lat(c)
            self.evs.append(e)
            self.n = len(self.lat)
        else:
            self.n = rng.choice([2, 3, 4, 5, 6, 8, 10])

    def add(self, kind, fn, args, **inp):
        res, exc, mut = call(fn, *args)
        self.evs.append(ev('tmk', exc, mut, kind=kind, **inp))
        if not exc:
            self.T.append(res)

    def perm(self):
        p = self.rng.sample(range(self.n), self.n)
        self.add('perm', qy.label_permutation, (self.rng.choice([list, lambda a: np.array(a)])(p),), p=p)

    def sg(self):
        rng, c = self.rng, self.c
        cand = GENS.get(c.kind, []) + [np.eye(c.d, dtype=int).tolist()] * 2
        M = rng.choice(cand)
        if rng.random() < 0.15:
            M = [[rng.randint(-1, 1) for _ in range(c.d)] for _ in range(c.d)]
        t = [rng.choice([0, 0, c.D, -c.D, 2 * c.D, rng.randint(-c.D, c.D)]) for _ in range(c.d)]
        # about the centre of the lattice, for open boundaries
        if rng.random() < 0.5:
            a = rng.choice(c.atoms)[0]
            b = [rng.randrange(c.N[i]) * c.D + a[i] for i in range(c.d)]
            e = [rng.randrange(c.N[i]) * c.D + a[i] for i in range(c.d)]
            t = [e[i] - sum(M[i][j] * b[j] for j in range(c.d)) for i in range(c.d)]
        R = c.V.T @ np.array(M, dtype=float) @ np.linalg.inv(c.V.T)
        self.add('sg', qy.space_group_symmetry, (self.lat, R, c.cart(t)), M=M, t=t)

    def names(self):
        rng = self.rng
        return rng.choice([('Up', 'Dn'), ('Up', 'Dn'), ('Up', 'Dn'), ('Dn', 'Up'), ('A', 'B'), ('x', 'y'), ('Up', 'U')])

    def spin(self, kind):
        rng = self.rng
        (u, d) = self.names()
        defaults = (u, d) == ('Up', 'Dn') and rng.random() < 0.6
        args = (self.lat,) if defaults else (self.lat, u, d)
        if kind == 'trs':
            args = (args[0],) if defaults else (args,)
        fn = {'flip': qy.spin_flip_symmetry, 'par': qy.spin_parity_symmetry, 'trs': qy.time_reversal}[kind]
        self.add(kind, fn, args, up=list(u), dn=list(d))

    def compose(self):
        rng = self.rng
        a, b = rng.randrange(len(self.T)), rng.randrange(len(self.T))
        if rng.random() < 0.65:
            self.add('mul', lambda x, y: x * y, (self.T[a], self.T[b]), a=a + 1, b=b + 1)
        else:
            n = rng.choice([1, 2, 2, 3, 4, 0, -1])
            self.add('pow', lambda x, y: x ** y, (self.T[a], n), a=a + 1, n=n)

    def build(self, k):
        rng = self.rng
        for _ in range(k):
            r = rng.random()
            if r < 0.35 and self.T:
                self.compose()
            elif self.c is None:
                x = rng.random()
                if x < 0.6:
                    self.perm()
                elif x < 0.8:
                    self.add('tr', qy.time_reversal, ())
                else:
                    self.add('ph', rng.choice([qy.particle_hole, qy.charge_conjugation]), ())
            else:
                x = rng.random()
                if x < 0.35:
                    self.sg()
                elif x < 0.85:
                    self.spin(rng.choice(['flip', 'par', 'trs']))
                elif x < 0.95:
                    self.add('tr', qy.time_reversal, ())
                else:
                    self.perm()

    def apply(self, i, A, isstr):
        T = self.T[i]
        if isstr:
            arg = A._basis.op_strings[0]
            enc = enc_op(Operator([1.0], [arg]))
        else:
            arg = A
            enc = enc_op(A)
        for _ in range(2 if self.rng.random() < .15 else 1):
            res, exc, mut = call(T.apply, arg)

            def build():
                if not isinstance(res, Operator):
                    raise TypeError
                return {'r': enc_op(res)}
            self.evs.append(guard('tapply', build, exc, mut, junk=[res], i=i + 1, A=enc))

    def applies(self, k):
        rng = self.rng
        for _ in range(k):
            if not self.T:
                return
            i = rng.randrange(len(self.T))
            t = rng.choice('PPMMMMMMMMMF' if self.c is None else 'PMMMMMM')
            if rng.random() < 0.6:
                s = rand_fermion(rng, range(self.n), 3) if t == 'F' else rand_string(rng, t, range(self.n), 0, rng.choice([2, 4, 6, 12]))
                self.apply(i, Operator([1.0], [s]), True)
            else:
                op = rand_op(rng, t, range(self.n), rng.randint(0, 5), cplx=False, kmax=rng.choice([4, 4, 10]))
                if rng.random() < .3:
                    op = (2.0 ** rng.randint(-8, 10)) * op
                self.apply(i, op, False)


def run(rec, rng, tier):
    big = 2 if tier == 'thorough' else 1
    if rec.prop == 'C11':
        for k in range(170 * big):
            c = rand_crystal(rng, 30, forms=True)
            e, lat = e_lat(c)
            evs = [e]
            if lat is not None and e['exc'] == '':
                evs += [e_index(rng, c, lat, c.noisy(lat)) for _ in range(14)] + [e_dist(rng, c, lat) for _ in range(14)]
            rec.session(evs)
    elif rec.prop == 'C10':
        for k in range(110 * big):
            c = rand_crystal(rng, rng.choice([6, 8, 12]), forms=True)
            e, lat = e_lat(c)
            evs = [e]
            if lat is not None and e['exc'] == '':
                for t in 'PMF' if len(lat) <= 8 else 'PM':
                    evs += e_distb(rng, c, lat, t)
            rec.session(evs)
    elif rec.prop == 'C25':
        evs = [e_symlat(rng) for _ in range(150 * big)]
        rec.chunked(evs, 5)
    elif rec.prop == 'C12':
        if rec.round == 0:
            # single strings exhaustively on three orbitals
            for p in itertools.permutations(range(3)):
                P = Prog(rng)
                P.n = 3
                P.add('perm', qy.label_permutation, (list(p),), p=list(p))
                for s in all_strings('M', range(3)) + all_strings('P', range(3)):
                    P.apply(0, Operator([1.0], [s]), True)
                rec.session(P.evs)
            for (k, f) in [('tr', qy.time_reversal), ('ph', qy.particle_hole)]:
                P = Prog(rng)
                P.add(k, f, ())
                for s in all_strings('M', [0, 1, 2]) + (all_strings('P', [0, 1, 2]) if k == 'tr' else []):
                    P.apply(0, Operator([1.0], [s]), True)
                rec.session(P.evs)
            c = Crystal('chain', 1, [([0], ['Up', 'Dn', 's'])], [1], [False])
            for kind in ('flip', 'par', 'trs'):
                P = Prog(rng, c)
                P.spin(kind) if False else P.add(kind, {'flip': qy.spin_flip_symmetry, 'par': qy.spin_parity_symmetry, 'trs': qy.time_reversal}[kind], (P.lat,), up=list('Up'), dn=list('Dn'))
                for s in all_strings('M', [0, 1, 2]):
                    P.apply(0, Operator([1.0], [s]), True)
                rec.session(P.evs)
        for k in range(90 * big):
            P = Prog(rng)
            P.build(rng.randint(2, 6))
            P.applies(10)
            rec.session(P.evs)
        for k in range(110 * big):
            P = Prog(rng, rand_crystal(rng, rng.choice([12, 12, 24]), kinds=None if rng.random() < 0.5 else ['chain', 'square', 'tri', 'rect', 'cubic'], spin=rng.random() < 0.7))
            P.build(rng.randint(2, 6))
            P.applies(8)
            rec.session(P.evs)


if __name__ == '__main__':
    main(run)
