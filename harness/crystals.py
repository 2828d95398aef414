"""Crystals in integer coordinates and their qosy lattices."""
import numpy as np
import qosy as qy
from qosy.lattice import Lattice, UnitCell

S3 = np.sqrt(3.0)
# name -> (lattice vectors in rows, Gram matrix * gs, gs)
VECS = {'chain': ([[1.0]], [[1]], 1),
        'square': ([[1.0, 0], [0, 1.0]], [[1, 0], [0, 1]], 1),
        'cubic': ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1),
        'tri': ([[1.0, 0], [0.5, S3 / 2]], [[2, 1], [1, 2]], 2),
        'hex120': ([[1.0, 0], [-0.5, S3 / 2]], [[2, -1], [-1, 2]], 2),
        'rect': ([[1.0, 0], [0, 2.0]], [[1, 0], [0, 4]], 1),
        'skew': ([[1.0, 0], [3.0, 1.0]], [[1, 3], [3, 10]], 1),
        'skew2': ([[2.0, 1.0], [-1.0, 3.0]], [[5, 1], [1, 10]], 1),
        'longchain': ([[2.5]], [[25]], 4),
        'bcc': ([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]], [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]], 4)}


class Crystal:
    def __init__(self, kind, D, atoms, N, per):
        (v, g, gs) = VECS[kind]
        self.V, self.g, self.gs = np.array(v), g, gs
        assert np.allclose(self.V @ self.V.T * gs, g)
        self.kind, self.D, self.N, self.per = kind, D, list(N), [bool(p) for p in per]
        self.atoms = [([int(x) for x in f], list(o)) for (f, o) in atoms]
        self.d = len(self.N)
        self.ctor = None
        self.sc = 1.0
        self.prec = 8
        self.form = 0
        self.moved = False

    def move(self, rng):
        """The same crystal in other units and turned."""
        if self.ctor not in (None, 'default-name'):
            return
        if rng.random() < .5:
            self.sc = rng.choice([0.01, 0.25, 1.7, 3.0, 40.0])
        Q = np.eye(self.d)
        self.moved = True
        if rng.random() < .6:
            Q = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(self.d)] for _ in range(self.d)]))[0]
        self.V = self.V @ Q * self.sc

    def cart(self, x):
        """Integer coordinates (units of lattice vectors / D) to a position."""
        return np.array(x, dtype=float) @ self.V / self.D

    def frac(self, pos):
        q = np.linalg.solve(self.V.T, np.asarray(pos, dtype=float)) * self.D
        r = np.round(q)
        if np.abs(q - r).max() > 1e-6:
            raise ValueError('position off the grid')
        return [int(a) for a in r]

    def d2(self, dist):
        v = (float(dist) / self.sc) ** 2 * self.gs * self.D ** 2
        if abs(v - round(v)) > 1e-5:
            raise ValueError('distance')
        return int(round(v))

    def build(self, **kw):
        if self.ctor == 'kagome':
            return qy.lattice.kagome(self.N[0], self.N[1], periodic_boundaries=tuple(self.per), orbital_names=self.onames)
        if self.ctor == 'chain':
            return qy.lattice.chain(self.N[0], periodic=self.per[0], orbital_names=self.onames)
        if self.ctor == 'square':
            return qy.lattice.square(self.N[0], self.N[1], periodic_boundaries=tuple(self.per), orbital_names=self.onames)
        if self.ctor == 'cubic':
            return qy.lattice.cubic(self.d, tuple(self.N), periodic_boundaries=tuple(self.per), orbital_names=self.onames)
        if self.ctor == 'defaults':       # open boundaries by default
            return {1: lambda: qy.lattice.chain(self.N[0]), 2: lambda: qy.lattice.square(*self.N), 3: lambda: qy.lattice.cubic(3, tuple(self.N))}[self.d]()
        if self.form % 4 == 3 and self.ctor is None:        # everything given to the constructor
            uc = UnitCell([np.array(v) for v in self.V], [self.cart(f) for (f, _) in self.atoms], [list(o) for (_, o) in self.atoms])
        else:
            uc = UnitCell([np.array(v) for v in self.V])
        for (f, o) in self.atoms if uc.atom_positions == [] else []:
            if o == [''] and self.ctor == 'default-name':
                uc.add_atom(self.cart(f))
            else:
                uc.add_atom(self.cart(f), orbitals=list(o))
        if not any(self.per) and self.ctor == 'default-name':
            return Lattice(uc, tuple(self.N))
        # as a list, array or tuple
        N = [tuple, list, np.array][self.form % 3](self.N)
        per = [tuple, list, np.array][self.form // 3 % 3](self.per)
        if self.prec != 8:
            kw['precision'] = self.prec
        return Lattice(uc, N, periodic_boundaries=per, **kw)

    def noisy(self, lat):
        """Whether coordinates that differ by 10^-(precision+3) name the same place: no coordinate of the listing is
        near a rounding boundary, and all are written in the same fixed format."""
        if self.moved or self.ctor not in (None, 'default-name'):
            return False
        a = np.array([p for (p, _, _) in lat]).reshape(-1)
        q = np.abs(a) * 10.0 ** self.prec
        nz = np.abs(a[np.abs(a) > 1e-9])
        return bool(np.all(np.abs(q - np.floor(q) - .5) > .02)) and (len(nz) == 0 or (nz.min() > .02 and nz.max() < 15))

    def enc(self):
        return {'d': self.d, 'D': self.D, 'g': self.g, 'gs': self.gs, 'per': self.per, 'N': self.N,
                'atoms': [{'f': f, 'o': [list(n) for n in o]} for (f, o) in self.atoms]}

    def size(self):
        return int(np.prod(self.N)) * sum(len(o) for (_, o) in self.atoms)


NAMES = [[''], [''], ['Up', 'Dn'], ['A', 'B'], ['AUp', 'ADn'], ['px', 'py', ''], ['Up', 'Dn', 's'], ['pUp', 'pDn', 'Up', 'Dn'], ['DnUp', 'UpDn']]


def rand_crystal(rng, maxsize=14, kinds=None, spin=False, dims=None, forms=False):
    while True:
        kind = rng.choice(kinds or ['chain', 'square', 'cubic', 'tri', 'hex120', 'rect', 'skew', 'skew2', 'longchain', 'bcc'])
        d = len(VECS[kind][0])
        per = [rng.random() < 0.6 for _ in range(d)]
        if rng.random() < 0.35 and kind in ('chain', 'square', 'cubic', 'tri'):
            names = rng.choice(NAMES if not spin else [n for n in NAMES if len(n) > 1 and 'Dn' in ''.join(n)])
            D = 2
            at = [[0] * d] if kind != 'tri' else [[0, 0], [1, 0], [0, 1]]
            c = Crystal(kind, D, [(f, names) for f in at], [rng.randint(1, 6 if d == 1 else 4 if d == 2 else 3) for _ in range(d)], per)
            c.ctor = 'kagome' if kind == 'tri' else kind
            c.onames = None if names == [''] and rng.random() < 0.5 else names
            if names == [''] and not any(per) and kind != 'tri' and rng.random() < 0.5:
                c.ctor = 'defaults'
        else:
            D = rng.choice([1, 2, 3, 4, 6])
            k = rng.randint(1, 3)
            atoms, seen = [], set()
            for _ in range(k):
                f = [rng.randint(0, D - 1) for _ in range(d)]
                if tuple(f) in seen:
                    continue
                seen.add(tuple(f))
                if rng.random() < 0.25:
                    i = rng.randrange(d)
                    f[i] += D * rng.choice([-1, 1])
                names = rng.choice(NAMES if not spin else [n for n in NAMES if 'Dn' in ''.join(n)])
                names = rng.sample(names, len(names))
                atoms.append((f, names))
            c = Crystal(kind, D, atoms, [rng.randint(1, 5 if d == 1 else 3) for _ in range(d)], per)
            if rng.random() < 0.5:
                c.ctor = 'default-name'
        if 1 <= c.size() <= maxsize:
            c.form = rng.randrange(9)
            if rng.random() < .35:
                c.move(rng)
            if forms and c.ctor is None and not c.moved and rng.random() < .5:
                c.prec = rng.choice([4, 5, 6, 7, 9, 10])
            return c
