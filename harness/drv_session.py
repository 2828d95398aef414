"""C03, C04, C05: strings, and sessions of basis and operator commands (from the model's behaviours and random ones)."""
import copy
from lib import *

NAMES = {'P': ['X', 'Y', 'Z'], 'M': ['A', 'B', 'D'], 'F': ['CDag', 'C']}


# ---------------------------------------------------------------- C03
def str_result(fn):
    """Outcome of something that builds a string."""
    res, exc, _ = call(fn)
    return {'ok': exc == '', 's': enc_str(res if not exc else None),
            'b': '' if not exc else exc}


PFS = [('none', None), ('1', 1), ('1.0', 1.0), ('1j', 1j), ('2', 2.0), ('-1', -1.0), ('-1j', -1j), ('0', 0), ('1+0j', 1 + 0j), ('np1', np.float64(1.0)), ('np1j', np.complex128(1j))]
PFK = {'none': 0, '1': 0, '1.0': 0, '1+0j': 0, 'np1': 0, '1j': 1, 'np1j': 1}


def mk_event(o, l, t, pf, arr):
    val = dict(PFS)[pf]
    def f():
        oo, ll = (np.array(o), np.array(l, dtype=int)) if arr else (list(o), list(l))
        s = OperatorString(oo, ll, t, **({} if val is None else {'prefactor': val}))
        # the caller goes on to use the objects it passed
        if arr:
            ll += 1
            oo[::-1] = oo.copy()
        else:
            ll.reverse()
            oo.append('X')
        return s
    return ev('mkstr', o=list(o), l=list(l), t=TN.get(t, '-'), pf=PFK.get(pf, 9), r=str_result(f))


def parse_event(tok, t, sep=' ', pad=''):
    num = []
    for x in tok:
        try:
            num.append(int(x))
        except ValueError:
            num.append(-1)
    text = pad + sep.join(tok) + pad
    f = (lambda: opstring(text)) if t is None else (lambda: opstring(text, t))
    return ev('parse', tok=list(tok), num=num, t=TN.get(t, '-') if t else '', r=str_result(f))


def name_event(s):
    f = lambda: opstring(str(s), s.op_type)
    g = lambda: opstring(str(s)) if len(s.orbital_labels) else opstring(str(s), s.op_type)
    return ev('name', s=enc_str(s), toks=str(s).split(), back=str_result(f), back2=str_result(g))


def eq_event(a, b):
    eq, exc, mut = call(lambda: (bool(a == b), bool(b == a)))
    def build():
        d = {a: 1}
        d[b] = 2
        bs = Basis([a])
        return {'eq': eq[0], 'qe': eq[1], 'hash': hash(a) == hash(b), 'n': len({a, b}), 'nd': len(d), 'inb': b in bs,
                'grow': len(bs + b), 'names': str(a) == str(b)}
    return guard('streq', build, exc, mut, a=enc_str(a), b=enc_str(b))


def c03(rec, rng, big):
    evs = []
    # construction
    import itertools
    for t in ['Pauli', 'Majorana', 'Fermion']:
        names = NAMES[TN[t]]
        for n in range(4):
            for o in itertools.product(names, repeat=n):
                l = sorted(rng.sample(range(rng.choice([4, 20])), n))
                if t == 'Fermion' and rng.random() < .3:
                    l = [rng.randrange(3) for _ in o]
                elif rng.random() < .2:
                    rng.shuffle(l)
                for pf in (['none', '1j'] if not big else ['none', '1', '1j', '2']):
                    evs.append(mk_event(o, l, t, pf, rng.random() < .3))
        for _ in range(60):
            n = rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(7, 14)])
            o = [rng.choice(names) for _ in range(n)]
            l = sorted(rng.sample(range(40), n))
            w = rng.random()
            tt = t
            if w < .15 and n:
                o[rng.randrange(n)] = rng.choice(['Q', 'x', 'c', 'I', '', 'XX', 'A' if t != 'Majorana' else 'X', 'cdag'])
            elif w < .3:
                (l.append(rng.randrange(40, 50)) if rng.random() < .5 or not l else l.pop())
            elif w < .4:
                tt = rng.choice(['Boson', 'pauli', '', 'majorana'])
            evs.append(mk_event(o, l, tt, rng.choice(PFS)[0], rng.random() < .3))
    # parsing: all short token sequences over a small alphabet, and longer random ones
    alpha = ['1', '1.0', '1j', 'I', 'X', 'A', 'D', 'C', 'CDag', '0', '7', 'Q', '-1j', '2.0']
    seqs = [()] + [q for n in (1, 2) for q in itertools.product(alpha, repeat=n)]
    three = list(itertools.product(alpha, repeat=3))
    four = [q + (r,) for q in rng.sample(three, 200) for r in rng.sample(alpha, 2)]
    for q in seqs + (three if big else rng.sample(three, 700)) + four:
        evs.append(parse_event(q, rng.choice([None, None, 'Pauli', 'Majorana', 'Fermion'])))
    for _ in range(500):
        t = rng.choice('PMF')
        n = rng.choice([rng.randint(1, 6), rng.randint(1, 6), rng.randint(7, 12)])
        l = sorted(rng.sample(range(rng.choice([14, 300])), n))
        o = [rng.choice(NAMES[t]) for _ in l]
        q = [x for p in zip(o, map(str, l)) for x in p]
        w = rng.random()
        if w < .5:
            q = [rng.choice(['1', '1.0', '1j'])] + q
        elif w < .6:
            q.pop(rng.randrange(len(q)))
        elif w < .7:
            q[2 * rng.randrange(n)] = rng.choice(['X', 'A', 'C', 'D', 'Y', 'B', 'Z', 'CDag'])
        elif w < .75:
            q[2 * rng.randrange(n) + 1] = rng.choice(['x', '1.5', 'A'])
        elif w < .8:
            q = [rng.choice(['2', '-1', '-1j', '1.0j', 'i'])] + q
        evs.append(parse_event(q, rng.choice([None, None, None, TF[t], rng.choice(list(TN))]), rng.choice([' ', ' ', '  ', '\t']),
                               rng.choice(['', ' ', '\n'])))
    # names and pairs
    pool = []
    for t in 'PM':
        pool += all_strings(t, [0, 1]) + [rand_string(rng, t, range(12), 0, 6) for _ in range(20)] + [rand_string(rng, t, range(16), 7, 12) for _ in range(8)]
    pool += [rand_fermion(rng, range(5)) for _ in range(40)]
    pool += [OperatorString(['CDag', 'C'], [1, 0], 'Fermion', prefactor=f) for f in (1.0, 1j)]
    pool += [OperatorString(['CDag', 'C'], [1, 2], 'Fermion', prefactor=f) for f in (1, 1j, 1.0)]
    pool += [OperatorString(['X', 'Z'], [1, 12], 'Pauli'), OperatorString(['X', 'Z'], [11, 2], 'Pauli'), OperatorString(['X', 'Z'], [2, 11], 'Pauli')]
    pool += [OperatorString([], [], TF[t]) for t in 'PMF']
    for s in pool:
        evs.append(name_event(s))
    # respelled copies
    def respell(s):
        q = str(s).split()
        pf = {0: ['1', '1.0', '1+0j', 'np1', 'none'], 1: ['1j', 'np1j']}[1 if s.prefactor == 1j else 0]
        if s.op_type == 'Majorana':
            pf = [p[0] for p in PFS if PFK.get(p[0], 9) != 9]
        w = dict(PFS)[rng.choice(pf)]
        return OperatorString(np.array(list(s.orbital_operators)), np.array(list(s.orbital_labels), dtype=rng.choice([int, np.int32])),
                              s.op_type, **({} if w is None else {'prefactor': w}))
    for s in pool:
        evs.append(eq_event(s, respell(s)))
    for _ in range(3000 if big else 1200):
        evs.append(eq_event(*rng.sample(pool, 2)))
    for s in rng.sample(pool, 60):      # one thing changed
        for _ in range(2):
            d = enc_str(s)
            n = len(d['o'])
            if n and rng.random() < .5:
                i = rng.randrange(n)
                d['l'][i] = d['l'][i] + rng.choice([1, 10])
            elif n:
                d['o'][rng.randrange(n)] = rng.choice(NAMES[d['t']])
            elif d['t'] == 'F':
                d['t'] = 'P'
            if d['t'] == 'M':
                d['f'] = 0
            evs.append(eq_event(s, dec_str(d)))
    rec.chunked(evs, 60)


# ---------------------------------------------------------------- C04, C05
class Session:
    def __init__(self, rng, types, nb, no, wide=False):
        self.rng = rng
        self.blind = 0.0      # the fraction of the steps after which nothing is looked at
        self.ty = types
        self.U = []
        names = set()
        for t in types:
            while True:
                if wide:
                    s = rand_fermion(rng, range(14), 6, 0) if t == 'F' else rand_string(rng, t, range(24), 0, 7)
                else:
                    s = rand_fermion(rng, range(4), 3, 1) if t == 'F' else rand_string(rng, t, range(4), 0, 3)
                e = json.dumps(enc_str(s))
                if e not in names:
                    names.add(e)
                    self.U.append(s)
                    break
        self.key = {json.dumps(enc_str(s)): i + 1 for (i, s) in enumerate(self.U)}
        self.line = {}
        for (i, s) in enumerate(self.U):
            self.line.setdefault(str(s).strip(), []).append(i + 1)
        self.B = [Basis() for _ in range(nb)]
        t1 = 'PMF'.index(types[0]) + 1
        self.O = [Operator([], [], TF[types[0]]) for _ in range(no)]
        self.sc = 2.0 ** rng.choice([0, 0, 0, -20, -33, 9])   # the operators of the model times a power of two
        self.keep = []    # the lists given to constructors: changed afterwards, must not matter
        self.ev = [ev('sinit', ty=['PMF'.index(t) + 1 for t in types], nb=nb, no=no)]

    def atom(self, s):
        """The atom of an OperatorString of the code under test, by its fields."""
        try:
            return self.key.get(json.dumps(enc_str(s)), 0)
        except Exception:
            return 0

    def fresh(self, a):
        """An equal but new OperatorString object."""
        s = self.U[a - 1]
        return s if self.rng.random() < .3 else OperatorString(list(s.orbital_operators), list(s.orbital_labels), s.op_type, prefactor=s.prefactor)

    def lines(self, text, withc=False):
        out = []
        for ln in text.split('\n'):
            if not ln.strip():
                continue
            if withc:
                i = ln.index('(', 1) if not ln.startswith('(') else ln.index(' (')
                i = ln.rindex(' (')
                c = complex(ln[:i].strip())
                v = enc_vals([c / self.sc], 0)['c'][0]
                out.append([(self.line.get(ln[i + 2:].rstrip().rstrip(')').strip(), [0])), v])
            else:
                out.append(self.line.get(ln.strip(), [0]))
        return out

    def obs_b(self, b):
        def idx(s):
            try:
                return int(b.index(s)) + 1
            except KeyError:
                return 0
        lines = [x for x in str(b).split('\n') if x.strip()]
        return {'q': [self.atom(s) for s in b.op_strings], 'it': [self.atom(s) for s in b], 'n': len(b),
                'get': [self.atom(b[i]) for i in range(len(b))],
                'idx': [idx(self.fresh(i + 1)) for i in range(len(self.U))],
                'has': [bool(self.fresh(i + 1) in b) for i in range(len(self.U))],
                'ln': self.lines(str(b))}

    def obs_o(self, o):
        v = enc_vals([c / self.sc for (c, _) in o], 0)
        n2 = -5       # the squared norm, not always asked for
        if self.rng.random() < .5:
            m = (o.norm() / self.sc) ** 2
            n2 = int(round(m)) if abs(m - round(m)) <= 1e-6 * max(1, m) else -7
        return {'t': 'PMF'.index(TN[o.op_type]) + 1 if o.op_type in TN else 0, 'x': v['x'], 'n': len(o), 'nc': len(o.coeffs), 'n2': n2,
                'q': [[self.atom(s), c] for ((_, s), c) in zip(o, v['c'])], 'ln': self.lines(str(o), True)}

    def do(self, c):
        """Executes a command on the real objects; returns (ok, value)."""
        n, r, a, b, s, l, k = c['c'], c['r'] - 1, c['a'] - 1, c['b'] - 1, c['s'], c['l'], c['k']
        B, O = self.B, self.O
        val = []
        k = [complex(x[0], x[1]) for x in k]
        num = lambda z: z if z.imag else self.rng.choice([z.real, z, int(z.real)]) if z.real == int(z.real) else z
        def lst():
            L = [self.fresh(x) for x in l]
            self.keep.append(L)
            return L
        if n == 'bnew':
            B[r] = Basis(lst())
        elif n == 'btwo':
            L = lst()
            x, y = Basis(L), Basis(L)
            B[r], B[a] = x, y
        elif n == 'bempty':
            B[r] = Basis()
        elif n == 'bcopy':
            B[r] = copy.deepcopy(B[a])
        elif n == 'bgrow':
            x = B[r]
            x += self.fresh(s)
            B[r] = x
        elif n == 'bgrowb':
            x = B[r]
            x += B[a]
            B[r] = x
        elif n == 'bsum':
            B[r] = B[a] + B[b]
        elif n == 'bsums':
            B[r] = B[a] + self.fresh(s)
        elif n == 'bbad':
            B[r] + self.rng.choice([3, 'X 1', None, [self.U[0]], 1.0])
        elif n == 'bgrowbad':
            x = B[r]
            x += self.rng.choice([3, 'X 1', None, [self.U[0]], 1.0])
        elif n == 'bfromop':
            B[r] = Basis() + O[a]._basis
        elif n == 'bindex':
            val = [int(B[a].index(self.fresh(s)))]
        elif n == 'bget':
            val = [self.atom(B[a][int(k[0].real)])]
        elif n == 'onew':
            cs = [num(z) * self.sc for z in k]
            if self.rng.random() < .5:
                cs = np.array(cs, dtype=complex)
            self.keep.append(cs)
            w = self.rng.random()
            L = lst()
            ty = self.rng.choice([None, None, L[0].op_type] + list(TF.values()))    # deduced from the strings if there are any
            O[r] = (Operator(cs, Basis(L)) if w < .2 else Operator(cs, Basis(L), ty) if w < .3 else
                    Operator(cs, L) if ty is None else Operator(cs, L, ty))
        elif n == 'onotype':
            w = self.rng.randrange(4)
            O[r] = Operator() if w == 0 else Operator([], []) if w == 1 else Operator(np.array([]), Basis()) if w == 2 else Operator(op_strings=[])
        elif n == 'obad':
            x = self.fresh(1)
            O[r] = Operator([1.0], self.rng.choice([x, 'X 1', {x}, (x,), 3, np.array([1.0])]), x.op_type)
        elif n == 'ovecbad':
            O[a].to_vector(Basis() + O[a]._basis, fmt=self.rng.choice(['csr', 'dense', '', None]))
        elif n == 'ozero':
            t = TF[self.ty[s - 1]]
            O[r] = Operator([], [], t) if self.rng.random() < .5 else Operator(op_type=t)
        elif n == 'ocopy':
            O[r] = copy.deepcopy(O[a])
        elif n == 'oadd':
            O[r] = O[a] + O[b]
        elif n == 'osub':
            O[r] = O[a] - O[b]
        elif n == 'oiadd':
            x = O[r]
            x += O[b]
            O[r] = x
        elif n == 'oisub':
            x = O[r]
            x -= O[b]
            O[r] = x
        elif n == 'oneg':
            O[r] = -O[a]
        elif n == 'omul':
            O[r] = O[a] * num(k[0])
        elif n == 'ormul':
            O[r] = num(k[0]) * O[a]
        elif n == 'onpmul':
            O[r] = (np.complex128(k[0]) if k[0].imag or self.rng.random() < .5 else np.float64(k[0].real)) * O[a]
        elif n == 'oclean':
            O[r] = O[a].remove_zeros() if not k else O[a].remove_zeros(tol=np.sqrt(k[0].real + .5) * self.sc)
        elif n == 'onorm2':
            # k: the order (none: the default; 9: the largest coefficient); squares are reported, except for order 1
            p = int(k[0].real) if k else 0
            m = (O[a].norm() if p == 0 else O[a].norm(order=np.inf if p == 9 else p)) / self.sc
            m = m if p == 1 else m * m
            val = [int(round(m))] if abs(m - round(m)) <= 1e-6 * max(1, m) else [-1]
        elif n == 'ovec':
            v = O[a].to_vector(B[b])
            w = O[a].to_vector(B[b], fmt='csc').toarray().reshape(-1)
            val = enc_vals(list(v / self.sc), 0)['c'] if v.shape == w.shape and (v == w).all() else [[-77777, 0]]
        elif n == 'onormalize':
            order = {0: None, 1: 1, 2: 2, 9: np.inf}[int(k[0].real)]
            x = O[r]
            nrm = x.norm(order=order)
            x.normalize(*([] if order is None else [order]))
            nv = enc_vals([c for (c, _) in x], 14)
            self.extra = {'nv': nv['c'], 'ns': [self.atom(w) for (_, w) in x], 'n1': enc_vals([x.norm(order=order)], 14)['c'][0]}
            O[r] = x * nrm if k[0].imag else Operator([], [], x.op_type)
        else:
            raise RuntimeError('unknown command ' + n)
        return val

    def fit(self, c):
        """The command as it is run: norms only where they can be stated exactly."""
        if c['c'] == 'onormalize':
            cs = [complex(z) / self.sc for z in self.O[c['r'] - 1].coeffs]
            if not any(abs(z) > 0 for z in cs):
                return None
            axis = all(z.real == 0 or z.imag == 0 for z in cs)
            p = self.rng.choice([0, 0, 2, 9] + ([1] if axis else []))
            n2 = {0: sum(abs(z) ** 2 for z in cs), 9: max(abs(z) for z in cs) ** 2, 1: sum(abs(z) for z in cs) ** 2}[0 if p == 2 else p]
            # with a power of two as norm, the operator is exactly recovered by multiplying with it
            back = 1 if any(abs(n2 - 4 ** q) < 1e-9 for q in range(8)) and self.rng.random() < .8 else 0
            return dict(c, k=[[p, back]])
        if c['c'] == 'onorm2':
            cs = [complex(z) for z in self.O[c['a'] - 1].coeffs]
            axis = all(z.real == 0 or z.imag == 0 for z in cs)
            p = self.rng.choice([None, None, None, 2] + ([9] if cs else []) + ([1] if axis else []))
            return dict(c, k=[] if p is None else [[p, 0]])
        mx = max([0] + [abs(x) / self.sc for o in self.O for x in o.coeffs])
        if (mx > 2 ** 10 and c['c'].endswith('mul')) or (mx > 2 ** 12 and c['c'] != 'ozero' and c['c'][0] == 'o'):
            return dict(c, c='ozero', k=[])
        return c

    def step(self, c):
        c = self.fit(c)
        if c is None:
            return
        self.extra = {}
        val, exc, _ = call(self.do, c)
        # what the caller did with the lists it passed must not matter
        if self.keep and self.rng.random() < .3:
            L = self.rng.choice(self.keep)
            if isinstance(L, list) and L and isinstance(L[0], OperatorString):
                L.append(self.rng.choice(self.U))
                self.rng.shuffle(L)
            elif len(L):
                L[0] = 99.0
        self.last = c
        look = self.rng.random() >= self.blind

        def build():
            if not look:
                return {'look': 0, 'B': [], 'O': [], 'beq': [], 'oeq': []}
            return {'look': 1, 'B': [self.obs_b(b) for b in self.B], 'O': [self.obs_o(o) for o in self.O],
                    'beq': [[bool(x == y) for y in self.B] for x in self.B],
                    'oeq': [[bool(x == y) for y in self.O] for x in self.O]}
        e = guard('sstep', build, '', [], cmd=c, ok=exc == '', rexc=exc, v=val or [], **self.extra)
        self.ev.append(e)


def rand_cmd(rng, K, nb, no, types, basis_only, only=None):
    bc = ['bnew', 'btwo', 'bempty', 'bcopy', 'bgrow', 'bgrow', 'bgrowb', 'bgrowb', 'bsum', 'bsum', 'bsums', 'bbad', 'bgrowbad', 'bindex', 'bget']
    oc = ['onew', 'onew', 'onotype', 'obad', 'ovecbad', 'ozero', 'ocopy', 'oadd', 'oadd', 'osub', 'oiadd', 'oiadd', 'oisub', 'oneg', 'omul', 'ormul', 'onpmul',
          'oclean', 'oclean', 'onorm2', 'ovec', 'ovec', 'onormalize', 'bfromop', 'bfromop', 'bgrowb']
    n = only or rng.choice(bc if basis_only else oc + ['bnew'])
    l, k = [], []
    s = rng.randint(1, K)
    sc = lambda: rng.choice([[0, 0], [1, 0], [-1, 0], [2, 0], [0, 1], [1, -1], [3, 2], [-2, 5]])
    if n in ('bnew', 'btwo'):
        l = rng.sample(range(1, K + 1), rng.randint(0, K))
        if l and not only and rng.random() < .15:
            l.append(rng.choice(l))
    if n == 'onew':
        cand = [i + 1 for i in range(K) if types[i] == rng.choice(types)] or [1]
        cand = [x for x in cand if types[x - 1] == types[cand[0] - 1]]
        l = rng.sample(cand, rng.randint(1, len(cand)))
        if not only and rng.random() < .1:
            l.append(l[0])
        k = [sc() for _ in l]
    if n in ('omul', 'ormul', 'onpmul'):
        k = [rng.choice([[0, 0], [1, 0], [1, 0], [1, 0], [-1, 0], [-1, 0], [0, 1], [0, -1], [2, 0]])]
    if n == 'oclean' and rng.random() < .5:
        k = [[rng.choice([0, 1, 1, 2, 4, 5, 13, 40]), 0]]
    if n == 'bget':
        k = [[rng.randint(0, K), 0]]
    r, a, b = (rng.randint(1, nb) for _ in range(3))
    if n.startswith('o'):
        r, a = rng.randint(1, no), rng.randint(1, no)
        b = rng.randint(1, nb) if n == 'ovec' else rng.randint(1, no)
    if n == 'bfromop':
        a = rng.randint(1, no)
    if n == 'btwo' and r == a:
        a = r % nb + 1
    return {'c': n, 'r': r, 'a': a, 'b': b, 's': s, 'l': l, 'k': k}


PRODUCE = {'bcopy', 'bsum', 'bsums', 'bgrowb', 'btwo', 'bfromop', 'ocopy', 'oadd', 'osub', 'oiadd', 'oisub', 'oneg', 'omul', 'ormul', 'onpmul', 'oclean'}


def follow_up(rng, c, K, nb, no):
    f = {'c': '', 'r': c['r'], 'a': 1, 'b': 1, 's': rng.randint(1, K), 'l': [], 'k': []}
    if c['c'].startswith('b'):
        if c['c'] != 'bfromop':
            f['r'] = rng.choice([c['r'], c['a']] + ([c['b']] if c['c'] == 'bsum' else []))
        f['c'] = rng.choice(['bgrow', 'bgrowb'])
        f['a'] = rng.randint(1, nb)
    else:
        f['r'] = rng.choice([c['r'], c['a']] + ([c['b']] if c['c'] in ('oadd', 'osub', 'oiadd', 'oisub') else []))
        f['c'] = rng.choice(['oiadd', 'oiadd', 'oisub', 'onormalize'])
        f['b'] = rng.randint(1, no)
    return f


def sessions(rec, rng, big, basis_only):
    def fill(S, K, nb, no, types):
        # every register holds something to start with
        for r in range(1, (nb if basis_only else no) + 1):
            if rng.random() < .85:
                S.step(dict(rand_cmd(rng, K, nb, no, types, basis_only, 'bnew' if basis_only else 'onew'), r=r))
        if not basis_only:
            for r in range(1, nb + 1):
                S.step(dict(rand_cmd(rng, K, nb, no, types, basis_only, 'bnew'), r=r))
    for (m, h) in enumerate(rec.gen or []):
        K = 6 if basis_only else 5
        t = rng.choice('PMF')
        types = [t] * (K - 1) + [rng.choice([x for x in 'PMF' if x != t])]
        S = Session(rng, types, 4, 0 if basis_only else 4)
        if not basis_only:
            S.B = S.B[:2]
            S.ev[0]['nb'] = 2
        S.blind = rng.choice([0, 0, .5])
        if m % 2:
            fill(S, K, len(S.B), len(S.O), types)
        for c in h:
            S.step(c)
        rec.session(S.ev)
    for m in range(60 if big else 25):
        K = rng.choice([3, 6, 10, 16])
        types = [rng.choice('PMF') for _ in range(K)] if m % 3 == 0 else [rng.choice('PMF')] * K
        nb, no = (5, 0) if basis_only else (2, 5)
        S = Session(rng, types, nb, no, K > 3 and m % 2 == 0)
        S.blind = rng.choice([0, 0, .4, .8])
        fill(S, K, nb, no, types)
        for _ in range(40):
            c = rand_cmd(rng, K, nb, no, types, basis_only)
            if c['c'] in ('oadd', 'osub', 'oiadd', 'oisub') and rng.random() < .8:      # mostly of one type
                a = S.O[(c['r'] if c['c'] in ('oiadd', 'oisub') else c['a']) - 1]
                same = [i + 1 for (i, o) in enumerate(S.O) if o.op_type == a.op_type]
                c['b'] = rng.choice(same)
            if c['c'] == 'ovec' and rng.random() < .7:      # mostly a basis that contains the operator
                S.step({'c': 'bfromop', 'r': c['b'], 'a': c['a'], 'b': 1, 's': 1, 'l': [], 'k': []})
                S.step({'c': 'bgrow', 'r': c['b'], 'a': 1, 'b': 1, 's': rng.randint(1, K), 'l': [], 'k': []})
            S.step(c)
            # right after an object was produced: change it, or an object it was made from, in place
            if c['c'] in PRODUCE and rng.random() < .5:
                S.step(follow_up(rng, c, K, nb, no))
        rec.session(S.ev)


def run(rec, rng, tier):
    big = tier == 'thorough'
    if rec.prop == 'C03':
        c03(rec, rng, big)
    else:
        sessions(rec, rng, big, rec.prop == 'C04')


if __name__ == '__main__':
    main(run)
