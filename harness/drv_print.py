"""C24: printed and relabelled operators."""
import re
from lib import *
from crystals import rand_crystal
from drv_crystal import e_lat

HEAD = re.compile(r'^(operator|vector) (\d+) = $')
TERM = re.compile(r'^(\S+) \((.*)\)$')


def printed(fn, *args, **kw):
    """Output of a printing function."""
    out = io.StringIO()

    def f(*a, **k):
        with contextlib.redirect_stdout(out):
            fn(*a, **k)
    _, exc, mut = call(f, *args, **kw)
    return out.getvalue(), exc, mut


def blocks(text):
    """Headers and, for each, the lines that are not blank."""
    heads, out = [], []
    for line in text.split('\n'):
        m = HEAD.match(line)
        if m:
            heads.append((m.group(1), int(m.group(2))))
            out.append([])
        elif line.strip():
            out[-1].append(line)
    return heads, out


def term(line, t, e):
    """'coefficient (name)', with the name parsed."""
    m = TERM.match(line)
    if not m:
        raise ValueError('line ' + line)
    return {'c': fix(complex(m.group(1)), e), 's': enc_str(opstring(m.group(2), t))}


def chars(s):
    return list(s)


def e_relab(text, lat):
    res, exc, mut = call(qy.relabel_orbitals, text, lat)
    return guard('relab', lambda: {'r': chars(res)}, exc, mut, text=chars(text))


def e_pr(kind, data, basis, lat, kw, conv, ord_, tol):
    """data: operators, or an array of vectors over the basis."""
    opts = {}
    if conv:
        opts['convert_to'] = TF[conv]
    if ord_ != 2 or conv == '':
        opts['norm_order'] = {2: None, 1: 1, 0: np.inf}[ord_]
    if tol is not None:
        opts['tol'] = tol
    more = dict(opts)
    if lat is not None:
        more['lattice'] = lat
    if kw is not None:
        more['keywords'] = kw
    args, fn = ((data,), qy.print_operators) if kind == 'operator' else ((basis, data), qy.print_vectors)
    raw, x1, m1 = printed(fn, *args, **opts)
    fin, x2, m2 = printed(fn, *args, **more)
    ops = data if kind == 'operator' else [Operator(data[:, j] + 0j, basis.op_strings) for j in range(data.shape[1])]

    def build():
        (h1, b1), (h2, b2) = blocks(raw), blocks(fin)
        bl = []
        assert all(k == kind for (k, _) in h1 + h2)
        for (i, op) in enumerate(ops):
            B = qy.convert(op, TF[conv]) if conv else op
            eB = enc_op(B)
            t = B.op_type
            bl.append({'A': enc_op(op), 'B': eB, 'conv': conv, 'tol': int((1e-10 if tol is None else tol) ** 2 * 4 ** eB['e']),
                       'terms': [term(x, t, 14) for x in b1[i]], 'raw': [chars(x) for x in b1[i]], 'lines': [chars(x) for x in b2[i]]})
        return {'heads': [n for (_, n) in h1], 'heads2': [n for (_, n) in h2], 'blocks': bl}
    return guard('pr', build, x1 or x2, m1 + m2, ord=ord_, relab=lat is not None, filt=kw is not None, kw=[chars(k) for k in kw or []])


def e_strop(A):
    res, exc, mut = call(str, A)

    def build():
        d = enc_op(A)
        return {'A': d, 'terms': [term(x, A.op_type, d['e']) for x in res.split('\n') if x.strip()], 'what': 'op'}
    return guard('strs', build, exc, mut, B=[])


def e_strb(b):
    res, exc, mut = call(str, b)
    t = None if isinstance(b, OperatorString) else b.op_strings[0].op_type if len(b) else None
    t = b.op_type if isinstance(b, OperatorString) else t
    B = [enc_str(b)] if isinstance(b, OperatorString) else enc_basis(b)
    return guard('strs', lambda: {'names': [enc_str(opstring(x, t)) for x in (res.split('\n') if not isinstance(b, OperatorString) else [res]) if x.strip()],
                                  'what': 'strings'}, exc, mut, B=B)


def rand_text(rng, n):
    """Text with labels of orbitals and other things."""
    out = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < .65:
            out.append(rng.choice(['X', 'CDag', 'A', '', '(1.0 Z', '-0.25']) + ' ' + str(rng.choice([rng.randrange(n), rng.randrange(n), min(n - 1, rng.choice([1, 10, 11, 2])), 0])))
        else:
            out.append(rng.choice(['a7', '3.5', ')', '\n', ' ', 'x1_2', '(2+1j)', '\t5', '-12']))
    s = ''
    for x in out:
        if x[:1].isdigit() and (s[-1:].isdigit() or s[-1:] == ' '):
            s += ';'
        s += x
    return s


def rand_operator(rng, t, n, exact):
    op = rand_op(rng, t, range(n), rng.randint(0, 6), cplx=rng.random() < .5 and not exact, kmin=0 if t != 'F' else 1, kmax=3, zero=.2)
    return op if len(op.coeffs) else Operator([], [], TF[t])


CONV = {'P': ['', '', 'M', 'F'], 'M': ['', '', 'P', 'F'], 'F': ['', '', 'M', 'P']}


def rand_pr(rng, c, lat):
    n = min(len(lat), 14)
    t = rng.choice('PMF')
    conv = rng.choice(CONV[t])
    if conv == 'P' or (t == 'P' and conv):
        n = min(n, 4)
    ord_ = rng.choice([2, 2, 0, 1])
    kind = rng.choice(['operator', 'vector'])
    real = ord_ == 1
    if conv:
        real = True
        if ord_ == 1:
            ord_ = 2
    tol = rng.choice([None, None, .3, .8])
    if kind == 'operator':
        data, basis = [rand_operator(rng, t, n, real) for _ in range(rng.randint(0, 3))], None
        if conv:
            data = [op for op in data if len(op.coeffs)]
        if rng.random() < .2:
            data = tuple(data)
    else:
        d = {}
        for _ in range(rng.randint(1, 6)):
            s = rand_fermion(rng, range(n), 3, 1) if t == 'F' else rand_string(rng, t, range(n), 0, 3)
            d[json.dumps(enc_str(s))] = s
        basis = Basis(list(d.values()))
        m = rng.randint(0, 3)
        a = [[rng.choice([0, 0, 1, -1, 2, .5, -3, .25, rng.randint(-4, 4) if real else complex(rng.randint(-4, 4), rng.randint(-2, 2))]) for _ in range(m)] for _ in range(len(basis))]
        data = np.array(a, dtype=float if real and rng.random() < .5 else complex).reshape(len(basis), m)
    kw = None
    if rng.random() < .6:
        pool = ['X', 'Z', 'D', 'A ', 'CDag', 'C ', 'Y', ' 1 ', ' 1', ' 10', '1j', ')', '0', 'Q', '; 0', '; 1', '(0', '(1', 'Up', 'Dn', '_{']
        kw = [rng.choice(pool) for _ in range(rng.randint(0, 3))]
    return e_pr(kind, data, basis, lat if rng.random() < .7 else None, kw, conv, ord_, tol)


def run(rec, rng, tier):
    big = 4 if tier == 'thorough' else 1
    for _ in range(90 * big):
        while True:
            c = rand_crystal(rng, maxsize=40)
            if c.size() >= rng.choice([1, 4, 11, 11, 12]):
                break
        e, lat = e_lat(c)
        s = [e]
        if lat is None:
            rec.session(s)
            continue
        n = len(lat)
        s.append(e_relab(''.join(' %d' % i for i in range(n)), lat))
        for _ in range(rng.randint(1, 3)):
            s.append(e_relab(rand_text(rng, n), lat))
        for _ in range(3):
            s.append(rand_pr(rng, c, lat))
        rec.session(s)
    S = []
    for _ in range(60 * big):
        t = rng.choice('PMF')
        n = rng.choice([3, 12, 120])
        S.append(e_strop(rand_operator(rng, t, n, rng.random() < .5)))
        d = {}
        for _ in range(rng.randint(0, 6)):
            x = rand_fermion(rng, range(n), 3, 1) if t == 'F' else rand_string(rng, t, range(n), 0, 3)
            d[json.dumps(enc_str(x))] = x
        S.append(e_strb(Basis(list(d.values()))))
        if d:
            S.append(e_strb(rng.choice(list(d.values()))))
    b = Basis([opstring('X 0'), opstring('Y 1')])
    for a in [np.zeros((3, 2)), np.zeros((1, 1))]:
        _, exc, mut = printed(qy.print_vectors, b, a)
        S.append(ev('prrej', exc, mut, why='vectors-size'))
    rec.chunked(S, 20)


if __name__ == '__main__':
    main(run)
