#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--selftest | --replay FILE].

1. TLC model-checks the specification modules behind the property (spec/MC_*.tla), exhaustively on small instances.
2. Where the model generates behaviours (spec/MC_*.tla with a Gen configuration), TLC writes them out.
3. A driver (harness/drv_*.py) steps those behaviours and seeded random inputs through the code in /repo and records
   every call.
4. TLC validates the recorded sessions against the specification (spec/Trace.tla). Every event must be consumed.

Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery itself failed.
"""
import argparse, copy, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
REPO = '/repo'
PY = '/opt/venv/bin/python'
JAVA = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx6g', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']

from registry import PROPS     # noqa: E402


class Machinery(Exception):
    pass


def run_tlc(module, cfg, tmp, workers=4, env=None, extra=(), timeout=600):
    meta = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['timeout', str(timeout)] + JAVA + ['-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(mc, tmp):
    """Exhaustive check of the model. A failure here is a fault of the machinery, not of the code."""
    module, cfg = mc
    rc, out = run_tlc(module + '.tla', cfg + '.cfg', tmp)
    if rc != 0 or 'No error has been found' not in out:
        raise Machinery('model check %s/%s failed:\n%s' % (module, cfg, out[-3000:]))
    return stats(out)


def generate(gen, tmp, seed, num, rnd):
    """Behaviours of the model, as lists of commands, from TLC's simulator."""
    module, cfg, depth = gen
    outd = tempfile.mkdtemp(dir=tmp)
    rc, out = run_tlc(module + '.tla', cfg + '.cfg', tmp, workers=1, env={'GEN_DIR': outd},
                      extra=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(seed * 1000 + rnd)])
    res = []
    for f in sorted(glob.glob(outd + '/*.json'), key=lambda x: int(re.sub(r'\D', '', os.path.basename(x)) or 0)):
        res.append(json.load(open(f)))
    if not res:
        raise Machinery('no behaviours generated by %s:\n%s' % (cfg, out[-2000:]))
    shutil.rmtree(outd, ignore_errors=True)
    return res


def drive(prop, cfg, tmp, seed, tier, rnd, gen):
    out = os.path.join(tmp, 'trace%d.json' % rnd)
    e = dict(os.environ)
    e.update({'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(tmp, 'pyc'),
              'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': str((seed * 31 + rnd) % 1000),
              'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(tmp, 'mpl')})
    cmd = ['timeout', '800', PY, '-W', 'ignore', os.path.join(HERE, 'harness', cfg['driver']), '--seed', str(seed),
           '--tier', tier, '--round', str(rnd), '--prop', prop]
    if gen is not None:
        g = os.path.join(tmp, 'gen%d.json' % rnd)
        json.dump(gen, open(g, 'w'))
        cmd += ['--gen', g]
    p = subprocess.run(cmd + [out], env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, (p.stderr or p.stdout)[-3000:]
    return out, ''


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)


def validate(trace, tmp, timeout=400, workers=8):
    """Returns (sessions, generated, distinct, rejections); rejections: (session index, event index, clauses)."""
    sess = json.load(open(trace))['sessions']
    rej = []
    todo = list(range(len(sess)))
    gen = dist = 0
    tries = 0
    while True:
        if tries == 0:
            path = trace
        else:
            path = trace + '.rest'
            json.dump({'sessions': [sess[i] for i in todo]}, open(path, 'w'))
        rc, out = run_tlc('Trace.tla', 'Trace.cfg', tmp, workers=workers, env={'TRACE_FILE': path}, timeout=timeout)
        found = [(todo[int(m[0]) - 1], int(m[1]) - 1, sorted(re.findall(r'"([^"]*)"', m[2]))) for m in REJ.findall(out)]
        if len(found) != out.count('"REJECT"'):
            raise Machinery('unreadable rejection\n' + out[-3000:])
        g, d = stats(out)
        if rc == 0 and 'No error has been found' in out:
            gen += g
            dist += d
            rej += found
            cut = {s: k for (s, k, _) in found}
            want = sum((cut[i] + 1 if i in cut else len(sess[i])) + 1 for i in todo)
            if d != want:
                raise Machinery('consumed %d states, expected %d\n%s' % (d, want, out[-2000:]))
            return sess, gen, dist, rej
        # An event outside the domain of the specification: TLC reports the state at which evaluation failed.
        m = re.findall(r'/\\ sid = (\d+)', out), re.findall(r'/\\ pos = (\d+)', out)
        tries += 1
        if rc == 124 and found and not (m[0] and m[1]):     # out of time, but enough is known to report
            return sess, g, d, rej + found
        if tries > 6 and rej and m[0] and m[1]:
            return sess, gen, dist, rej         # enough is known to report
        if not m[0] or not m[1] or tries > 6:
            raise Machinery('trace validation failed:\n' + out[:1500] + '\n...\n' + out[-2500:])
        k = todo[int(m[0][-1]) - 1]
        pos = int(m[1][-1])
        msg = re.findall(r'Error: (.*)', out)
        rej.append((k, min(pos, len(sess[k]) - 1), ['malformed: ' + ' '.join(msg)[:200]]))
        todo = [i for i in todo if i != k]
        if os.environ.get('HDEBUG'):
            print(out[-3500:])


def brief(x, n=700):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) <= n else s[:n] + '...'


def digest(ev):
    return hashlib.sha1(json.dumps({k: v for (k, v) in ev.items() if k in ev.get('in', ev)}, sort_keys=True).encode()).hexdigest()[:16]


def known(prop, ev, clauses, findings):
    for f in findings:
        if f['property'] == prop and f['op'] == ev['op'] and set(clauses) <= set(f['clauses']) and \
                all(ev.get(k) == v for (k, v) in f['match'].items()):
            return f
    return None


def selftest(prop, cfg, trace, tmp):
    """Corrupts one recorded result field per copy of a session; counts how many corruptions TLC rejects, per op."""
    sess = json.load(open(trace))['sessions']
    rng = random.Random(1)
    muts, info = [], []
    skip = set(cfg.get('inputs', []))

    def leaves(x, path, acc, top=None):
        if isinstance(x, dict):
            for k, v in x.items():
                if not path and (k in ('op', 'exc', 'mut') or k in skip):
                    continue
                leaves(v, path + [k], acc)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                leaves(v, path + [i], acc)
        else:
            acc.append((path, x))
    for s in sess:
        for i in range(len(s)):
            acc = []
            leaves(s[i], [], acc)
            if not acc or rng.random() > float(os.environ.get('STP', '0.3')):
                continue
            for (path, v) in rng.sample(acc, min(2, len(acc))):
                c = copy.deepcopy(s[:i + 1])
                o = c[i]
                for q in path[:-1]:
                    o = o[q]
                o[path[-1]] = (not v) if isinstance(v, bool) else v + max(200 if 'v' in path else 1, abs(v) // 2) if isinstance(v, int) else v + 'q'
                muts.append(c)
                info.append((s[i]['op'], '.'.join('#' if isinstance(q, int) else q for q in path)))
    p = os.path.join(tmp, 'self.json')
    json.dump({'sessions': muts}, open(p, 'w'))
    n, k = {}, {}
    dead = set()
    try:
        _, _, _, rej = validate(p, tmp)
    except Machinery as e:
        print(str(e)[-1500:])
        return
    dead = {r[0] for r in rej}
    for i, key in enumerate(info):
        n[key] = n.get(key, 0) + 1
        k[key] = k.get(key, 0) + (i in dead)
    for key in sorted(n):
        print('%-16s %-30s %d/%d' % (key + (k[key], n[key])))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--rounds', type=int)
    a = ap.parse_args()
    prop = a.prop
    cfg = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='qosy-check-')
    try:
        sys.exit(check(prop, cfg, seed, tier, tmp, t0, a))
    except Machinery as e:
        print('CHECK-ERROR', e)
        sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, cfg, seed, tier, tmp, t0, a):
    if a.replay:
        _, _, _, rej = validate(a.replay, tmp)
        for r in rej:
            print('REJECT', r)
        return 1 if rej else 0
    budget = float(os.environ.get('VERIF_BUDGET', '420'))
    mcs = list(cfg.get('mc', [])) + (list(cfg.get('mc_thorough', [])) if tier == 'thorough' else [])
    states = trans = 0
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    findings = kf.get('findings', [])
    ntr = nev = 0
    ops, samples, bad, seenf = {}, [], [], {}
    with ThreadPoolExecutor(4) as ex:
        mcf = [ex.submit(model_check, m, tmp) for m in mcs]
        rnd = 0
        rounds = a.rounds or (cfg.get('rounds', 1) if tier == 'quick' else 10 ** 6)
        while rnd < rounds:
            gen = None
            if cfg.get('gen'):
                gen = generate(cfg['gen'], tmp, seed, cfg.get('gen_num', 60) * (3 if tier == 'thorough' else 1), rnd)
            trace, err = drive(prop, cfg, tmp, seed, tier, rnd, gen)
            if trace is None:
                # The unchanged code never does this: the code under test broke the recorded calls themselves.
                bad.append((None, ['driver-failed: ' + err.strip()[-600:]], None))
                break
            if a.selftest:
                selftest(prop, cfg, trace, tmp)
                return 0
            sess, g, d, rej = validate(trace, tmp)
            states += d
            trans += g - len(sess)
            ntr += len(sess)
            for s in sess:
                nev += len(s)
                for e in s:
                    ops[e['op']] = ops.get(e['op'], 0) + 1
            if len(samples) < 4:
                samples += [brief(random.Random(seed).choice(s)) for s in random.Random(seed + rnd).sample(sess, min(2, len(sess)))]
            for (k, i, cl) in rej:
                e = sess[k][i]
                f = known(prop, e, cl, findings)
                if f:
                    seenf[f['what']] = seenf.get(f['what'], 0) + 1
                else:
                    bad.append((sess[k][:i + 1], cl, e))
            os.remove(trace)
            rnd += 1
            if bad or (tier == 'thorough' and time.time() - t0 > budget):
                break
        for f in mcf:
            g, d = f.result()
            states += d
            trans += max(0, g - 1)
    for w in sorted(seenf):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evid = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': ntr,
                         'evaluations': nev, 'rule': 'evaluations = recorded calls of the real code consumed by the trace '
                         'specification; per kind: ' + json.dumps(ops, sort_keys=True),
                         'samples': samples or ['none: the run stopped before validation'],
                         'models': ['%s/%s' % m for m in mcs], 'rounds': rnd},
            'assumptions': cfg.get('assumptions', []) + ['TLC, the Json module and the recording layer harness/lib.py'],
            'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    json.dump(evid, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if bad:
        rd = os.path.join(HERE, 'replay')
        os.makedirs(rd, exist_ok=True)
        for (s, cl, e) in bad[:5]:
            h = hashlib.sha1(json.dumps([s, cl]).encode()).hexdigest()[:12]
            p = os.path.join(rd, '%s-%s.json' % (prop, h))
            json.dump({'property': prop, 'clauses': cl, 'sessions': [s] if s else []}, open(p, 'w'))
            print('rejected: %s %s' % (cl, brief(e, 1500) if e else ''))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        if len(bad) > 5:
            print('(%d rejections in total)' % len(bad))
        return 1
    print('OK property=%s tier=%s seed=%d: %d model+trace states, %d traces, %d calls, %.1fs'
          % (prop, tier, seed, states, ntr, nev, time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
