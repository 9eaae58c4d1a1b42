#!/usr/bin/env python3
"""Check runner:  check.py <property> [--tier quick|thorough] [--seed N]

1. model checking of the design specifications belonging to the property (TLC),
2. recording traces of the real code in /repo (drivers run by /opt/venv/bin/python),
3. validation of the traces against the specification (TLC).

exit 0: property held on everything explored; exit 1: violation (line printed);
exit 2: the machinery itself failed.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from props import PROPS  # noqa

PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HERE, 'spec')
ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')


if ENV.get('VF_REPO'):      # development only: look at a scratch copy of the repository
    ENV['PYTHONPATH'] = ENV['VF_REPO']


class Machinery(Exception):
    pass


def tlc(module, cfg, env, meta, xmx='2g', extra=(), timeout=850, stack='64m'):
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + xmx, '-Xss' + stack, '-Djava.io.tmpdir=' + os.path.dirname(meta), '-cp', CP, 'tlc2.TLC',
           '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, universal_newlines=True)
    return p.returncode, p.stdout


def states(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        m = re.findall(r'The number of states generated: (\d+)', out)
        return (int(m[-1]), 0) if m else (0, 0)
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def run_shard(prop, i, n, seed, tier, tmp, gen):
    out = os.path.join(tmp, 'trace%d.json' % i)
    p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'drive.py'), '--prop', prop,
                        '--shard', str(i), '--nshards', str(n), '--seed', str(seed), '--tier', tier,
                        '--out', out, '--gen', gen], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, cwd=tmp)
    if p.returncode:
        raise Machinery('driver %s shard %d failed:\n%s' % (prop, i, p.stdout[-3000:]))
    return out


def validate(trace, i, tmp, module='Trace'):
    res = os.path.join(tmp, 'verdict%d.json' % i)
    rc, out = tlc(module + '.tla', module + '.cfg', dict(TRACE=trace, OUT=res), os.path.join(tmp, 'md%d' % i))
    if rc or not os.path.exists(res):
        raise Machinery('TLC failed on %s (rc %s):\n%s' % (trace, rc, out[-3000:]))
    v = json.load(open(res))
    v['states'] = states(out)
    return v


def model(m, tmp, tier, seed):
    """design-level model checking run; m: dict(module, cfg[, emit])"""
    cfg = m.get('cfg_' + tier, m['cfg'])
    extra = list(m.get('extra', ()))
    if 'simulate' in m:
        extra += ['-simulate', 'num=%d' % m['simulate'][tier == 'thorough'], '-depth', str(m['depth']), '-seed', str(seed)]
    rc, out = tlc(m['module'] + '.tla', cfg, {}, os.path.join(tmp, 'md_' + cfg), xmx=m.get('xmx', '4g'), extra=extra)
    if 'emit' in m:      # behaviours printed by the model, replayed by the driver
        with open(os.path.join(tmp, m['emit']), 'w') as f:
            k = 0
            for line in out.splitlines():
                if line.startswith('"@@'):
                    f.write(json.loads(line)[2:] + '\n')
                    k += 1
        out = '\n'.join(x for x in out.splitlines() if not x.startswith('"@@'))
        if not k:
            raise Machinery('model %s/%s printed no behaviours\n%s' % (m['module'], cfg, out[-2000:]))
    g, d = states(out)
    return dict(model=m['module'], cfg=cfg, refute=bool(m.get('refute')), rc=rc, generated=g, distinct=d, out=out)


def proof(m, tmp):
    """machine-checked proof (tlapm) of a module"""
    d = os.path.join(tmp, 'proof_' + m['proof'])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    p = subprocess.run(['tlapm', '--cleanfp', '--strict', '--threads', '4', '--stretch', '4', m['proof'] + '.tla'], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850, universal_newlines=True)
    k = re.findall(r'All (\d+) obligations? proved', p.stdout)
    return dict(model=m['proof'], cfg='tlapm', refute=False, rc=p.returncode or (0 if k else 1), generated=0, distinct=0,
                obligations=int(k[0]) if k else 0, out=p.stdout)


def load_known():
    path = os.path.join(HERE, 'known_findings.txt')
    known = []
    for line in open(path):
        line = line.strip()
        if line.startswith('known: '):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line)
            known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shards', type=int, default=8)
    ap.add_argument('--keep', default='')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    prop = args.prop
    P = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    rc = 2
    try:
        rc = check(prop, P, tier, args.seed, args.shards, tmp, t0)
    except Machinery as e:
        print('MACHINERY FAILURE: %s' % e)
        rc = 2
    finally:
        if args.keep:
            shutil.rmtree(args.keep, ignore_errors=True)
            shutil.copytree(tmp, args.keep)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, P, tier, seed, shards, tmp, t0):
    # 1. design models; models with 'emit' must finish before the drivers start
    ex = cf.ThreadPoolExecutor(max_workers=8)
    models = P.get('models', [])
    done = []
    models = [m for m in models if m.get('tier', tier) == tier]
    fut = {m['cfg']: ex.submit(model, m, tmp, tier, seed) if 'proof' not in m else ex.submit(proof, m, tmp) for m in models}
    for m in models:
        if 'emit' in m:
            done.append(fut.pop(m['cfg']).result())
    # 2. + 3. traces
    rounds = P.get('rounds_' + tier, 1)
    jobs = []

    def work(k):
        s, i = divmod(k, shards)
        sd = seed + 1000003 * s
        t = run_shard(prop, i, shards, sd, tier, _sub(tmp, k), tmp)
        return t, sd, i, validate(t, k, tmp, P.get('trace', 'Trace'))
    jobs = [ex.submit(work, k) for k in range(shards * rounds)]
    results = []
    for j in jobs:
        results.append(j.result())
    for m in models:
        if m['cfg'] in fut:
            done.append(fut[m['cfg']].result())
    viol = []
    for d in done:
        if d['rc'] != (12 if d['refute'] else 0):     # 12: TLC refuted an invariant
            raise Machinery('model %s/%s: TLC exit %s\n%s' % (d['model'], d['cfg'], d['rc'], d['out'][-3000:]))
    known = [k for k in load_known() if k[0] == prop]
    known_hit = {}
    nev = ntr = ncase = 0
    sg = sd_ = 0
    samples = []
    ops = {}
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    for trace, sd, shard, v in results:
        ev = json.load(open(trace))
        cases = json.load(open(trace + '.cases'))
        nev += v['events']
        ntr += 1 + sum(1 for e in ev if e.get('op') == 'reset' or 'fam' in e)
        sg += v['states'][0]
        sd_ += v['states'][1]
        for e in ev:
            ops[e['op']] = ops.get(e['op'], 0) + 1
        if len(samples) < 4 and ev:
            k = next((i for i, c in enumerate(cases) if c and ev[i].get('op') != 'new'), 0)
            s = json.dumps(ev[k])
            samples.append(dict(case=cases[k], event=s if len(s) < 1500 else s[:1500] + '...'))
        for b in v['bad']:
            e = ev[b['i'] - 1]
            desc = cases[b['i'] - 1]
            text = '%s | %s' % (','.join(sorted(b['clauses'])), desc)
            if e['op'] == 'abort':
                desc += ' -- ' + e['text'][-600:]
            hit = None
            for k in known:
                if re.search(k[1], text.replace(' ', '_')):
                    hit = k
            if hit:
                known_hit.setdefault(hit[2], 0)
                known_hit[hit[2]] += 1
            else:
                viol.append(dict(property=prop, clauses=b['clauses'], op=b['op'], case=desc, exc=e.get('exc', ''),
                                 index=b['i'], shard=shard, seed=sd, tier=tier, shards=shards, event=e,
                                 history=[c for c in cases[max(0, b['i'] - 30):b['i']]]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=sd_ + sum(d['distinct'] for d in done),
                            transitions=sum(d['generated'] for d in done) + nev,
                            traces_validated_against_impl=ntr,
                            events_validated=nev, calls_per_operation=ops,
                            design_models=[dict(model=d['model'], config=d['cfg'], generated=d['generated'],
                                                distinct=d['distinct'], refuted=d['refute'],
                                                proof_obligations=d.get('obligations', 0)) for d in done],
                            samples=samples or ['(none)']),
              assumptions=P.get('assumptions', []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for what, n in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (prop, what, n))
    if viol:
        path = os.path.join(outdir, '%s.violations.json' % prop)
        with open(path, 'w') as f:
            json.dump(viol[:50], f, indent=1)
        seen = set()
        for x in viol:
            key = (x['op'], tuple(sorted(x['clauses'])))
            if key not in seen and len(seen) < 12:
                seen.add(key)
                print('  %s: %s [%s] %s' % (x['op'], ','.join(sorted(x['clauses'])), x['exc'], x['case'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s events=%d traces=%d model-states=%d wall=%.1fs' % (
        prop, nev, ntr, sum(d['distinct'] for d in done), wall))
    return 0


def _sub(tmp, k):
    d = os.path.join(tmp, 'd%d' % k)
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == '__main__':
    main()
