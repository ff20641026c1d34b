"""Decide one property: model-check its specification, record or replay
behaviours of the real code, and have TLC check them against the specification.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer."""
import collections
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, WORK, PY, TLA, CM
from plan import PLAN

SPEC = os.path.join(VERIF, 'spec')
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 6 * 3600


class NoAnswer(Exception):
    pass


def left():
    return max(5, LIMIT - (time.time() - T0))


def tlc(module, cfg, env, heap='3g', workers='1', extra=()):
    """Run TLC on spec/<module>; returns (output, states, distinct)."""
    meta = tempfile.mkdtemp(dir=RUN)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss256m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:edpytspec.Overrides',
           '-cp', ':'.join((TLA, CM, BUILT['java'])), 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', workers, '-config', cfg, *extra, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=left(), text=True, errors='replace')
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        raise NoAnswer('TLC ran out of time on ' + module + '\n' + (o if isinstance(o, str) else o.decode(errors='replace'))[-1500:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    g, d = map(int, m[-1]) if m else (0, 0)
    return r.returncode, r.stdout, g, d


def model(mc, workers='4'):
    """A model-checking run of the specification alone."""
    module, cfg = mc[0], (mc[1] if len(mc) > 1 else mc[0] + '.cfg')
    if TIER == 'thorough' and os.path.exists(os.path.join(SPEC, cfg.replace('.cfg', '_thorough.cfg'))):
        cfg = cfg.replace('.cfg', '_thorough.cfg')
    env = {'OUT': os.path.join(RUN, cfg[:-4] + '.json')}
    rc, out, g, d = tlc(module, cfg, env, heap='6g', workers=workers)
    if rc or 'No error has been found' not in out and 'Finished' not in out:
        raise NoAnswer('specification %s (%s) does not check:\n%s' % (module, cfg, out[-3000:]))
    return cfg[:-4], g, d


def drive(run, shard, nshards, gen):
    """Run the real code and record what it did."""
    out = os.path.join(RUN, '%s-%d.ndjson' % (run['harness'], shard))
    env = dict(os.environ, VERIF_EXT=BUILT.get('ext', ''), VERIF_BACKEND=BUILT.get('backend', ''),
               VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS=run.get('omp', '1'),
               OPENBLAS_NUM_THREADS='1', VERIF_GEN=gen or '', TMPDIR=RUN)
    env.update(run.get('env', {}))
    cmd = [PY, os.path.join(VERIF, 'harness/core.py'), run['harness'], str(shard), str(nshards), TIER, str(SEED), out]
    err = open(out + '.err', 'wb')
    p = subprocess.Popen(cmd, cwd=RUN, env=env, stdout=err, stderr=err, start_new_session=True)
    try:
        rc = p.wait(timeout=min(left(), run.get('limit', 400 if TIER == 'quick' else 7200)))
    except subprocess.TimeoutExpired:
        rc = 'hang'
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        err.close()
    if rc == 3:
        raise NoAnswer(open(out + '.err', errors='replace').read()[-3000:])
    if rc != 0:                                  # the code under test died or hung: that is an observation
        try:
            cur = json.load(open(out + '.now'))
        except (OSError, ValueError):
            cur = None
        if cur is None:
            raise NoAnswer('harness %s: %s\n%s' % (run['harness'], rc, open(out + '.err', errors='replace').read()[-3000:]))
        raw = open(out, 'rb').read()
        raw = raw[:raw.rfind(b'\n') + 1]
        with open(out, 'wb') as f:
            f.write(raw)
            f.write((json.dumps({'op': 'died', 'k': cur['k'], 'during': cur['what'], 'how': str(rc)}) + '\n').encode())
    return out


def validate(run, trace):
    """Have TLC decide whether the recorded behaviour is one of the specification."""
    n = sum(1 for _ in open(trace))
    if not n:
        return trace, [], 0, 0, 0
    res = trace + '.verdict'
    spec = run['spec']
    rc, out, g, d = tlc(spec, run.get('cfg', spec + '.cfg'), {'TRACE': trace, 'OUT': res}, heap=run.get('heap', '3g'))
    if rc == 0 and os.path.exists(res):
        v = json.load(open(res))
        if v['n'] != n:
            raise NoAnswer('%s read %s of %s events\n%s' % (spec, v['n'], n, out[-2000:]))
        return trace, [(b['l'], b['clauses']) for b in v['bad']], g, d, n
    if 'Parsing or semantic analysis failed' in out or 'Could not find' in out:
        raise NoAnswer(out[-3000:])
    m = re.findall(r'/\\ l = (\d+)|^l = (\d+)', out, re.M)
    if m and n and g:                            # it could not even be read as an observation of the kind specified
        at = max(int(a or b) for a, b in m)
        return trace, [(at, ['malformed: ' + ' '.join(out[out.find('Error:'):][:600].split())])], g, d, n
    raise NoAnswer('%s: TLC failed\n%s' % (spec, out[-3000:]))


def known():
    out = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) clause=(\S+) site=(\S+) (.*)', line)
        if m and m.group(1) == PROP:
            out.append(m.groups()[1:])
    return out


def clip(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def main():
    global RUN, BUILT
    plan = PLAN[PROP]
    RUN = os.path.join(WORK, 'run', '%s-%d' % (PROP, os.getpid()))
    os.makedirs(RUN)
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
    try:
        BUILT = build.all_(['java'] + list(plan.get('build', ['ext'])))
        states = trans = 0
        mcs, samples, ops = {}, [], collections.Counter()
        found, events, traces, kinds = [], 0, 0, collections.Counter()
        with cf.ThreadPoolExecutor(8) as ex:
            gens = {g: ex.submit(model, g, '1') for g in plan.get('gen', [])}
            for g in gens.values():
                name, a, d = g.result()
                mcs[name] = {'transitions': a, 'states': d}
            gen = os.path.join(RUN, plan['gen'][0][1][:-4] + '.json') if gens else None
            if gen and TIER == 'thorough' and os.path.exists(gen.replace('.json', '_thorough.json')):
                gen = gen.replace('.json', '_thorough.json')
            mc = [ex.submit(model, m) for m in plan.get('mc', [])]

            def one(run, i, k):
                return (run,) + validate(run, drive(run, i, k, gen))
            jobs = []
            for run in plan['runs']:
                k = run.get('shards', 4) if TIER == 'quick' else run.get('shards_thorough', 8)
                jobs += [ex.submit(one, run, i, k) for i in range(k)]
            for f in mc:
                name, a, d = f.result()
                mcs[name] = {'transitions': a, 'states': d}
            for f in jobs:
                run, trace, bad, g, d, n = f.result()
                states += d
                trans += g
                lines = open(trace).read().splitlines()
                for i, s in enumerate(lines):
                    e = json.loads(s)
                    ops[e['op']] += 1
                    if e['op'] == 'case':
                        traces += 1
                        kinds[e.get('kind', '')] += 1
                        if len(samples) < 3 and traces % 7 == 1:
                            samples.append([clip(json.loads(x)) for x in lines[i:i + 2]])
                events += len(lines)
                for l, clauses in bad:
                    e = json.loads(lines[min(l, len(lines)) - 1])
                    for c in clauses:
                        if c.split(':')[0].startswith('@') and PROP not in c:
                            continue             # a clause that belongs to another property
                        found.append((run, os.path.basename(trace), l, c, e))
        for v in mcs.values():
            states += v['states']
            trans += v['transitions']
        kn, viol = known(), []
        for f in found:
            run, tr, l, c, e = f
            hit = [k for k in kn if k[0] == c and k[1] == str(e.get('site', ''))]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (PROP, hit[0][2]))
                kn = [k for k in kn if k not in hit]     # each once
                kn_all.extend(hit)
            elif not any(k[0] == c and k[1] == str(e.get('site', '')) for k in kn_all):
                viol.append(f)
        cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': traces,
               'events_checked': events, 'events_by_operation': dict(ops), 'cases_by_kind': dict(kinds),
               'specifications_model_checked': mcs, 'samples': samples,
               'trace_specifications': sorted({r['spec'] for r in plan['runs']})}
        json.dump({'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
                   'assumptions': plan.get('assume', []) + ['numba bodies run as plain Python under shim/numba, which keeps its typing contract'],
                   'wall_s': round(time.time() - T0, 2), 'violations': len(viol)},
                  open(os.path.join(evid, PROP + '.json'), 'w'), indent=1)
        if viol:
            path = os.path.join(evid, 'replay', PROP + '.json')
            json.dump({'property': PROP, 'seed': SEED, 'tier': TIER, 'command': 'VERIF_SEED=%d ./check.sh %s %s' % (SEED, PROP, TIER),
                       'violations': [{'clause': c, 'harness': r['harness'], 'spec': r['spec'], 'trace': t, 'line': l, 'event': e}
                                      for r, t, l, c, e in viol[:20]]}, open(path, 'w'), indent=1)
            for r, t, l, c, e in viol[:12]:
                print('  %s:%d %s: %s %s' % (t, l, e.get('op'), c, clip({k: v for k, v in e.items() if k in ('k', 'why', 'during', 'how', 'kind', 'site', 'fn')}, 300)))
            print('  %d violation(s) in %d traces, %.1f s' % (len(viol), traces, time.time() - T0))
            print('VIOLATION property=%s replay=%s' % (PROP, path))
            return 1
        print('ok: %s %d traces, %d events, %d states, %.1f s' % (PROP, traces, events, states, time.time() - T0))
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(RUN, ignore_errors=True)


kn_all = []
if __name__ == '__main__':
    try:
        sys.exit(main())
    except (NoAnswer, build.BuildError) as e:
        print('no answer: %s' % e)
        sys.exit(2)
