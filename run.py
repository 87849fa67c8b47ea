#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   decide one property (see DESIGN.md)
   run.py --replay <replay.json>        run a recorded violation again
Builds the harness against /repo's working tree, records executions of the real
code, checks them with TLC against the TLA+ specification in spec/, and checks the
closed models of the specification."""
import json, os, re, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', f'. {HERE}/env.sh; env -0'], capture_output=True, text=True).stdout
    for kv in out.split('\0'):
        k, _, v = kv.partition('=')
        if k:
            e[k] = v
    return e


def build(e):
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=f'{HERE}/harness', env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + p.stderr[-4000:])
    return f'{HERE}/harness/target/debug/vharness'


def build_x(e):
    """the build helper's code generated and compiled; returns violations"""
    t = f'{HERE}/harness/target'
    def cargo(d, **kw):
        return subprocess.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', t], cwd=d, env=dict(e, **kw), capture_output=True, text=True)
    p = cargo(f'{HERE}/xharness')
    if p.returncode != 0:
        raise ToolError('xgen does not build:\n' + p.stderr[-4000:])
    p = subprocess.run([f'{t}/debug/xgen', 'code', f'{t}/xcode'], capture_output=True, text=True)
    v = {'cmd': ['code'], 'case': 'code generation', 'event': 0}
    if p.returncode != 0:
        return [dict(v, what=f'the build helper fails on the fixed schemas: {p.stdout.strip()[-300:]}{p.stderr.strip()[-300:]}', tags=['code.generate'])]
    p = cargo(f'{HERE}/xharness/run', XGEN_DIR=f'{t}/xcode')
    if p.returncode != 0:
        if '/xcode/' not in p.stderr and 'ReflectMessage' not in p.stderr:
            raise ToolError('xrun does not build:\n' + p.stderr[-4000:])
        return [dict(v, what='the generated code does not compile: ' + p.stderr[:600], tags=['code.compile'])]
    return []


def harness(binary, args, out, timeout):
    """returns (violations, stats)"""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if args[0] in ('attrs', 'xrun'):
        binary = f'{os.path.dirname(binary)}/' + ('xgen' if args[0] == 'attrs' else 'xrun')
    cmd = [binary] + [str(a) for a in args] + [out]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=HERE)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = 'timeout', '', ''
    cur = ''
    if os.path.exists(f'{out}/cur'):
        cur = open(f'{out}/cur').read().strip()
    if rc != 0:
        what = 'does not terminate' if rc == 'timeout' else f'ends abnormally ({rc})'
        return [{'what': f'the code under test {what} in case {cur}', 'cmd': args, 'case': cur, 'tags': ['abort'], 'stderr': se[-500:]}], {}
    return [], json.loads(so.strip().splitlines()[-1])


def tlc(module, vdir, cfg=None, workers=8, heap='10g', timeout=800, extra={}):
    meta = os.path.join(vdir, 'tlc')
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, VDIR=vdir, **extra)
    cmd = ['java', f'-Xmx{heap}', '-Xss256m', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-config', cfg or f'{module}.cfg', '-workers', str(workers), f'{module}.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC on {module} did not finish in {timeout} s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
    return p.returncode, p.stdout, st


def trace_stage(binary, prop, st, seed, scale, work, idx, rnd=0):
    """one profile: record, check with TLC"""
    out = f'{work}/{idx}-{st["profile"]}'
    n = max(1, int(st['n'] * scale))
    # the first round also sweeps tables
    args = [st.get('cmd', 'msg'), st['profile'] + ('+s' if st.get('sweep') and rnd == 0 else ''), seed, n]
    t0 = time.time()
    mst = (0, 0)
    if 'model' in st:
        # every content the closed model reaches, with a history that gives it
        hist, mst = histories(binary, st, f'{work}/{st["model"]}', scale > 1, rnd)
        args = ['replay', f'{st["profile"]}:{hist}', seed, st.get('deep_n', st['n']) if scale > 1 else st['n']]
    viol, stats = harness(binary, args, out, st.get('timeout', 400))
    t1 = time.time()
    res = {'profile': st['profile'], 'seed': seed, 'viol': viol, 'states': mst[0], 'transitions': mst[1], 'cases': 0, 'events': 0, 'other': {}, 'dir': out, 'stats': stats}
    if viol:
        return res
    rc, text, (states, trans) = tlc(st['module'], out)
    res.update(states=states + mst[0], transitions=trans + mst[1], model_states=mst[0], cases=stats['cases'], events=stats['events'], t_harness=round(t1 - t0, 1), t_tlc=round(time.time() - t1, 1))
    shards = st.get('shards', 32)
    done = set(re.findall(r'<<"DONE", (\d+)>>', text))
    undefined = []
    if st.get('accept'):
        return accept_result(st, out, args, rc, text, res)
    if rc != 0 and re.search(r'Attempted to|unable to fingerprint|was not in the domain|no value in its domain', text):
        # a recorded event gives the specification's functions arguments outside their domain
        m = re.findall(r'/\\ ci = (\d+)\n/\\ ei = (\d+)', text)
        undefined = [m[-1]] if m else [('0', '0')]
        open(f'{out}/tlc.log', 'w').write(text)
        viol.append({'what': f'case {undefined[0][0]} event {undefined[0][1]}: observed content that no state of the specification has (see {out}/tlc.log)', 'cmd': args, 'case': int(undefined[0][0]) or 1, 'event': max(1, int(undefined[0][1])), 'tags': ['undefined']})
    elif rc != 0 or len(done) < min(shards, stats['cases']):
        open(f'{out}/tlc.log', 'w').write(text)
        raise ToolError(f'TLC failed on {st["module"]} for {st["profile"]} (rc {rc}, {len(done)} shards done); log in {out}/tlc.log\n' + '\n'.join(l for l in text.splitlines() if 'rror' in l)[:3000])
    rel = re.compile(st['tags'])
    for m in re.finditer(r'<<"MISMATCH", (\d+), (\d+), <<([^>]*)>>>>', re.sub(r'\s+', ' ', text)):
        tags = re.findall(r'"([^"]*)"', m.group(3))
        hit = [t for t in tags if rel.fullmatch(t)]
        if hit:
            viol.append({'what': f'case {m.group(1)} event {m.group(2)}: {", ".join(hit)}', 'cmd': args, 'case': int(m.group(1)), 'event': int(m.group(2)), 'tags': hit})
        for t in tags:
            if t not in hit:
                res['other'][t] = res['other'].get(t, 0) + 1
    return res


def histories(binary, st, d, deep, rnd):
    """the closed model explored: its laws hold, or the specification is wrong"""
    cfg = st['model'] + ('Deep' if deep else '') + '.cfg'
    f = f'{d}/{cfg}.json'
    os.makedirs(d, exist_ok=True)
    if os.path.exists(f):
        return part(f, st, deep, rnd), (0, 0)
    p = subprocess.run([binary, 'schema', st['profile'], d], capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError('no schema for the closed model: ' + p.stderr[-500:])
    rc, text, states = tlc(st['model'], d, cfg=cfg, timeout=600)
    if rc != 0:
        open(f'{d}/tlc.log', 'w').write(text)
        raise ToolError(f'closed model {cfg} fails, the specification is wrong (rc {rc}); log in {d}/tlc.log\n' + '\n'.join(l for l in text.splitlines() if not l.startswith('"'))[-1500:])
    menu, hs = [], []
    for l in text.splitlines():
        if l.startswith('"HIST '):
            hs.append(json.loads(json.loads(l)[5:]) or [])
        elif l.startswith('"MENU '):
            menu = json.loads(json.loads(l)[5:])
    hs.sort(key=lambda h: (len(h), json.dumps(h)))
    json.dump({'menu': menu, 'hists': [[i, h] for i, h in enumerate(hs)]}, open(f, 'w'))
    return part(f, st, deep, rnd), states


def part(f, st, deep, rnd):
    """what one round replays"""
    k = st.get('parts', 6)
    if not deep:
        return f
    h = json.load(open(f))
    h['hists'] = h['hists'][rnd % k::k]
    g = f'{f}.{rnd % k}'
    json.dump(h, open(g, 'w'))
    return g


def accept_result(st, out, args, rc, text, res):
    """a trace specification that accepts a case when some behaviour explains all its events"""
    if rc != 0:
        open(f'{out}/tlc.log', 'w').write(text)
        raise ToolError(f'TLC failed on {st["module"]} (rc {rc}); log in {out}/tlc.log\n' + '\n'.join(l for l in text.splitlines() if 'rror' in l)[:3000])
    got = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', text)}
    for n in sorted(set(range(1, res['cases'] + 1)) - got):
        # how far any behaviour gets
        c = get_case(out, n)
        d = f'{out}/one'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/cases.ndjson', 'w').write(json.dumps(c) + '\n')
        shutil.copy(f'{out}/schemas.ndjson', d)
        _, t, _ = tlc(st['module'], d, extra={'VAT': '1'})
        at = max([int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', t)] or [0]) + 1
        e = c['ev'][min(at, len(c['ev'])) - 1]
        res['viol'].append({'what': f'case {n}: no order of the operations explains event {at}', 'cmd': args, 'case': n, 'event': min(at, len(c['ev'])), 'tags': ['order.' + e['o']]})
        if len(res['viol']) >= 5:
            break
    return res


def model_stage(prop, st, work, idx, tier):
    cfg = st['cfg_thorough'] if tier == 'thorough' and 'cfg_thorough' in st else st['cfg']
    d = f'{work}/{idx}-{st["module"]}'
    os.makedirs(d, exist_ok=True)
    rc, text, (states, trans) = tlc(st['module'], d, cfg=cfg, timeout=st.get('timeout', 800))
    if rc != 0:
        open(f'{d}/tlc.log', 'w').write(text)
        raise ToolError(f'closed model {st["module"]}/{cfg} fails, the specification is wrong (rc {rc}); log in {d}/tlc.log\n' + text[-1500:])
    return {'profile': f'{st["module"]}/{cfg}', 'viol': [], 'states': states, 'transitions': trans, 'cases': 0, 'events': 0, 'other': {}, 'dir': d, 'stats': {}}


def get_case(d, n):
    with open(f'{d}/cases.ndjson') as f:
        for i, l in enumerate(f, 1):
            if i == n:
                return json.loads(l)


def known(prop):
    out = []
    try:
        for l in open(f'{HERE}/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def sample_of(d):
    try:
        c = get_case(d, 3) or get_case(d, 1)
        s = json.dumps(c)
        return s[:1500]
    except Exception:
        return None


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = f'{HERE}/work/{prop}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    binary = build(env())
    tb = time.time() - t0
    stages = CHECKS[prop]['stages']
    results, viol = [], []
    kf = known(prop)

    def listed(v):
        return next((x for x in kf if re.fullmatch(x[0], ','.join(v['tags']))), None)
    if CHECKS[prop].get('codegen'):
        for v in build_x(env()):
            viol.append(dict(v, dir=work, module=None))
        if viol:
            stages = []
    budget = CHECKS[prop].get('thorough_s', 600) if tier == 'thorough' else 0
    rnd, idx = 0, 0
    while True:
        for st in stages:
            if time.time() - t0 > 780:
                break
            idx += 1
            if 'profile' in st:
                # a different slice of the space for every stage and round
                h = int(hashlib.sha256(f'{seed}/{st["profile"]}/{rnd}'.encode()).hexdigest()[:12], 16)
                r = trace_stage(binary, prop, st, h, st.get('tscale', 3) if tier == 'thorough' else 1, work, idx, rnd)
            elif rnd == 0:
                r = model_stage(prop, st, work, idx, tier)
            else:
                continue
            for v in r['viol']:
                v['dir'] = r['dir']
                v['module'] = st.get('module')
            results.append(r)
            viol += r['viol']
            if tier == 'thorough' and rnd > 0 and not r['viol']:
                shutil.rmtree(r['dir'], ignore_errors=True)
        rnd += 1
        if not stages or any(not listed(v) for v in viol) or time.time() - t0 > budget:
            break
    new, told = [], set()
    for v in viol:
        k = listed(v)
        if k:
            if k not in told:
                print(f'KNOWN-FINDING: property={prop} {k[1]}')
            told.add(k)
        else:
            new.append(v)
    samples = [s for s in (sample_of(r['dir']) for r in results[:3]) if s] or [r['profile'] for r in results[:3]]
    other = {}
    for r in results:
        for t, c in r['other'].items():
            other[t] = other.get(t, 0) + c
    counters = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, int):
                counters[k] = counters.get(k, 0) + v
            elif isinstance(v, dict):
                for a, b in v.items():
                    counters[f'{k}.{a}'] = counters.get(f'{k}.{a}', 0) + b
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': CHECKS[prop]['level'],
        'coverage': {
            'states': sum(r['states'] for r in results), 'transitions': sum(r['transitions'] for r in results),
            'traces_validated_against_impl': sum(r['cases'] for r in results),
            'samples': samples,
            'recorded_events': sum(r['events'] for r in results),
            'stages': [{k: r.get(k) for k in ('profile', 'seed', 'cases', 'events', 'states', 't_harness', 't_tlc') if k in r} for r in results],
            'counters': counters,
            'disagreements_outside_this_property': other,
        },
        'assumptions': CHECKS[prop].get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(new),
    }
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    if new:
        v = new[0]
        rep = dict(v)
        d = rep.pop('dir')
        if isinstance(v['case'], int):
            c = get_case(d, v['case'])
            rep['recorded'] = c
            try:
                rep['schema'] = None
            except Exception:
                pass
            if v['cmd'][0] == 'replay':
                h = json.load(open(v['cmd'][1].split(':', 1)[1]))
                rep['histories'] = dict(h, hists=[h['hists'][v['case'] - 1]])
        rep['property'] = prop
        rep['all'] = [x['what'] for x in new[:50]]
        path = f'{work}/replay.json'
        json.dump(rep, open(path, 'w'), indent=1)
        for x in new[:8]:
            print('  ', x['what'])
        if 'recorded' in rep and rep['recorded']:
            e = rep['recorded']['ev'][v['event'] - 1]
            print('   event:', json.dumps(e)[:1500])
        print(f'{len(new)} disagreements')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop} {tier}: held; {sum(r["cases"] for r in results)} traces, {sum(r["events"] for r in results)} events, {sum(r["states"] for r in results)} states; build {tb:.0f} s, total {time.time()-t0:.0f} s' + (f'; not part of this property: {other}' if other else ''))
    return 0


def replay(path):
    rep = json.load(open(path))
    binary = build(env())
    d = f'{HERE}/work/replay'
    if CHECKS[rep['property']].get('codegen'):
        v = build_x(env())
        if v or rep['cmd'] == ['code']:
            print(v[0]['what'] if v else 'no disagreement')
            return 1 if v else 0
    if 'histories' in rep:
        f = f'{HERE}/work/replay-histories.json'
        json.dump(rep['histories'], open(f, 'w'))
        rep['cmd'][1] = rep['cmd'][1].split(':')[0] + ':' + f
        rep['case'] = 1
    viol, stats = harness(binary, rep['cmd'], d, 400)
    if viol:
        print(viol[0]['what'])
        return 1
    st = next((x for x in CHECKS[rep['property']]['stages'] if x.get('accept') and x['module'] == rep['module']), None)
    if st:
        # threads run differently every time: all the histories again, and the recorded one
        json.dump(rep['recorded'], open(f'{d}/recorded.json', 'w'))
        rc, text, _ = tlc(rep['module'], d)
        res = accept_result(st, d, rep['cmd'], rc, text, {'cases': stats['cases'], 'viol': []})
        print('\n'.join(v['what'] for v in res['viol'][:10]) or 'no disagreement in this run; the recorded history is in ' + d)
        return 1 if res['viol'] else 0
    # keep only the case in question
    lines = open(f'{d}/cases.ndjson').read().splitlines()
    if isinstance(rep['case'], int):
        c = json.loads(lines[rep['case'] - 1])
        open(f'{d}/cases.ndjson', 'w').write(json.dumps(c) + '\n')
    rc, text, _ = tlc(rep['module'], d)
    bad = [l for l in text.splitlines() if 'MISMATCH' in l]
    print('\n'.join(bad[:10]) or 'no disagreement')
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as x:
        print('error:', x)
        sys.exit(2)
