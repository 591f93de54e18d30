#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property.

1. build the replay harness against /repo's working tree;
2. let TLC check the specification modules of the property and write the behaviours it explored
   (inputs with predicted outcomes) to a case file;
3. replay the cases into the library and compare;
4. report: KNOWN-FINDING lines, VIOLATION line and replay file, evidence.
"""
import os, sys, json, subprocess, time, shutil, fnmatch, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
TLA = '/opt/veriftools/tla'
def log(*a): print(*a, file=sys.stderr, flush=True)
def die(msg): log('ERROR: ' + msg); sys.exit(2)

def build(features=None):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    env.pop('RUSTFLAGS', None)
    for attempt in range(2):
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=HERE + '/harness', env=env, capture_output=True, text=True)
        if p.returncode == 0: return HERE + '/harness/target/debug/dxfh'
    die('harness build failed\n' + p.stderr[-4000:])

def tlc_start(work, key, module, consts, sim, seed):
    """start TLC on spec/<module>.tla in a scratch directory; returns a handle"""
    d = os.path.join(work, key)
    os.makedirs(d)
    for f in os.listdir(HERE + '/spec'):
        if f.endswith('.tla'): shutil.copy(HERE + '/spec/' + f, d)
    cases = os.path.join(work, key + '.ndjson')
    base = open(HERE + '/spec/' + module + '.cfg').read()
    cfg = []
    for line in base.splitlines():
        w = line.split()
        if len(w) >= 3 and w[1] == '=' and w[0] in consts: line = ' %s = %s' % (w[0], consts[w[0]])
        if len(w) >= 3 and w[0] == 'OutFile': line = ' OutFile = "%s"' % cases
        cfg.append(line)
    open(d + '/MC.cfg', 'w').write('\n'.join(cfg) + '\n')
    out = open(d + '/tlc.log', 'w')
    env = dict(os.environ); env.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xss64m', '-Xmx3g', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + d,
           '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC', '-workers', '1', '-noTE',
           '-metadir', d + '/states', '-config', 'MC.cfg', module + '.tla']
    if sim: cmd[-1:-1] = ['-simulate', 'num=%d' % sim['num'], '-depth', str(sim['depth']), '-seed', str(seed)]
    open(cases, 'w').close()
    return dict(sim=sim, p=subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, env=env), module=module, cases=cases, d=d)

def tlc_wait(h):
    h['p'].wait()
    txt = open(h['d'] + '/tlc.log').read()
    import re
    if h['sim']:
        m = re.search(r'The number of states generated: (\d+)', txt)
        if h['p'].returncode != 0 or not m or 'Error:' in txt: die('TLC on %s:\n%s' % (h['module'], txt[:300] + "\n...\n" + "\n".join(l[:300] for l in txt.splitlines() if l.startswith("Error") or "violated" in l) + txt[-1500:]))
        shutil.rmtree(h['d'])
        return int(m.group(1)), int(m.group(1))
    if h['p'].returncode != 0 or 'No error has been found' not in txt:
        die('TLC on %s:\n%s' % (h['module'], txt[:300] + "\n...\n" + "\n".join(l[:300] for l in txt.splitlines() if l.startswith("Error") or "violated" in l) + txt[-1500:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', txt)
    shutil.rmtree(h['d'])
    return int(m.group(1)), int(m.group(2))

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def replay(exe, engine, modes, cases, rep, timeout):
    """-> (fails, summary)"""
    t0 = time.time()
    try: p = subprocess.run([exe, engine, modes, cases, rep], capture_output=True, text=True, preexec_fn=limits, timeout=timeout, cwd=os.path.dirname(rep))
    except subprocess.TimeoutExpired: die('harness %s: out of time' % engine)
    fails, summary = [], {}
    if os.path.exists(rep):
        for l in open(rep):
            if not l.strip(): continue
            j = json.loads(l)
            if 'summary' in j: summary = j['summary']
            else: fails.append(j)
    if p.returncode == 4: pass                       # watchdog: a fail entry is in the report
    elif p.returncode < 0:                           # the code under test took the process down
        cur = open(rep + '.current', errors='replace').read().split('\n')[0]
        fails.append({'site': 'crash', 'detail': {'case': cur, 'got': 'process ended by signal %d' % -p.returncode}})
    elif p.returncode != 0: die('harness %s: %s' % (engine, p.stderr[-3000:]))
    log('  %s %s: %s cases, %d fails, %.1f s' % (engine, modes, summary.get('cases'), len(fails), time.time() - t0))
    return fails, summary

SHARDED = {'records', 'drawing', 'strings', 'compound', 'containers', 'pointers', 'layout', 'blocks', 'reader', 'trees', 'dxb', 'faults', 'hostile', 'flags', 'thumb', 'encoding', 'bulk'}   # engines whose cases do not depend on each other
def shards(cases, r, n=6):
    if r['engine'] not in SHARDED or os.path.getsize(cases) < 20000: return [cases]
    names = ['%s.%d' % (cases, k) for k in range(n)]
    outs = [open(x, 'w') for x in names]
    with open(cases) as f:
        k = 0
        for l in f:
            if l.startswith('{"meta"'):
                for o in outs: o.write(l)
            else: outs[k // 16 % n].write(l); k += 1
    for o in outs: o.close()
    return names

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    chk = CHECKS[prop]
    work = '%s/work/%s' % (HERE, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    runs = chk['runs'](tier, seed)
    # TLC (in parallel) while the harness builds
    handles, started = {}, []
    for r in runs:
        r['key'] = r['spec'] and r['spec'] + r.get('tag', '')
        if r['key'] and r['key'] not in handles:
            handles[r['key']] = tlc_start(work, r['key'], r['spec'], r.get('consts', {}), r.get('sim'), seed)
    exe = build()
    states = distinct = 0
    tl = {}
    for s, h in handles.items():
        g, d = tlc_wait(h); tl[s] = {'generated': g, 'distinct': d}
        states += d; distinct += g
        log('  TLC %s: %d states, %.0f s' % (s, d, time.time() - t0))
    fails, cases, steps, counts, samples = [], 0, 0, {}, []
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    with ThreadPoolExecutor(6) as ex:
        for i, r in enumerate(runs):
            cf = handles[r['key']]['cases'] if r['key'] else '-'
            for j, part in enumerate(shards(cf, r)):
                jobs.append((r, ex.submit(replay, exe, r['engine'], r['modes'], part, '%s/report%d_%d.ndjson' % (work, i, j), 800 if tier == 'quick' else 20000)))
        for r, j in jobs:
            f, s = j.result()
            fails += f; cases += s.get('cases', 0); steps += s.get('steps', 0)
            for k, v in s.get('counts', {}).items(): counts[k] = counts.get(k, 0) + v
    for s, h in handles.items():
        with open(h['cases']) as fh:
            ls = [l for l in (fh.readline() for _ in range(4)) if l.strip() and '"meta"' not in l[:12]]
        if ls: samples.append(ls[-1][:600])
    # known findings
    known = [json.loads(l) for l in open(HERE + '/known_findings.jsonl') if l.strip()]
    known = [k for k in known if k.get('status') == 'known' and prop in k['properties']]
    new, hit = [], set()
    for f in fails:
        for k in known:
            if any(f['site'] == s or (s.endswith('*') and f['site'].startswith(s[:-1])) for s in k['sites']): hit.add(k['id']); break
        else: new.append(f)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level=chk['level'], wall_s=round(time.time() - t0, 1),
              coverage=dict(states=states, transitions=distinct, traces_validated_against_impl=cases, replay_steps=steps, spec_modules=tl, by_kind=counts, samples=samples,
                            known_findings_seen=sorted(hit)),
              assumptions=chk.get('assumptions', []), violations=len(new))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    if cases == 0: die('nothing was replayed')
    if new:
        rp = '%s/replay.json' % work
        json.dump(new[:200], open(rp, 'w'), indent=1)
        for f in new[:12]: log('  FAIL %s %s' % (f['site'], json.dumps(f['detail'])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    for h in handles.values():
        for f in os.listdir(work):
            if os.path.join(work, f).startswith(h['cases']): os.remove(os.path.join(work, f))
    print('OK property=%s states=%d cases=%d wall=%.0fs' % (prop, states, cases, time.time() - t0))

if __name__ == '__main__': main()
