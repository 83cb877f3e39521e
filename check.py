#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property of /repo's current working tree.

1. Deductive stage: the contracts of the property are discharged on the current source, by Verus
   (functions extracted mechanically from /repo by extract/, contracts from verus/*.vo) and/or by
   Kani (loop-free symbolic harnesses over the unmodified crate, unbounded input).
2. Failing-input search: engine/ runs the real code on generated inputs against the oracles of
   the same contracts (always, short; long when an obligation failed or an anchor was lost).
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check could not run.
"""
import concurrent.futures as cf, itertools, json, os, re, resource, shutil, subprocess, sys, time
from units import UNITS, PROPS

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
T0 = time.time()


def left(limit=840):
    return limit - (time.time() - T0)


def say(*a):
    print('[%5.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, cwd=V, timeout=600, env=None, limit_mem=None):
    def pre():
        os.setpgid(0, 0)
        if limit_mem:
            resource.setrlimit(resource.RLIMIT_DATA, (limit_mem, limit_mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=max(5, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return 124, o, e


# ------------------------------------------------------------------ builds
def build_extract():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=V + '/extract')
    return rc == 0, e


def build_deps():
    env = dict(ENV, RUSTUP_TOOLCHAIN='1.98.1-x86_64-unknown-linux-gnu')
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=V + '/verus/deps', env=env)
    return rc == 0, e


def build_engine():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], cwd=V + '/engine')
    return rc == 0, e


def build_programs():
    """the programs of the workspace, as /repo builds them (overflow checks on), outside of /repo"""
    rc, o, e = sh(['cargo', 'build', '--offline', '--locked', '-q', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', V + '/cmds_target', '-p', 'ripdlt', '-p', 'dd_dlt'])
    if rc:
        return False, e
    ENV['CMDS_BIN'] = V + '/cmds_target/debug'
    return build_engine()


# ------------------------------------------------------------------ Verus
def extract(name, unit, work, binds, falsify=False, norm=False):
    os.makedirs(work, exist_ok=True)
    a = [V + '/extract/target/debug/extract', '--root', REPO + '/' + unit.get('root', 'matchit/src/lib.rs')]
    for o in unit['overlays']:
        a += ['--overlay', '%s/verus/%s.vo' % (V, o)]
    for k in unit['keep']:
        a += ['--keep', k]
    for n, p in unit.get('also', {}).items():
        a += ['--also', '%s=%s/%s' % (n, REPO, p)]
    for k in unit['verify']:
        a += ['--verify', k]
    for k, n, x in binds:
        a += ['--bind', '%s|%s=%s' % (k, n, x)]
    if falsify:
        a += ['--falsify']
    if norm:
        a += ['--norm']
    a += ['--out', work + '/x.rs', '--report', work + '/x.rep']
    rc, o, e = sh(a, timeout=60)
    rep = {}
    if rc == 0:
        for l in open(work + '/x.rep').read().splitlines():
            f = l.split('\t')
            rep.setdefault(f[0], []).append(f[1:])
    return rc == 0, e, rep


def run_verus(work, rlimit=None, timeout=200):
    d = V + '/verus/deps/target/debug/deps'
    cmd = ['verus', '--crate-type', 'lib', 'x.rs', '--output-json', '--time', '--multiple-errors', '20', '-L', d]
    for c in ('memchr', 'regex', 'memmap', 'zerocopy', 'zerocopy_derive', 'num_traits', 'num_derive'):
        l = sorted(x for x in os.listdir(d) if x.startswith('lib%s-' % c) and x.endswith(('.rlib', '.so')))
        cmd += ['--extern', '%s=%s/%s' % (c, d, l[0])]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    rc, o, e = sh(cmd, cwd=work, timeout=min(timeout, left()))
    r = dict(cmd=' '.join(cmd), out=e, rc=rc, kind='undecided', verified=0, errors=0, time=0.0)
    try:
        j = json.loads(o[o.index('{'):])
    except ValueError:
        r['why'] = 'Verus gave no result (%s)' % ('time limit' if rc == 124 else e.strip()[:300])
        return r
    v = j.get('verification-results', {})
    r['verified'], r['errors'] = v.get('verified', 0), v.get('errors', 0)
    r['time'] = j.get('times-ms', {}).get('total', 0) / 1000.0
    r['smt'] = ((j.get('times-ms') or {}).get('smt') or {}).get('total', 0) / 1000.0
    r['functions'] = sorted(k for k in j.get('func-details', {}) if not k.startswith('vstd'))
    if v.get('success') and not v.get('errors') and rc == 0:
        r['kind'] = 'proved'
    elif v.get('encountered-vir-error') or 'verified' not in v or not v.get('errors'):
        r['why'] = 'the extracted code is outside of what the verifier accepts: ' + ' '.join(re.findall(r'^error.*(?:\n.*){0,4}', e, re.M)[:2])[:600]
    elif 'Resource limit (rlimit) exceeded' in e or 'rlimit exceeded' in e.lower():
        r['kind'] = 'rlimit'
        r['why'] = 'the solver gave up (resource limit)'
    else:
        r['kind'] = 'failed'
        r['why'] = 'an obligation failed'
    return r


def run_patient(work, name):
    """run_verus, with more patience where the solver gave up"""
    r = run_verus(work)
    if r['kind'] == 'rlimit':
        r = run_verus(work, rlimit=120)
    r.update(unit=name, work=work)
    return r


def failed_obligations(text):
    out = []
    for m in re.finditer(r'^error: (.*)\n((?:(?!^error|^note: automat|^warning).*\n)*)', text, re.M):
        if 'aborting' in m.group(1):
            continue
        body = m.group(2)
        code = re.findall(r'^\s*(\d+)\s*\|(.*)$', body, re.M)
        out.append(dict(what=m.group(1), at=[('x.rs:' + a, b.strip()) for a, b in code][:12]))
    return out


def enclosing(work, obls):
    """the function an obligation belongs to, by the line of the generated file"""
    L = open(work + '/x.rs').read().splitlines()
    for o in obls:
        if not o['at']:
            continue
        n = int(o['at'][-1][0].split(':')[1])
        for i in range(min(n, len(L)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:open\s+)?(?:proof\s+|spec\s+)?fn\s+(\w+)', L[i])
            if m:
                o['function'] = m.group(1)
                break
    return obls


def overlay_binds(unit):
    b, key = [], None
    for o in unit['overlays']:
        for l in open('%s/verus/%s.vo' % (V, o)):
            if l.startswith('==='):
                key = l[6:].strip() if l.startswith('=== fn ') else None
                key = l[len('=== fn '):].strip() if l.startswith('=== fn ') else None
            elif l.startswith('@bind ') and key in unit['verify']:
                n, x = l[6:].strip().split('=', 1)
                b.append((key, n, x))
    return b


def scan_trusted(work, rep):
    t = open(work + '/x.rs').read()
    out = []
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(', t):
        out.append('assumed specification of ' + re.sub(r'\s+', '', m.group(1)))
    for m in re.finditer(r'axiom fn (\w+)', t):
        out.append('axiom ' + m.group(1))
    for m in re.finditer(r'fn (law_\w+)', t):
        out.append('record type law %s (C06 shows it for DltStorageEntry)' % m.group(1))
    bad = []
    for l in t.splitlines():
        if re.search(r'\b(admit|assume)\s*\(', l):
            m = re.search(r'\b(assume\s*\(.*\);)\s*// trusted: (.*)$', l)
            if m:
                out.append('%s (%s)' % (m.group(1), m.group(2).strip()))
            else:
                bad.append(l.strip())
    return sorted(set(out)), bad


def dropped(rep):
    """what the unit leaves out: {key: names of the methods}"""
    d = {}
    for x in rep.get('dropped', []):
        d[x[0]] = set(x[1].split(',')) if len(x) > 1 else {x[0].split('::')[-1]} if '::' in x[0] else set()
    return d


def hidden(name, work, rep):
    """code that is not in the unit, and was not left out when the contracts were written, must not
    take the place of code that is: methods hide those of traits, a Drop runs by itself, cfg selects"""
    try:
        known = {tuple(l.rstrip('\n').split('\t')) for l in open(V + '/verus/dropped.txt')}
    except OSError:
        known = set()
    text = open(work + '/x.rs').read()
    for k, ms in dropped(rep).items():
        if (name, k) in known:
            continue
        if k.startswith('impl Drop for'):
            return 'new code outside of the unit: %s' % k
        for m in sorted(ms):
            if m and re.search(r'(\.|::)%s\b' % re.escape(m), text):
                return 'new code outside of the unit: %s may be what is called as %s' % (k, m)
    m = re.search(r'#\[cfg(?:_attr)?\((?!test\b|verus)[^\]]*\]|\bcfg!\(', text)
    if m:
        return 'conditional compilation: %s' % m.group(0)
    return None


def verus_unit(name, tier):
    """-> dict(kind = proved | failed | undecided, ...)"""
    unit = UNITS[name]
    work = '%s/work/%s' % (V, name)
    shutil.rmtree(work, ignore_errors=True)
    ok, err, rep = extract(name, unit, work, [])
    unread = None if ok else 'extraction failed: ' + err.strip()[:300]
    if not ok and ' closures, ' in err:
        ok, _, rep = extract(name, unit, work, [], norm=True)
    if not ok:
        return dict(unit=name, kind='undecided', why=unread, verified=0)
    got = {x[0] for x in rep.get('verify', [])}
    miss = [k for k in unit['verify'] if k not in got]
    if miss:
        return dict(unit=name, kind='undecided', why='lost anchor: %s' % ', '.join(miss), verified=0)
    r = run_patient(work, name)
    norm = unread is not None
    alt = None
    if r['kind'] != 'proved' and not norm:
        # the same code with Option combinators written as matches and loops over next() as for loops
        w = work + '.norm'
        ok, _, rn = extract(name, unit, w, [], norm=True)
        if ok and rn.get('norm'):
            q = run_patient(w, name)
            alt = rn
            if q['kind'] == 'proved' or q['kind'] == 'failed' and (r['kind'] != 'failed' or q['errors'] < r['errors']):
                r, rep, norm = q, rn, True
    if r['kind'] != 'proved':
        # the names that the loop contracts speak of may have changed: try the other locals
        for rp, nm in [(rep, norm)] + ([(alt, True)] if alt and not norm else []):
            locs = {x[0]: [y for y in x[2].split('=', 1)[1].split(',') if y] for x in rp.get('verify', [])}
            alts = []
            for k, n, x in overlay_binds(unit):
                head = re.match(r'\w+', x)
                if head and head.group(0) not in locs.get(k, []):
                    alts.append([(k, n, x.replace(head.group(0), l, 1)) for l in dict.fromkeys(locs.get(k, []))])
            if not alts or not all(alts):
                continue
            combos = [c for c in itertools.product(*alts) if len({y[2] for y in c}) == len(c)][:48]

            def attempt(i_c):
                i, c = i_c
                w = '%s.%d' % (work, i)
                ok, _, _ = extract(name, unit, w, list(c), norm=nm)
                return run_patient(w, name) if ok else dict(kind='undecided', unit=name, work=w)
            with cf.ThreadPoolExecutor(6) as ex:
                qs = list(ex.map(attempt, enumerate(combos)))
            best = [q for q in qs if q['kind'] == 'proved'] or [q for q in qs if q['kind'] == 'failed' and r['kind'] != 'failed']
            if best:
                best.sort(key=lambda q: q['errors'])
                r, rep, norm = best[0], rp, nm
                if r['kind'] == 'proved':
                    break
    if r['kind'] == 'rlimit':
        r['kind'] = 'undecided'
    r['rep'] = rep
    if r['kind'] == 'failed':
        r['obligations'] = enclosing(r['work'], failed_obligations(r['out']))
        return r
    if r['kind'] == 'proved':
        x = hidden(name, r['work'], rep)
        if x:
            r['kind'], r['why'] = 'undecided', x
            return r
        r['trusted'], bad = scan_trusted(r['work'], rep)
        if bad:
            r['kind'], r['why'] = 'undecided', 'the unit contains ' + ', '.join(bad)
            return r
        # vacuity guard: with `assert(false)` on entry every function has to fail
        w = work + '.falsify'
        binds = []
        ok, err, _ = extract(name, unit, w, binds, falsify=True, norm=norm)
        q = run_verus(w) if ok else dict(errors=0, kind='x')
        r['vacuity'] = dict(functions=len(unit['verify']), refuted=q['errors'])
        if r['work'] in (work, work + '.norm') and q['errors'] < len(unit['verify']):
            r['kind'], r['why'] = 'undecided', 'vacuous: assert(false) holds in a function of the unit'
    return r


# ------------------------------------------------------------------ Kani
def kani(crate, harnesses, tier):
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '6']
    for h in harnesses:
        cmd += ['--harness', h]
    r = dict(unit='kani:' + crate, cmd=' '.join(cmd), kind='undecided', verified=0, harnesses={}, time=0.0)
    t = time.time()
    rc, o, e = sh(cmd, cwd=V + '/' + crate, timeout=min(480 if tier == 'quick' else 800, left(600)))
    r['time'] = time.time() - t
    r['out'] = o + e
    th, done = {}, {}
    # -j prints every line of a thread with the name of the thread at the start of a block
    cur, block = None, []
    for l in o.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            th[m.group(1)] = m.group(2)
            if m.group(1) is None:
                cur = m.group(2)
            continue
        m = re.match(r'Thread (\d+):', l)
        if m:
            cur = th.get(m.group(1))
            continue
        if cur:
            done.setdefault(cur, []).append(l)
    bad = []
    for h in harnesses:
        full = [x for x in done if x.split('::')[-1] == h]
        b = '\n'.join(done[full[0]]) if full else ''
        m = re.search(r'\*\* (\d+) of (\d+) failed', b)
        c = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
        s = 'SUCCESSFUL' in b
        t = re.search(r'Verification Time: ([\d.]+)s', b)
        fails = re.findall(r'Failed Checks: (.*)', b)
        r['harnesses'][h] = dict(ok=s, checks=int(m.group(2)) if m else 0, failed=fails, covers=[int(c.group(1)), int(c.group(2))] if c else None, time=float(t.group(1)) if t else None)
        if s and m:
            r['verified'] += int(m.group(2))
            if c and c.group(1) != c.group(2):
                bad.append('%s: %s of %s reachability conditions' % (h, c.group(1), c.group(2)))
    miss = [h for h in harnesses if not r['harnesses'][h]['ok']]
    failed = [h for h in miss if r['harnesses'][h]['failed'] and not all(re.search('unwinding|not supported|unsupported|timed out', x) for x in r['harnesses'][h]['failed'])]
    if failed:
        r['kind'] = 'failed'
        r['why'] = 'an obligation failed'
        r['obligations'] = [dict(what=f, function=h, at=[]) for h in failed for f in r['harnesses'][h]['failed']]
    elif miss:
        r['why'] = 'no result for ' + ', '.join(miss) + ('' if rc != 124 else ' (time limit)') + ' ' + ' '.join(re.findall(r'^error.*', o + e, re.M)[:3])[:300]
    elif bad:
        r['kind'], r['why'] = 'failed', 'an input that has to be reachable is not'
        r['obligations'] = [dict(what='cover: ' + x, function=x.split(':')[0], at=[]) for x in bad]
    else:
        r['kind'] = 'proved'
    return r


# ------------------------------------------------------------------ search
def search(pid, seed, ms, d):
    rc, o, e = sh([V + '/engine/target/debug/engine', 'run', pid, '--seed', str(seed), '--ms', str(ms), '--jobs', '7', '--dir', d], timeout=ms / 1000 + 120, limit_mem=6 << 30)
    l = o.strip().splitlines()[-1] if o.strip() else ''
    if l.startswith('OK '):
        return 'ok', json.loads(l[3:])
    if l.startswith('FAIL '):
        f = json.loads(l[5:])
        p = d + '/candidate.json'
        json.dump(f, open(p, 'w'), indent=1)
        # has to fail again, by itself, within a minute
        rc, o, e = sh([V + '/engine/target/debug/engine', 'replay', pid, p], timeout=90, limit_mem=12 << 30)
        if rc == 0:
            return 'error', 'not reproducible: %s' % l[:400]
        if rc == 124:
            f['what'] = 'does not end within 90 s'
        elif 'VIOLATED:' in o:
            f['what'] = o[o.index('VIOLATED:') + 10:].strip()
        return 'fail', f
    return 'error', 'engine ended with %d: %s' % (rc, (e or o)[-400:])


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    out = '%s/out/%s' % (V, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(V + '/evidence', exist_ok=True)
    ex = cf.ThreadPoolExecutor(16)
    fe = ex.submit(build_programs if P.get('programs') else build_engine) if P.get('engine') else None
    units = P.get('verus', [])
    stages = []
    fk = [ex.submit(kani, c, hs, tier) for c, hs in P.get('kani', [])]
    fb = [ex.submit(f) for f in ((build_extract, build_deps) if units else ())]
    for f in fb:
        ok, err = f.result()
        if not ok:
            print('cannot build the tools:\n' + err)
            return 2
    fu = [ex.submit(verus_unit, u, tier) for u in units]
    for f in fu + fk:
        stages.append(f.result())
        r = stages[-1]
        say(r['unit'], r['kind'], '%d verified' % r['verified'], r.get('why', '') if r['kind'] != 'proved' else '')
    # a unit that restates what Kani's obligations of this property say: Kani decides where they disagree
    for r in stages:
        if r['kind'] == 'failed' and r['unit'] in P.get('second', []) and all(k['kind'] == 'proved' for k in stages if k['unit'].startswith('kani')):
            r['kind'], r['why'] = 'undecided', 'the restatement in Verus is not provable, the same contract is discharged by Kani'
    failed = [r for r in stages if r['kind'] == 'failed']
    lost = [r for r in stages if r['kind'] == 'undecided']
    # bounded parts: black-box runs of the real binaries
    custom = None
    if P.get('custom'):
        import importlib
        custom = importlib.import_module(P['custom']).run(pid, tier, seed, out, sh, say)
        say('custom', custom['kind'], custom.get('what', ''))
    srch, eng_ok = None, False
    if fe:
        eng_ok, err = fe.result()
        if not eng_ok:
            say('the search does not build:', err.strip()[:600])
    violation = None
    if custom and custom['kind'] == 'fail':
        violation = dict(custom['replay'], found_by='run of the real binary')
    if eng_ok and not violation:
        ms = 5000 if tier == 'quick' else 150000
        if not stages and tier == 'quick':
            ms = 20000
        rounds = [ms]
        if tier == 'quick' and (failed or lost):
            rounds = [5000, 60000]
        for n, m in enumerate(rounds):
            k, x = search(pid, seed + n * 7919, m, out + '/scratch')
            if k == 'error':
                say('search:', x)
                k, x = search(pid, seed + n * 7919 + 1, m, out + '/scratch')
            say('search', k, x if k == 'error' else '%s' % json.dumps(x)[:300])
            if k == 'ok':
                srch = x if srch is None else dict(srch, evaluations=srch['evaluations'] + x['evaluations'], distinct=srch['distinct'] + x['distinct'])
            if k == 'fail':
                violation = dict(x, found_by='search on the real code', replay_with='cd /verif/engine && cargo build --offline && %s./target/debug/engine replay %s %s/replay.json' % ('CMDS_BIN=/verif/cmds_target/debug ' if P.get('programs') else '', pid, out))
                break
            if k == 'error':
                break
    shutil.rmtree(out + '/scratch', ignore_errors=True)
    if violation is None and not stages and not custom and srch is None:
        print('nothing could be run')
        return 2
    # ---- evidence
    wall = time.time() - T0
    n_viol = 1 if (violation or failed) else 0
    proved = [r for r in stages if r['kind'] == 'proved']
    level = P['level']
    obligations = sum(r['verified'] + r.get('errors', 0) + (len(r.get('obligations', [])) if r['unit'].startswith('kani') else 0) for r in stages)
    cov = {}
    if stages:
        tb = sorted({t for r in stages for t in r.get('trusted', [])} | set(P.get('trusted', [])))
        own = {k for u in units for k in UNITS[u]['verify']}
        for r in stages:
            for x in r.get('rep', {}).get('assumed', []):
                if x[0] not in own:
                    tb.append('contract of %s, assumed here' % x[0] + (' (discharged by ' + '/'.join(sorted(n for n in UNITS if x[0] in UNITS[n]['verify'])) + ')' if any(x[0] in UNITS[n]['verify'] for n in UNITS) else ''))
        cov.update(
            obligations=obligations, discharged=sum(r['verified'] for r in stages),
            checker_cmd='; '.join(r.get('cmd', '') for r in stages),
            trusted_base=sorted(set(tb)),
            functions_under_contract=sorted(own) + P.get('kani_functions', []),
            back_end={r['unit']: ('Kani/CBMC' if r['unit'].startswith('kani') else 'Verus/Z3') for r in stages},
            solver_s={r['unit']: round(r.get('smt', r.get('time', 0)), 2) for r in stages},
            vacuity={r['unit']: r.get('vacuity', {h: x.get('covers') for h, x in r.get('harnesses', {}).items()}) for r in stages},
            inlined=sorted({x[0] for r in stages for x in r.get('rep', {}).get('inlined', [])}),
            undecided={r['unit']: r.get('why') for r in lost},
        )
    if srch:
        cov.update(evaluations=srch['evaluations'], distinct_nontrivial=srch['distinct'], rule=P.get('rule', 'a case is a choice string drawn at random and decoded into an input of the real API; non-trivial: the oracle of the property says it exercises it (a record, match or element is present); distinct: by choice string'), samples=srch['samples'][:4] or ['none'])
    if custom:
        cov.update(custom['coverage'])
    if level == 'other' or 'explanation' in P:
        cov.setdefault('explanation', P.get('explanation', ''))
    if lost:
        cov['bounded_stand_in'] = 'the proof of %s is lost on this tree (see undecided); the search stands in, bounded by its time' % ', '.join(r['unit'] for r in lost)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(wall, 1), violations=n_viol)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    # ---- verdict
    if violation or failed:
        rp = out + '/replay.json'
        d = dict(violation or dict(property=pid, what='failed obligation, no failing input found'))
        d['failed_obligations'] = [dict(unit=r['unit'], obligation=o) for r in failed for o in r.get('obligations', [])]
        d['verifier_output'] = {r['unit']: r.get('out', '')[-6000:] for r in failed}
        json.dump(d, open(rp, 'w'), indent=1)
        for o in d['failed_obligations'][:8]:
            print('FAILED OBLIGATION', json.dumps(o)[:600])
        if violation:
            print('INPUT', json.dumps({k: d.get(k) for k in ('input', 'what', 'case')})[:1500])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violation else ' no-failing-input-found'))
        return 1
    if lost and not proved and srch is None and not custom:
        print('undecided: ' + '; '.join(r.get('why', '') for r in lost))
        return 2
    print('%s held: %s' % (pid, ', '.join(['%d obligations discharged' % cov.get("discharged", 0)] * bool(proved) + ['bounded stand-in for ' + r['unit'] for r in lost] + (['%d cases run' % srch['evaluations']] if srch else []))))
    return 0


if __name__ == '__main__':
    sys.path.insert(0, V)
    sys.exit(main())
