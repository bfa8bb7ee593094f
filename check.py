#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

1. extracts the functions the property depends on from /repo (tools/vx), puts
   the contracts of spec/*.vspec on them and has Verus discharge every obligation;
2. runs the replay program of the property against the real crate: it turns a
   failed obligation into a failing input where there is one, and stands in
   (bounded) for functions whose contracts cannot be placed any more;
3. writes evidence/PROPERTY.json.  Exit 0 or 1 (VIOLATION line) only.
"""
import concurrent.futures as cf
import json, os, re, signal, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', V + '/build')
sys.path.insert(0, V + '/tools')
import props

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    # in a session of its own, so that nothing it started (solvers) outlives it
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        rc, e = 124, b'timeout'
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')


# ------------------------------------------------------------------ building
def build_vx():
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], 600, V + '/tools/vx', dict(ENV, CARGO_TARGET_DIR=BUILD + '/vx'))
    if rc: raise RuntimeError('the extractor does not build: ' + e[-2000:])
    return BUILD + '/vx/debug/vx'


def expand(kind='exp'):
    """The crate after macro expansion (the text rustc compiles); kind exps: with its serde feature."""
    d = BUILD + '/' + kind.replace('exp', 'expand')
    env = dict(ENV, CARGO_TARGET_DIR=d, RUSTC_BOOTSTRAP='1')
    rc, o, e = run(['cargo', 'rustc', '--offline', '--quiet', '-p', 'ublox', '--lib', '--profile', 'check', '--', '-Zunpretty=expanded'], 600, V + ('/replay_serde' if kind == 'exps' else '/replay'), env)
    if rc or len(o) < 1000: return None, e[-3000:]
    p = BUILD + '/%s.rs' % kind
    open(p, 'w').write(o)
    return p, ''


def build_replay(bin_):
    d = {'rserde': 'replay_serde', 'rdefs': 'replay_defs'}.get(bin_, 'replay')
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet', '--release', '--bin', bin_], 700, V + '/' + d, dict(ENV, CARGO_TARGET_DIR=BUILD + '/' + d))
    if rc: return None, e[-4000:]
    return BUILD + '/' + d + '/release/' + bin_, ''


# ------------------------------------------------------------------ Verus
SAFETY = re.compile(r'precondition not satisfied|overflow|underflow|decreases|index|divi|termination|recommend|unreachable|panic', re.I)


def diags(err):
    out = []
    for l in err.splitlines():
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') == 'error' and d.get('spans'): out.append(d)
    return out


def fn_at(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.search(r'/\*FN (.*?)\*/', lines[i])
        if m: return m.group(1)
        m = re.match(r'\s*(?:#\[\w+\]\s*)?(?:pub )?(?:open |closed |uninterp )?(?:broadcast )?(?:const )?(?:proof |spec |exec )?fn (\w+)', lines[i])
        if m: return m.group(1)
    return None


class Unit:
    pass


def verus(path, extra=()):
    cmd = ['verus', os.path.basename(path), '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '3'] + list(extra)
    rc, o, e = run(cmd, 480, os.path.dirname(path))
    try: js = json.loads(o[o.index('{'):])
    except ValueError: js = {}
    return rc, js, e, cmd


def run_unit(name, vx, srcs, rlimit, probe=False):
    """Extract, verify; functions the verifier cannot take are left to the bounded stand-in."""
    u = Unit()
    u.name = name
    cfgu = props.UNITS[name]
    d = '%s/units/%s%s' % (BUILD, name, '-probe' if probe else '')
    os.makedirs(d, exist_ok=True)
    rs, rep = d + '/%s.rs' % name, d + '/%s.json' % name
    ext = []
    u.undecided = {}
    for attempt in range(8):
        cmd = [vx] + [V + '/spec/' + s for s in cfgu['specs']]
        for k in cfgu['sources']: cmd += ['--src', '%s=%s' % (k, srcs[k])]
        for k in ext: cmd += ['--external', k]
        if probe: cmd.append('--probe')
        rc, o, e = run(cmd + ['--out', rs, '--report', rep], 120)
        if rc:
            u.ok = False
            u.why = 'extraction failed: ' + e[-800:]
            return u
        r = json.load(open(rep))
        u.report = r
        lines = open(rs).read().split('\n')
        # anchors that do not exist any more
        keys = {f['fn'] for f in r['functions']}
        for l in r['lost'] + ['loop without invariant: ' + x for x in r['loops_without_invariant']]:
            ks = [k for k in keys if (' ' + k + ' ') in (' ' + l.replace(':', ' :', 1) + ' ') or (k + ' #') in l or (k + ':') in l]
            k = max(ks, key=len) if ks else l
            u.undecided.setdefault(k, l)
        u.new = [f['fn'] for f in r['functions'] if f['body'] and not f['directive']]
        more = [k for k in u.undecided if k in keys and k not in ext]
        if more and not probe:
            # assume the contract of a function whose proof has lost its anchors, check the others
            ext += more
            continue
        args = ['--rlimit', str(rlimit), '--num-threads', '4' if probe else '7']
        rc, js, err, vcmd = verus(rs, args)
        u.cmd = ' '.join(vcmd)
        vr = js.get('verification-results') or {}
        ds = diags(err)
        if vr.get('verified') is None or any(x.get('code') for x in ds) or vr.get('encountered-vir-error') or js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times') is None:
            # not verified at all: unsupported construct or ill-typed contract
            bad = set()
            for x in ds:
                for s in x['spans']:
                    if s.get('is_primary') and s['file_name'].endswith('%s.rs' % name):
                        k = fn_at(lines, s['line_start'])
                        if k in keys and k not in ext: bad.add((k, x['message'][:300]))
            if bad and not probe:
                for k, m in bad:
                    ext.append(k)
                    u.undecided[k] = 'not accepted by the verifier: ' + m
                continue
            u.ok = False
            u.why = 'the verifier rejected the unit: ' + '; '.join(x['message'][:200] for x in ds[:4]) + (err[-500:] if not ds else '')
            return u
        break
    else:
        u.ok = False
        u.why = 'the verifier rejected the unit repeatedly'
        return u
    nested = {}  # functions defined inside a function of the unit: they have no contract of their own
    for f in r['functions']:
        own = f['fn'].split('::')[-1]
        for n in re.findall(r'\bfn (\w+)', f.get('text') or ''):
            if n != own and n not in keys: nested[n] = f['fn']
    u.new += list(nested)
    u.ok = True
    u.verified, u.errors = vr.get('verified', 0), vr.get('errors', 0)
    u.smt_ms = js['times-ms']['smt'].get('total', 0)
    u.total_ms = js['times-ms'].get('total', 0)
    fb = []
    for m in js['times-ms']['smt']['smt-run-module-times']: fb += m.get('function-breakdown', [])
    u.breakdown = fb
    u.failed = {}
    for x in ds:
        ks = []
        if x['message'].startswith('aborting due to'): continue
        for s in sorted(x['spans'], key=lambda s: not s.get('is_primary')):
            if s['file_name'].endswith('%s.rs' % name):
                k = fn_at(lines, s['line_start'])
                if k and k not in ks: ks.append(k)
        # a failed precondition is reported at the call and at the callee's requires: the failing
        # function is the one that contains the call / the return point
        lab = [s for s in x['spans'] if 'failed' not in (s.get('label') or '') and 'pre-condition' not in (s.get('label') or '')]
        prim = [s for s in x['spans'] if s.get('is_primary')]
        s = (prim or x['spans'])[0]
        if 'postcondition' in x['message']:
            e = [s for s in x['spans'] if 'at the end of the function body' in (s.get('label') or '') or 'at this exit' in (s.get('label') or '')]
            if e: s = e[0]
            k = fn_at(lines, s['line_end'])
        else:
            k = fn_at(lines, s['line_start'])
        if k in nested:
            u.undecided[nested[k]] = 'uses a nested function without a contract (%s)' % k
            continue
        txt = lines[s['line_start'] - 1].strip() if s['line_start'] <= len(lines) else ''
        u.failed.setdefault(k or '?', []).append(dict(message=x['message'][:300], line=s['line_start'], text=txt[:200], rendered=(x.get('rendered') or '')[:1500]))
    fnames = {f['function'].split('::')[-1] for f in fb if not f['success']}
    return u


def run_kani(name, vx, srcs):
    """A unit of plain Rust whose function contracts Kani checks over the whole domain (loop-free code, bit-precise)."""
    u = Unit()
    u.name = name
    cfgu = props.UNITS[name]
    d = '%s/kani/%s' % (BUILD, name)
    os.makedirs(d + '/src', exist_ok=True)
    rs = d + '/src/lib.rs'
    cmd = [vx] + [V + '/spec/' + s for s in cfgu['specs']]
    for k in cfgu['sources']: cmd += ['--src', '%s=%s' % (k, srcs[k])]
    rc, o, e = run(cmd + ['--out', rs, '--report', d + '/report.json'], 120)
    u.ok = False
    if rc:
        u.why = 'extraction failed: ' + e[-800:]
        return u
    u.report = json.load(open(d + '/report.json'))
    if u.report['lost']:
        u.why = 'lost: ' + ', '.join(u.report['lost'])
        return u
    for f in ('Cargo.toml', 'Cargo.lock'): open(d + '/' + f, 'w').write(open('%s/%s/%s' % (V, cfgu.get('crate', 'kani'), f)).read().replace('@REPO@', REPO))
    cmd = ['cargo', 'kani', '-Z', 'function-contracts', '--output-format', 'terse', '-j', '8']
    rc, o, e = run(cmd, 500, d, dict(ENV, CARGO_TARGET_DIR=d + '/target'))
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', o)
    if not m:
        u.why = 'Kani gave no answer (%s): %s' % ('time limit' if rc == 124 else 'exit %d' % rc, (e or o)[-600:])
        return u
    u.ok, u.undecided, u.new, u.failed = True, {}, [], {}
    u.cmd = 'cd %s && %s' % (d, ' '.join(cmd))
    checks = [(int(a), int(b)) for a, b in re.findall(r'\*\* (\d+) of (\d+) failed', o)]
    u.errors = sum(a for a, b in checks if a) if int(m.group(2)) else 0
    u.verified = sum(b for a, b in checks) - u.errors
    u.smt_ms = u.total_ms = sum(float(x) for x in re.findall(r'Verification Time: ([\d.]+)s', o)) * 1000
    for h in re.findall(r'Verification failed for - (\S+)', o):
        h = h.split('::')[-1]
        if h == 'probe': u.probe_failed = True
        what = re.findall(r'Failed Checks: (.*)', o)
        if h != 'probe' and any(re.search(r'unwinding assertion|not currently supported|unsupported', w) for w in what) or not what:
            u.undecided[h] = 'Kani gave no answer: ' + ('; '.join(sorted(set(what))) or 'CBMC failed')[:200]
            continue
        u.failed['ScaleBack::' + h.split('__')[0] if name == 'scaleback' else h] = [dict(message='contract not discharged by Kani in harness %s: %s' % (h, '; '.join(sorted(set(what)))[:300]), line=0, text=h, rendered=o[-4000:])]
    return u


def result(f):
    try: return f.result()
    except Exception as e:
        u = Unit()
        u.ok, u.why = False, 'the check itself failed: ' + ''.join(traceback.format_exception(e))[-600:]
        return u


def vacuity(u):
    """Functions under contract for which an assertion that must fail was accepted."""
    if not u.ok: return ['probe run of %s: %s' % (u.name, u.why)]
    out = []
    for f in u.report['functions']:
        if f['body'] and not f.get('external') and f['fn'] not in u.failed and f['fn'] not in u.undecided: out.append(f['fn'])
    return out


def trusted(u):
    """Mechanical scan of the specifications for what is assumed rather than proved."""
    out = []
    for s in props.UNITS[u]['specs']:
        t = open(V + '/spec/' + s).read()
        for m in re.finditer(r'(?:/\*discharged: ([^*]*)\*/ )?(?:pub )?assume_specification\s*(?:<[^>]*>\s*)?\[\s*(.*?)\s*\]', t):
            out.append(('specification of %s: discharged by %s' % (m.group(2), m.group(1))) if m.group(1) else 'assumed specification of ' + m.group(2))
        for m in re.finditer(r'external_body\]\s*(?:/\*(.*?)\*/\s*)?(?:pub )?(?:proof |const )*(fn|struct) (\w+)', t):
            if m.group(1) and m.group(1).startswith('stub: '): out.append('contract proved in unit %s' % m.group(1)[6:])
            elif m.group(1) and m.group(1).startswith('discharged: '): out.append('%s %s (spec/%s): contract discharged by %s' % (m.group(2), m.group(3), s, m.group(1)[12:]))
            else: out.append('trusted %s %s (spec/%s)' % (m.group(2), m.group(3), s))
        for m in re.finditer(r'uninterp spec fn (\w+)[^;]*;(?: /\*(.*?)\*/)?', t):
            if not (m.group(2) or '').startswith('stub: '): out.append('uninterpreted %s (spec/%s)' % (m.group(1), s))
        for m in re.finditer(r'\b(assume|admit)\s*\(', t): out.append('%s in spec/%s' % (m.group(1), s))
        for m in re.finditer(r'#\[verifier::axiom\]|\baxiom fn (\w+)', t): out.append('axiom %s in spec/%s' % (m.group(1), s))
    return sorted(set(out))


# ------------------------------------------------------------------ replay
def replay(path, prop, outdir, tier, cases=None, seed=None, timeout=500):
    os.makedirs(outdir, exist_ok=True)
    cmd = [path, '--prop', prop, '--seed', str(SEED if seed is None else seed), '--tier', tier, '--out', outdir]
    if cases: cmd += ['--cases', str(cases)]
    rc, o, e = run(cmd, timeout)
    for l in reversed(o.splitlines()):
        if l.startswith('{'):
            try: return rc, json.loads(l)
            except ValueError: pass
    return rc, dict(evaluations=0, distinct_nontrivial=0, failures=[], classes=[], error='replay ended with %s: %s' % (rc, (o + e)[-800:]))


# ------------------------------------------------------------------ deciding
def known_findings(prop):
    out = []
    try:
        for l in open(V + '/known-findings.txt'):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    except OSError: pass
    return out


def main():
    prop = sys.argv[1]
    P = props.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    outdir = V + '/replays/' + prop
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir): os.unlink(outdir + '/' + f)
    units = P['units']
    need_exp = [k for k in ('exp', 'exps') if any(k in props.UNITS[u]['sources'] for u in units)]
    srcs = dict(error=REPO + '/ublox/src/error.rs', ubx_packets=REPO + '/ublox/src/ubx_packets.rs', parser=REPO + '/ublox/src/parser.rs',
                cfg_val=REPO + '/ublox/src/ubx_packets/cfg_val.rs', types=REPO + '/ublox/src/ubx_packets/types.rs', packets=REPO + '/ublox/src/ubx_packets/packets.rs',
                **{'d' + m: '%s/ublox_derive/src/%s.rs' % (REPO, m) for m in ('lib', 'input', 'output', 'types')})
    ex = cf.ThreadPoolExecutor(8)
    f_vx = ex.submit(build_vx)
    f_exp = {k: ex.submit(expand, k) for k in need_exp}
    f_rep = {b: ex.submit(build_replay, b) for b in P['replay']}
    vx = f_vx.result()
    log('extractor built')
    whole = []  # whole units that could not be verified
    for k in need_exp:
        p, e = f_exp[k].result()
        if p: srcs[k] = p
        else: whole.append('macro expansion failed: ' + e[-300:])
        log('macro expansion done')
    fu, fp = {}, {}
    for u in units:
        if any(k in props.UNITS[u]['sources'] and k not in srcs for k in need_exp): continue
        rl = props.UNITS[u].get('rlimit', 60) * (4 if TIER == 'thorough' else 1)
        if props.UNITS[u].get('kani'):
            fu[u] = ex.submit(run_kani, u, vx, srcs)
            continue
        fu[u] = ex.submit(run_unit, u, vx, srcs, rl)
        fp[u] = ex.submit(run_unit, u, vx, srcs, 2, True)
    U = {u: result(f) for u, f in fu.items()}
    Pr = {u: result(f) for u, f in fp.items()}
    log('verifier done')

    failed, undecided, vac = [], [], []
    for u, x in U.items():
        if not x.ok:
            whole.append('%s: %s' % (u, x.why))
            continue
        log('unit %s: %d verified, %d errors, %d functions extracted, %.1f s' % (u, x.verified, x.errors, len(x.report['functions']), x.total_ms / 1000))
        new = [n.split('::')[-1] for n in x.new]
        text = {f['fn']: f['text'] for f in x.report['functions']}
        for k, why in x.undecided.items(): undecided.append((u, k, why))
        for k, errs in x.failed.items():
            rl = [e for e in errs if re.search(r'rlimit|resource limit|timeout', e['message'], re.I)]
            calls_new = [n for n in new if n != k.split('::')[-1] and re.search(r'\b%s\b' % re.escape(n), text.get(k, ''))]
            if rl: undecided.append((u, k, 'resource limit reached'))
            elif k in x.new or calls_new: undecided.append((u, k, 'uses a function without a contract (%s)' % ', '.join(calls_new or [k])))
            elif x.undecided.get(k): pass
            else:
                for e in errs: failed.append((u, k, e))
        if x.verified == 0: undecided.append((u, '*', 'no obligations'))
        pv = Pr.get(u)
        if pv and not x.undecided and x.errors == 0:
            vac += ['%s: %s' % (u, k) for k in vacuity(pv)]
    prim = P['primary']

    def relevant(u, k, e=None):
        for (pu, rx, kind) in prim:
            if pu == u and re.search(rx, k or '?'):
                if e is None or kind is None: return True
                if kind == 'safety' and SAFETY.search(e['message']): return True
        return False

    rel = [(u, k, e) for (u, k, e) in failed if relevant(u, k, e)]
    und = [(u, k, w) for (u, k, w) in undecided if relevant(u, k) or k == '*' or '::' not in (k or '')]
    # a failed obligation elsewhere leaves what rests on it undecided
    und += [(u, k, 'failed: ' + e['message']) for (u, k, e) in failed if not relevant(u, k, e)]
    for w in whole: und.append((w.split(':')[0], '*', w))

    # ---- replay on the real code
    rp, rstats, fails, rerr = {}, [], [], []
    for b, f in f_rep.items():
        p, e = f.result()
        if p is None:
            rerr.append('replay program %s does not build against the tree: %s' % (b, e))
            continue
        rp[b] = p
    log('replay programs built')
    for b, p in rp.items():
        rc, js = replay(p, prop, outdir, TIER)
        if js.get('error'): rerr.append(js['error'])
        rstats.append(js)
        fails += js['failures']
    if (rel or und) and not fails:
        # look harder for a failing input
        log('searching for a failing input (%d failed, %d undecided obligations)' % (len(rel), len(und)))
        for b, p in rp.items():
            rc, js = replay(p, prop, outdir, 'thorough', seed=SEED + 77, timeout=240)
            rstats.append(js)
            fails += js['failures']
    kf = known_findings(prop)
    known_hit = {}
    real = []
    for f in fails:
        k = next((x for x in kf if x[0] == f['key']), None)
        if k: known_hit.setdefault(k[0], k[1])
        else: real.append(f)
    violations = []
    if real:
        f = real[0]
        with open(f['path'], 'a') as fh:
            for (u, k, e) in (rel or failed)[:10]: fh.write('failed obligation: unit %s, function %s: %s [%s]\n' % (u, k, e['message'], e['text']))
            fh.write('replay with: %s --prop %s --replay %s\n' % (next(iter(rp.values()), ''), prop, f['path']))
        violations.append('VIOLATION property=%s replay=%s' % (prop, f['path']))
        log('failing input: ' + f['what'][:600])
    elif rel:
        path = outdir + '/%s-obligations.txt' % prop
        with open(path, 'w') as fh:
            fh.write('property: %s\nfailed obligations (no failing input was found by the replay search):\n' % prop)
            for (u, k, e) in rel: fh.write('\nunit %s, function %s: %s\n  at: %s\n%s\n' % (u, k, e['message'], e['text'], e['rendered']))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for k, w in sorted(known_hit.items()): print('KNOWN-FINDING: property=%s %s' % (prop, w))

    # ---- evidence
    tb = sorted(set(sum((trusted(u) for u in units), []))) + P.get('trusted', [])
    fns, bylvl = [], 0
    for u, x in U.items():
        if x.ok:
            fns += ['%s:%s' % (u, f['fn']) for f in x.report['functions'] if f['body'] and not f.get('external') and relevant(u, f['fn'])]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=P['level'], wall_s=round(time.time() - T0, 1), violations=len(violations),
              assumptions=P['assumptions'], coverage=dict(
                  obligations=sum(x.verified + x.errors for u, x in U.items() if x.ok and not props.UNITS[u].get('bounded')), discharged=sum(x.verified for u, x in U.items() if x.ok and not props.UNITS[u].get('bounded')),
                  checker_cmd='; '.join(x.cmd for x in U.values() if x.ok) or 'verus (not run)', trusted_base=tb,
                  back_end='Verus 0.2026.09.13 with its bundled Z3 (one query per function under contract)' + ('; Kani 0.68 / CBMC 6.11 function contracts over the whole domain, no unwinding: units ' + ', '.join(u for u in units if props.UNITS[u].get('kani') and not props.UNITS[u].get('bounded')) if any(props.UNITS[u].get('kani') and not props.UNITS[u].get('bounded') for u in units) else ''),
                  solver_time_s=round(sum(x.smt_ms for x in U.values() if x.ok) / 1000, 2),
                  functions_under_contract=fns, theorems=P.get('theorems', []),
                  extraction=[dict(unit=u, functions=len(x.report['functions']), dropped=x.report['dropped'], index_rewrites=x.report['index_rewrites'], substitutions=x.report['substitutions']) for u, x in U.items() if x.ok],
                  failed=[dict(unit=u, function=k, message=e['message'], text=e['text']) for (u, k, e) in failed],
                  undecided=[dict(unit=u, function=k, why=w) for (u, k, w) in und],
                  vacuity_probe=dict(rule='every function under contract is verified again with assert(false) at its start; all of these must fail', functions=sum(len(x.failed) for x in Pr.values() if x.ok), accepted=vac),
                  bounded=[dict(unit=u, bound=props.UNITS[u]['bounded'], checks=x.verified + x.errors, passed=x.verified, back_end='Kani / CBMC; not counted as discharged') for u, x in U.items() if x.ok and props.UNITS[u].get('bounded')],
                  replay=[dict(evaluations=s['evaluations'], distinct_nontrivial=s['distinct_nontrivial'], classes=s['classes'][:12]) for s in rstats],
                  replay_rule=P.get('replay_rule', ''), replay_problems=rerr, known_findings=sorted(known_hit)))
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for (u, k, w) in und: log('undecided (bounded stand-in decides): %s %s: %s' % (u, k, w[:300]))
    for (u, k, e) in failed: log('failed obligation: %s %s: %s [%s]' % (u, k, e['message'], e['text']))
    for w in vac: log('vacuous contract?', w)
    for w in rerr: log('replay:', w[:1500])
    for v in violations: print(v)
    log('%s: %s' % (prop, 'violated' if violations else 'held'))
    return 1 if violations else 0


if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
