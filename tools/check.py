#!/usr/bin/env python3
"""Decide one property: contracts on the real code, discharged by Verus, plus the
bounded stand-in / counterexample search on the compiled code.  Exit 0 or 1."""
import sys, os, json, re, subprocess, time, shutil, tempfile, threading, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import assemble as asm

REPO = asm.REPO
CARGO_ENV = dict(os.environ)
CARGO_ENV.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
                 CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTFLAGS='', CARGO_INCREMENTAL='1',
                 CARGO_PROFILE_DEV_DEBUG='line-tables-only')
CARGO_ENV['PATH'] = '/root/.cargo/bin:' + CARGO_ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')
TARGET = os.path.join(REPO, 'target') if os.path.isdir(os.path.join(REPO, 'target')) else os.path.join(VERIF, '.build', 'target')
CARGO_ENV['CARGO_TARGET_DIR'] = TARGET

VERIFY_MSG = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                        r'possible arithmetic underflow/overflow|possible division by zero|possible bit shift|decreases not satisfied|'
                        r'termination proof|unreachable|failed this|might not be allowed|cannot show|not all errors|recommendation not met|'
                        r'assert_by|bit_vector|unable to')


def run_verus(text, name, scratch, extra=(), timeout=600):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{name}.rs')
    open(p, 'w').write(text)
    cmd = ['verus', p, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4',
           '--multiple-errors', '5', '--triggers-mode', 'silent', *extra]
    t = time.time()
    try:
        x = subprocess.run(cmd, capture_output=True, text=True, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(cmd=cmd, ok=False, toolgap='verus timed out', verified=0, errors=0, diags=[], smt_ms=0, wall=time.time() - t, funcs=[])
    js = {}
    try:
        js = json.loads(x.stdout[x.stdout.index('{'):])
    except Exception:
        pass
    diags, others, rlimit = [], [], False
    for ln in x.stderr.splitlines():
        if not ln.startswith('{'):
            continue
        try:
            m = json.loads(ln)
        except Exception:
            continue
        if m.get('level') != 'error':
            continue
        msg = m.get('message', '')
        if msg.startswith('aborting due to'):
            continue
        if 'rlimit' in msg.lower() or 'resource limit' in msg.lower():
            rlimit = True
        lines = [s['line_start'] for s in m.get('spans', [])]
        diags.append(dict(msg=msg, lines=lines, rendered=m.get('rendered', '')))
    vr = js.get('verification-results', {})
    verified, errors = vr.get('verified', 0), vr.get('errors', 0)
    smt = js.get('times-ms', {}).get('smt', {})
    funcs = []
    for mod in smt.get('smt-run-module-times', []):
        for f in mod.get('function-breakdown', []):
            funcs.append((f['function'], f['time-micros'], f.get('success')))
    gap = None
    if not vr or vr.get('encountered-vir-error') or (not vr.get('success') and errors == 0):
        gap = 'not accepted by the verifier front end: ' + '; '.join(d['msg'] for d in diags[:3]) if diags else 'verus gave no result: ' + x.stderr[-400:]
    elif rlimit:
        gap = 'solver resource limit exceeded'
    return dict(cmd=cmd, ok=bool(vr.get('success')) and errors == 0 and verified > 0, toolgap=gap, verified=verified, errors=errors,
                diags=diags, smt_ms=smt.get('smt-run', 0), wall=time.time() - t, funcs=funcs)


def scan_trusted(text):
    t = []
    for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[(.*?)\]\s*\(', text, re.S):
        t.append('assumed contract on std: ' + ' '.join(m.group(1).split()))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?((?:proof\s+|const\s+)?(?:fn|struct)\s+\w+)', text):
        t.append('external_body: ' + m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(', text):
        t.append('assume/admit in text')
    for m in re.finditer(r'\b(?:broadcast\s+)?axiom\s+fn\s+(\w+)', text):
        t.append('axiom: ' + m.group(1))
    for m in re.finditer(r'#\[verifier::external_type_specification\]', text):
        t.append('external_type_specification')
    return sorted(set(t))


def known_findings(pid):
    """lines: KNOWN-FINDING: property=<id> key=<group | input> :: what fails"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'^KNOWN-FINDING: property=(\w+) key=(.*?) :: (.*)$', ln.rstrip('\n'))
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, 'contracts', 'config.json'))).get(pid, {})
    scratch = tempfile.mkdtemp(prefix=f'cdxv-{pid}-')
    try:
        rc = decide(pid, tier, seed, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def build_harness(pid, scratch, res):
    """build the harness crate (with the real library and the real binary) from /repo's tree"""
    if not os.path.exists(os.path.join(VERIF, 'harness', 'src', pid.lower() + '.rs')):
        res['none'] = True
        return
    lock = os.path.join(VERIF, 'harness', 'Cargo.lock')
    cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml'), '--features', pid]
    x = subprocess.run(cmd, capture_output=True, text=True, env=CARGO_ENV, timeout=800)
    res['rc'] = x.returncode
    res['log'] = x.stderr[-3000:]
    if x.returncode == 0:
        for b in ('cdxharness', 'cdxbin'):
            shutil.copy2(os.path.join(TARGET, 'debug', b), os.path.join(scratch, b))


def decide(pid, tier, seed, cfg, scratch, t0):
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f'{pid}.json')
    if os.path.exists(replay):
        os.unlink(replay)
    hb = {}
    th = threading.Thread(target=lambda: build_harness_safe(pid, scratch, hb))
    th.start()

    # ---- 1. extraction and proof ------------------------------------------------
    vers = []
    units = cfg.get('units', [pid])
    lost, failed, gaps = [], [], []
    funcs, trusted, subs, inlined = [], [], [], []
    obligations = discharged = 0
    smt_ms = 0
    vac_bad = []
    vac_n = 0
    verus_out = ''
    per_func = []
    cmds = []
    for u in units:
        try:
            r = asm.assemble(os.path.join(VERIF, 'contracts', u + '.vrs'))
            rp = asm.assemble(os.path.join(VERIF, 'contracts', u + '.vrs'), inject_false=True)
        except Exception as e:  # source no longer tokenizes as expected
            lost.append(f'{u}: extraction failed: {e!r}')
            continue
        lost += [f'{u}: {x}' for x in r.lost]
        funcs += r.funcs
        trusted += scan_trusted(r.text)
        subs += r.subs
        extra = cfg.get('verus_args', [])
        box = {}
        th1 = threading.Thread(target=lambda: box.__setitem__('p', run_verus(rp.text, u.lower() + '_probe', scratch, extra)))
        th1.start()
        v = run_verus(r.text, u.lower(), scratch, extra)
        th1.join()
        pr = box['p']
        if not v['ok'] and getattr(r, 'converted', False):
            r2 = asm.assemble(os.path.join(VERIF, 'contracts', u + '.vrs'), variant=True)
            v2 = run_verus(r2.text, u.lower() + '_v', scratch, extra)
            if v2['ok']:
                r, v = r2, v2
                rp = asm.assemble(os.path.join(VERIF, 'contracts', u + '.vrs'), inject_false=True, variant=True)
                pr = run_verus(rp.text, u.lower() + '_vprobe', scratch, extra)
        cmds.append(' '.join(v['cmd']).replace(scratch, '<scratch>'))
        obligations += v['verified'] + v['errors']
        discharged += v['verified']
        smt_ms += v['smt_ms']
        per_func += [dict(function=a, smt_us=b) for a, b, c in v['funcs']]
        if v['toolgap']:
            gaps.append(f"{u}: {v['toolgap']}")
        elif not v['ok']:
            for d in v['diags']:
                fn = '?'
                for f in r.funcs:
                    if any(f['line_start'] <= l <= f['line_end'] for l in d['lines']):
                        fn = f['path']
                        if f.get('closure'):
                            gaps.append(f"{u}: {fn} contains a closure, which has no contract")
                failed.append(dict(unit=u, function=fn, message=d['msg'], rendered=d['rendered']))
            if not v['diags']:
                failed.append(dict(unit=u, function='?', message='verification failed', rendered=''))
        # vacuity: assert(false) at the start of every body must be refuted
        if v['ok'] and not pr['toolgap']:
            for f in rp.funcs:
                if not f['has_body']:
                    continue
                vac_n += 1
                if not any(f['line_start'] <= l <= f['line_end'] for d in pr['diags'] for l in d['lines']):
                    vac_bad.append(f['path'])
        if tier == 'thorough' and v['ok']:
            for s in (7, 99):
                vv = run_verus(r.text, f'{u.lower()}_s{s}', scratch, list(extra) + ['--smt-option', f'smt.random_seed={s}'])
                vers.append(dict(unit=u, seed=s, ok=vv['ok'], verified=vv['verified'], smt_ms=vv['smt_ms']))
    if vac_bad:
        gaps.append('vacuous contract (assert(false) not refuted): ' + ', '.join(vac_bad))
    proved = not (lost or failed or gaps) and obligations > 0 and discharged == obligations

    # ---- 2. bounded stand-in / counterexample search on the compiled code ------
    th.join()
    known = known_findings(pid)
    conc = dict(cases={}, failures=[], known_hit={})
    conc_note = ''
    if hb.get('none'):
        conc_note = 'no bounded part for this property'
    elif hb.get('rc') != 0:
        conc_note = 'harness did not build against this tree: ' + hb.get('log', '')[-600:]
    else:
        work = os.path.join(scratch, 'work')
        os.makedirs(work)
        out = os.path.join(scratch, 'report.json')
        kf = os.path.join(scratch, 'known')
        open(kf, 'w').write('\n'.join(k for k, _ in known))
        try:
            x = subprocess.run([os.path.join(scratch, 'cdxharness'), pid, tier, str(seed), os.path.join(scratch, 'cdxbin'), work, out, kf],
                               capture_output=True, text=True, timeout=600 if tier == 'quick' else 3600, cwd=work)
            conc_note = f'harness exit {x.returncode}'
            if os.path.exists(out):
                conc = json.load(open(out))
            elif x.returncode not in (0, 1, 3):
                conc_note += ' ' + x.stderr[-400:]
                if x.returncode < 0:
                    conc['failures'] = [dict(group='harness', input='(see replay)', detail=f'the code under test ended the process with signal {-x.returncode}: {x.stderr[-300:]}')]
        except subprocess.TimeoutExpired:
            conc_note = 'harness timed out (no verdict from the bounded part)'

    # ---- 3. verdict -------------------------------------------------------------
    n_conc = sum(conc.get('cases', {}).values())
    viol = 0
    lines = []
    for k, what in known:
        if conc.get('known_hit', {}).get(k):
            lines.append(f'KNOWN-FINDING: property={pid} {what} [{k}]')
    if conc['failures']:
        viol = len(conc['failures'])
        json.dump(dict(property=pid, kind='failing input on the real code', failures=conc['failures'],
                       failed_obligations=failed, lost=lost, toolgaps=gaps,
                       rerun=f'python3 tools/check.py {pid} --tier {tier}  (seed {seed})'), open(replay, 'w'), indent=1)
        f0 = conc['failures'][0]
        lines.append(f"  failing input [{f0['group']}]: {f0['input'][:600]}")
        lines.append(f"  observed: {f0['detail'][:600]}")
        for f in failed[:3]:
            lines.append(f"  failed obligation: {f['function']}: {f['message']}")
        lines.append(f'VIOLATION property={pid} replay={replay}')
    elif failed and not lost and not gaps:
        viol = len(failed)
        json.dump(dict(property=pid, kind='failed obligation, no failing input found', failed_obligations=failed,
                       searched=conc.get('cases', {}), note=conc_note), open(replay, 'w'), indent=1)
        for f in failed[:5]:
            lines.append(f"  failed obligation: {f['unit']}/{f['function']}: {f['message']}")
        lines.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
    elif not proved:
        lines.append(f'UNDECIDED-BY-PROOF property={pid}: ' + '; '.join(lost + gaps + [f"{f['function']}: {f['message']}" for f in failed])[:1500])
        lines.append(f'  bounded stand-in only: {n_conc} cases passed ({conc_note})')
    else:
        lines.append(f'PROVED property={pid}: {discharged} obligations over {sum(1 for f in funcs if f["has_body"])} functions; '
                     f'bounded part: {n_conc} cases' + ('' if hb.get('rc') == 0 or hb.get('none') else ' (' + conc_note + ')'))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'proof'),
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd='; '.join(cmds) or 'verus', trusted_base=trusted + cfg.get('trusted', []),
                  backend='Verus 0.2026.09.13 with its bundled Z3', smt_ms=smt_ms,
                  verdict=('violated' if viol else 'proved' if proved else 'undecided by proof, bounded stand-in passed'),
                  functions_under_contract=[f"{f['file']}::{f['path']} (source sha256/64 {f['sha']}, {f['loops']} loops, {f['contract_lines']} contract lines)" for f in funcs],
                  vacuity_probes=vac_n, extraction_drops=asm.DROPS, extraction_rewrites=subs,
                  inlined_helpers=sorted({h for f in funcs for h in f['inlined']}),
                  lost_anchors=lost, tool_limits=gaps,
                  failed_obligations=[f"{f['function']}: {f['message']}" for f in failed],
                  solver_time_per_function=per_func,
                  bounded=dict(label='bounded, not proved: enumeration on the compiled library and binary', what=cfg.get('bounded', ''),
                               cases=conc.get('cases', {}), total=n_conc, note=conc_note),
                  stability_reruns=vers),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(os.path.join(evdir, f'{pid}.json'), 'w'), indent=1)
    print('\n'.join(lines), flush=True)
    return 1 if viol else 0


def build_harness_safe(pid, scratch, res):
    try:
        build_harness(pid, scratch, res)
    except Exception as e:
        res['rc'] = -1
        res['log'] = repr(e)


if __name__ == '__main__':
    main()
