#!/usr/bin/env python3
"""Decides one property: check.py <ID>   (tier and seed from VERIF_TIER / VERIF_SEED)

1. Kani discharges the proof harnesses of the property (contracts on the real code of /repo).
2. The same contracts are executed on the real code (bounded part, labelled as such), which also gives failing inputs.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check could not run.
"""
import json, os, re, subprocess, sys, time, shutil, signal

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, TRUSTED_COMMON

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
START = time.time()
LIMIT = 780 if TIER == 'quick' else 6 * 3600

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
ENV.pop('RUSTFLAGS', None)
ENV.pop('CARGO_TARGET_DIR', None)


# --no-assertion-reach-checks: Kani's extra reachability query per assertion is off (it costs most of the time); vacuity is
# excluded by the explicit cover properties of every harness instead, which must all be satisfied.
KFLAGS = ['-Z', 'stubbing', '-Z', 'unstable-options', '--no-assertion-reach-checks']


def left(cap):
    return max(5, min(cap, LIMIT - (time.time() - START)))


class Proc:
    """A child process group with a log file and a deadline."""
    def __init__(self, cmd, cwd, log, cap):
        self.log = log
        self.f = open(log, 'w')
        self.p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        self.end = time.time() + left(cap)
        self.cmd = ' '.join(cmd)

    def wait(self):
        try:
            self.p.wait(max(1, self.end - time.time()))
            self.timeout = False
        except subprocess.TimeoutExpired:
            self.timeout = True
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.p.wait()
        self.f.close()
        self.out = open(self.log, errors='replace').read()
        return self.p.returncode


def parse_kani(text):
    """harness -> dict(checks, failed, unreachable, covers, covers_ok, fails=[(desc, file, line)], ok, time)"""
    res, cur, thread = {}, {}, None
    for line in text.splitlines():
        m = re.match(r'Thread (\d+): (.*)$', line)
        if m:
            thread = m.group(1)
            line = m.group(2)
        m = re.match(r'Checking harness (\S+?)\.\.\.$', line)
        if m:
            name = m.group(1)
            cur[thread] = name
            res[name] = dict(checks=0, failed=0, unreachable=0, covers=0, covers_ok=0, fails=[], ok=None, time=None, note='')
            continue
        h = res.get(cur.get(thread))
        if h is None: continue
        m = re.match(r'\s*\*\* (\d+) of (\d+) failed(?: \((.*)\))?', line)
        if m:
            h['failed'], h['checks'] = int(m.group(1)), int(m.group(2))
            n = re.search(r'(\d+) unreachable', m.group(3) or '')
            h['unreachable'] = int(n.group(1)) if n else 0
            n = re.search(r'(\d+) undetermined', m.group(3) or '')
            h['undetermined'] = int(n.group(1)) if n else 0
        m = re.match(r'\s*\*\* (\d+) of (\d+) cover properties satisfied', line)
        if m: h['covers_ok'], h['covers'] = int(m.group(1)), int(m.group(2))
        m = re.match(r'Failed Checks: (.*)$', line)
        if m: h['fails'].append([m.group(1).strip('"'), '', 0])
        m = re.match(r'\s*File: "(.*?)", line (\d+)', line)
        if m and h['fails']: h['fails'][-1][1:] = [m.group(1), int(m.group(2))]
        if 'VERIFICATION:- SUCCESSFUL' in line: h['ok'] = True
        if 'VERIFICATION:- FAILED' in line: h['ok'] = False
        if re.search(r'timed? ?out', line, re.I): h['note'] = 'timeout'
        m = re.match(r'Verification Time: ([\d.]+)', line)
        if m: h['time'] = float(m.group(1))
    return res


# Failures that say the verifier's model of the code is too weak (loop bounds, unsupported constructs, the byte-level memory
# model), not that the code breaks the property.
UNABLE = (r'unwinding assertion|recursion unwinding|not currently supported|unsupported|foreign function|is not supported|dereference failure|'
          r'pointer (NULL|invalid|outside)|memcmp|memcpy|memmove|same object violation|free argument|double free|dead object')


def classify(pid, h):
    """'ok', 'violation' or 'undecided' for one harness."""
    if h is None: return 'undecided', 'no result'
    if h['ok']:
        if h['covers_ok'] < h['covers']: return 'undecided', 'vacuous: a cover property is not reachable'
        if h['checks'] == 0: return 'undecided', 'no obligations'
        return 'ok', ''
    if h['ok'] is None: return 'undecided', h['note'] or 'no result'
    if not h['fails']: return 'undecided', h['note'] or 'failed without a failed check'
    bad = [f for f in h['fails'] if f[0].startswith('ENV') or re.search(UNABLE, f[0], re.I)]
    if bad: return 'undecided', bad[0][0]
    return 'violation', '; '.join('%s (%s:%s)' % tuple(f) for f in h['fails'][:4])


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f: f.write(data)


def known_findings(pid):
    out = []
    for line in open(os.path.join(V, 'KNOWN_FINDINGS')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$', line)
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    work = os.path.join(V, 'work', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    # --- start the proofs -------------------------------------------------------------------------
    harnesses = list(P.get('proof', [])) + (list(P.get('proof_thorough', [])) if TIER == 'thorough' else [])
    bounded = list(P.get('bounded', [])) + (list(P.get('bounded_thorough', [])) if TIER == 'thorough' else [])
    kani = None
    kcmd = None
    if harnesses or bounded:
        kcmd = ['cargo', 'kani'] + KFLAGS + [ '-j', str(P.get('jobs', 8)), '--output-format', 'terse',
                 '--harness-timeout', '%ds' % (P.get('harness_timeout', 400) if TIER == 'quick' else 3000), '--exact']
        for h in harnesses + bounded: kcmd += ['--harness', h]
    def prove(): return Proc(kcmd, os.path.join(V, 'kani'), os.path.join(work, 'kani.log'), 600 if TIER == 'quick' else 5 * 3600)
    if kcmd and not P.get('extract'): kani = prove()

    # --- bounded execution of the contracts on the real code ----------------------------------------
    b = Proc(['cargo', 'build', '--release', '--offline'], os.path.join(V, 'native'), os.path.join(work, 'build.log'), 400)
    if b.wait() != 0 or b.timeout:
        sys.stderr.write(b.out[-4000:])
        print('check %s: the native contracts do not build against /repo' % pid)
        sys.exit(2)
    if kcmd and P.get('extract'):
        # proofs about the assembled OS: its image is extracted from the real code first
        image = subprocess.run([os.path.join(V, 'native/target/release/lc3native'), 'os-image'], capture_output=True, text=True, timeout=60)
        path = os.path.join(V, 'kani/src/os_image.rs')
        if image.returncode == 0 and image.stdout:
            if open(path).read() != image.stdout: write(path, image.stdout)
            kani = prove()
    budget = P.get('budget', 10) if TIER == 'quick' else P.get('budget_thorough', 300)
    out = os.path.join(work, 'native.json')
    ncmd = [os.path.join(V, 'native/target/release/lc3native'), pid, '--seed', str(SEED), '--budget', str(budget), '--out', out]
    if TIER == 'thorough': ncmd.append('--thorough')
    n = Proc(ncmd, work, os.path.join(work, 'native.log'), budget * 3 + 200)
    rc = n.wait()
    native, nviol = None, None
    if os.path.exists(out):
        native = json.load(open(out))
        if native['violations']: nviol = native['violations'][0]
    elif rc < 0:
        nviol = dict(what='the process executing the real code died with signal %d' % -rc, input='seed %d: %s' % (SEED, ' '.join(ncmd)), case=-1)
    else:
        sys.stderr.write(n.out[-4000:])
        print('check %s: the native contracts did not run (exit %s)' % (pid, rc))
        sys.exit(2)

    # --- results of the proofs ----------------------------------------------------------------------
    results, obligations, discharged, solver, details, viols, undecided = {}, 0, 0, 0.0, [], [], []
    bdetails = []
    if kcmd:
        # a failing input has been found: only wait a little for the proofs
        if kani:
            if nviol: kani.end = min(kani.end, time.time() + 90)
            kani.wait()
            results = parse_kani(kani.out)
        for name in harnesses + bounded:
            h = results.get(name)
            st, why = classify(pid, h)
            d = dict(harness=name, status=st, **({k: h[k] for k in ('checks', 'failed', 'unreachable', 'covers', 'covers_ok', 'time')} if h else {}))
            if why: d['why'] = why
            if name in bounded:
                bdetails.append(d)
            else:
                details.append(d)
                # an undecided harness without a result still counts as one undischarged obligation
                obligations += max(1, h['checks'] if h else 0)
                if st == 'ok': discharged += h['checks']
                elif h: discharged += max(0, h['checks'] - max(1, h['failed'])) if h['ok'] is not None and st == 'violation' else 0
            solver += (h or {}).get('time') or 0.0
            if st == 'violation': viols.append((name, why))
            if st == 'undecided': undecided.append((name, why))

    # --- evidence -------------------------------------------------------------------------------------
    cov = {}
    if P['level'] == 'proof' or details:
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd='cd /verif/kani && ' + (' '.join(kcmd) if kcmd else ''),
                   trusted_base=TRUSTED_COMMON + P.get('trusted', []),
                   back_end='Kani 0.68.0 / CBMC 6 / CaDiCaL', solver_s=round(solver, 2),
                   functions_under_contract=P.get('functions', []),
                   harnesses=details)
    if bdetails: cov['bounded_harnesses'] = bdetails
    if undecided: cov['undecided'] = [dict(harness=a, why=w) for a, w in undecided]
    bounded_part = dict(evaluations=native['evaluations'], distinct_nontrivial=native['distinct_nontrivial'], rule=native['rule'],
                        samples=native['samples'], inner_steps=native['inner_steps'], exhausted=native['exhausted']) if native else {}
    if P['level'] == 'proof':
        cov['bounded_execution'] = dict(label='bounded: contracts executed on the real code, not counted as proved', **bounded_part)
    else:
        cov.update(bounded_part)
        if native and native['exhausted'] and P.get('exhaustive'): cov['exhaustive'] = True
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P['level'], coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - START, 2),
              violations=(1 if nviol else 0) + len(viols))
    write(os.path.join(V, 'evidence', pid + '.json'), json.dumps(ev, indent=1) + '\n')

    # --- verdict ----------------------------------------------------------------------------------------
    listed = known_findings(pid)
    shown = set(native['known']) if native else set()
    for key, what in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, what) + ('' if key in shown else ' (not reproduced by this run)'))
    unlisted = sorted(k for k in shown if k not in {k for k, _ in listed})
    if unlisted and not nviol: nviol = dict(what='finding not listed in KNOWN_FINDINGS: ' + unlisted[0], input=unlisted[0], case=-1)
    replay = os.path.join(V, 'evidence', 'replay', pid + '.json')
    if nviol:
        write(replay, json.dumps(dict(property=pid, what=nviol['what'], input=nviol['input'], case=nviol['case'], seed=SEED,
            rerun='%s --case %s' % (' '.join(ncmd[:-2] if TIER == 'quick' else ncmd), nviol['case']),
            failed_obligations=[dict(harness=a, why=w) for a, w in viols]), indent=1) + '\n')
        print('%s: %s\n  input: %s' % (pid, nviol['what'][:1500], nviol['input'][:1500]))
        for a, w in viols: print('  failed obligation: %s: %s' % (a, w))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    if viols:
        name, why = viols[0]
        playback = ''
        if LIMIT - (time.time() - START) > 60:
            p = Proc(['cargo', 'kani'] + KFLAGS + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', name],
                     os.path.join(V, 'kani'), os.path.join(work, 'playback.log'), 240)
            p.wait()
            i = p.out.find('Concrete playback')
            playback = p.out[i:i + 20000] if i >= 0 else ''
        write(replay, json.dumps(dict(property=pid, failed_obligations=[dict(harness=a, why=w) for a, w in viols],
            verifier_counterexample=playback, verifier_output=kani.out[-20000:],
            rerun='cd /verif/kani && cargo kani %s --exact --harness %s' % (' '.join(KFLAGS), name)), indent=1) + '\n')
        for a, w in viols: print('%s: failed obligation: %s: %s' % (pid, a, w))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        sys.exit(1)
    for a, w in undecided: print('UNDECIDED %s %s: %s (bounded evidence only)' % (pid, a, w))
    print('%s held: %d/%d obligations discharged, %s bounded cases' % (pid, discharged, obligations, native['evaluations'] if native else 0))
    sys.exit(0)


if __name__ == '__main__':
    main()
