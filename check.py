#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. extract /repo's source into one Verus file together with the contracts,
2. let Verus discharge every obligation; functions that cannot be brought
   before the verifier on this tree (an anchor is gone, an unsupported construct
   appeared, a callee without contract) keep their contract as an assumption
   and are covered by 3 alone: bounded, and counted as such,
3. run the bounded check (the compiled code of /repo against the reference),
   which also looks for an input that shows a failed obligation."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
import extract                                             # noqa: E402

REPO = os.environ.get('VX_REPO', '/repo')
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
START = time.time()
DEADLINE = START + (840 if TIER == 'quick' else 3600)
ENV = dict(os.environ, HOME=os.environ.get('HOME', '/root'), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='')
ENV['PATH'] = ENV.get('PATH', '') + ':/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin'
ENV.pop('CARGO_TARGET_DIR', None)

PROOF_ERRORS = [
    'postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
    'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
    'could not prove termination', 'possible bit shift underflow/overflow', 'type invariant', 'unreached',
    'constructed value may fail to meet its declared', 'split precondition failure', 'split postcondition failure',
    'split assertion failure', 'loop invariant', 'cannot show', 'failed this', 'requires not satisfied', 'ensures not satisfied',
    'default_ensures', 'loop ensures not satisfied', 'termination', 'invariant is not', 'might not', 'could not', 'unable to prove',
]
LIMIT_ERRORS = ['Resource limit (rlimit) exceeded', 'rlimit', 'timed out', 'canceled']


def say(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=kw.pop('env', ENV), **kw)


# ------------------------------------------------------------------ the proof

class Proof:
    def __init__(self, work):
        self.work = work
        self.disabled = {}          # function -> (level, reason)
        self.without = set()        # functions whose helpers are not written out
        self.problem = None         # the verifier could not be used at all
        self.failed = {}            # function -> [diagnostic text]
        self.limits = {}
        self.spec_failures = []
        self.emit = None
        self.verified = 0
        self.errors = 0
        self.times = {}
        self.solver_ms = 0
        self.functions = []
        self.cmd = ''
        self.runs = 0
        self.raw = ''

    def owner(self, line):
        best = None
        for a, b, k in self.emit.map:
            if a <= line < b and (best is None or a > best[0]):
                best = (a, k)
        return best[1] if best else None

    def once(self, rlimit, extra=()):
        dis = {k: v for k, v in self.disabled.items()}
        self.emit = extract.build(REPO, os.path.join(HERE, 'contracts'), dis, without=self.without)
        src = os.path.join(self.work, 'lunify.rs')
        open(src, 'w').write(''.join(self.emit.out))
        cmd = ['verus', src, '--crate-type', 'lib', '--crate-name', 'lunify_vx', '--triggers-mode', 'silent', '--multiple-errors', '5',
               '--rlimit', str(rlimit), '--output-json', '--time-expanded', '--num-threads', '8', '--error-format=json', *extra]
        self.cmd = ' '.join(cmd).replace(self.work + '/', '')
        self.runs += 1
        try:
            r = run(cmd, cwd=self.work, timeout=max(60, min(600, DEADLINE - time.time() - 60)))
        except subprocess.TimeoutExpired:
            self.problem = 'the verifier did not finish in time'
            return None, []
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = None
        diags = []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        self.raw = r.stderr
        return j, diags

    def run(self, rlimit=30):
        for attempt in range(25):
            if time.time() > DEADLINE - 200:
                self.problem = 'out of time'
                return
            try:
                j, diags = self.once(rlimit)
            except extract.ExpandError as e:
                raise
            except Exception as e:
                self.problem = f'extraction failed: {type(e).__name__}: {e}'
                return
            if self.problem:
                return
            self.failed, self.limits, self.spec_failures = {}, {}, []
            hard = {}
            loose = []
            for d in diags:
                if d.get('level') != 'error':
                    continue
                m = d['message']
                if m.startswith('aborting due to') or not d.get('spans') and 'verification results' in m:
                    continue
                prim = [s for s in d['spans'] if s['is_primary']] + [s for s in d['spans'] if not s['is_primary']]
                prim += [s for c in d.get('children', []) for s in c.get('spans', [])]
                keys = [self.owner(s['line_start']) for s in prim if s['file_name'].endswith('lunify.rs')]
                keys = [k for k in keys if k]
                code_keys = [k for k in keys if not k.startswith('spec:')]
                text = d.get('rendered') or m
                if any(x in m for x in LIMIT_ERRORS):
                    (self.limits.setdefault(code_keys[0], []).append(text) if code_keys else self.spec_failures.append(text))
                elif any(x in m for x in PROOF_ERRORS) and not d.get('code'):
                    # the body that failed: the function of the primary span; the
                    # clauses of traits have no body of their own
                    ks = [k for k in code_keys if k in self.emit.bodies] or code_keys
                    if ks and (not keys or not keys[0].startswith('spec:') or True):
                        if keys and keys[0].startswith('spec:') and not any(k in self.emit.bodies for k in code_keys):
                            self.spec_failures.append(text)
                        else:
                            self.failed.setdefault(ks[0], []).append(text)
                    else:
                        self.spec_failures.append(text)
                else:
                    if code_keys:
                        hard.setdefault(code_keys[0], []).append(m)
                    else:
                        loose.append(text)
            if hard:
                progress = False
                for k, ms in hard.items():
                    lvl = self.disabled.get(k, (0, ''))[0]
                    if k in self.emit.inlined and k not in self.without:
                        self.without.add(k)
                        progress = True
                    elif lvl < 2:
                        self.disabled[k] = (lvl + 1, ms[0][:300])
                        progress = True
                if progress:
                    continue
                self.problem = 'the verifier rejects the extracted text: ' + json.dumps({k: v[0] for k, v in hard.items()})[:800]
                return
            if loose or j is None or 'verification-results' not in j or j['verification-results'].get('encountered-vir-error'):
                self.problem = 'the verifier cannot be used on this tree: ' + (loose[0] if loose else self.raw[-1500:])[:1500]
                return
            res = j['verification-results']
            self.verified, self.errors = res['verified'], res['errors']
            self.times = j['times-ms']
            self.solver_ms = self.times['smt']['smt-run']
            self.functions = [dict(f, module=m['module']) for m in self.times['smt']['smt-run-module-times'] for f in m['function-breakdown']]
            if (self.limits or self.spec_failures) and rlimit < 200:
                rlimit *= 5
                continue
            return
        self.problem = 'the verifier rejects too many functions'


# ------------------------------------------------------------------ what Kani decides

class Kani(threading.Thread):
    """The number conversions of /repo and the functions of the standard library
    behind the wrappers, each over its full domain."""

    def __init__(self, work):
        super().__init__()
        self.work = work
        self.problem = None
        self.failed = {}            # harness -> output
        self.harnesses = self.checks = 0
        self.values = []
        self.secs = 0
        self.cmd = 'cargo kani --output-format terse -j 4'

    def kani(self, *extra):
        e = dict(ENV, CARGO_NET_OFFLINE='true')
        return run(['timeout', '400', 'cargo', 'kani', '--target-dir', os.path.join(self.work, 'kani_target'), '--output-format', 'terse', *extra], cwd=self.src, env=e)

    def run(self):
        t = time.time()
        try:
            self.decide()
        except Exception as e:
            self.problem = f'{type(e).__name__}: {e}'
        self.secs = time.time() - t

    def decide(self):
        self.src = os.path.join(self.work, 'kani')
        shutil.copytree(os.path.join(HERE, 'kani'), self.src)
        p = self.src + '/src/lib.rs'
        t = open(p).read()
        open(p, 'w').write(t.replace('"/repo/', f'"{REPO}/'))
        r = self.kani('-j', '4')
        m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', r.stdout)
        if not m:
            self.problem = 'Kani gave no answer: ' + (r.stdout + r.stderr)[-600:]
            return
        self.harnesses = int(m.group(1)) + int(m.group(2))
        self.checks = sum(int(x) for x in re.findall(r'of (\d+) failed', r.stdout))
        for h in re.findall(r'Verification failed for - harness::(\w+)', r.stdout):
            x = self.kani('--harness', 'harness::' + h, '-Z', 'concrete-playback', '--concrete-playback=print')
            self.failed[h] = x.stdout[max(0, x.stdout.find('VERIFICATION RESULT')):][-3000:]
            for v in re.findall(r'vec!\[((?:\d+(?:, )?){8})\]', x.stdout):
                self.values.append(int.from_bytes(bytes(int(b) for b in v.split(', ')), 'little'))


# ------------------------------------------------------------------ the extraction

class Extraction(threading.Thread):
    """Compile the extracted text, link it with the program of the bounded check
    in place of the crate, and compare what both do with the same cases."""

    def __init__(self, work, text):
        super().__init__()
        self.dir = os.path.join(work, 'extracted')
        os.makedirs(self.dir)
        open(os.path.join(self.dir, 'lunify.rs'), 'w').write(text)
        self.problem = None
        self.bin = None
        self.compared = 0
        self.differs = None
        self.count = 250 if TIER == 'quick' else 3000

    def run(self):
        try:
            self.build()
        except Exception as e:
            self.problem = f'{type(e).__name__}: {e}'

    def build(self):
        home = os.path.dirname(os.path.realpath(shutil.which('verus', path=ENV['PATH'])))
        r = run(['verus', '--version'], cwd=self.dir)
        chain = re.search(r'Toolchain: (\S+?)-x86_64', r.stdout).group(1)
        r = run(['timeout', '300', 'verus', 'lunify.rs', '--crate-type', 'lib', '--crate-name', 'lunify', '--compile', '--no-verify', '-o', 'liblunify.rlib',
                 '-C', 'opt-level=2', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on'], cwd=self.dir)
        if r.returncode:
            self.problem = 'the extracted text does not compile: ' + r.stderr[-400:]
            return
        if not os.path.exists(os.path.join(home, 'libvstd.rlib')):
            home = '/opt/veriftools/verus'
        out = os.path.join(self.dir, 'oracle')
        r = run(['rustc', '+' + chain, '--edition', '2021', '-O', '-C', 'overflow-checks=on', '--crate-name', 'oracle', os.path.join(HERE, 'oracle/src/main.rs'),
                 '--extern', 'lunify=' + os.path.join(self.dir, 'liblunify.rlib'), '-L', home, '-o', out], cwd=self.dir)
        if r.returncode:
            self.problem = 'the extracted text does not link: ' + r.stderr[-400:]
            return
        self.bin = out

    def compare(self, real):
        if not self.bin:
            return
        texts = []
        kids = []
        for i, b in enumerate((real, self.bin)):
            f = os.path.join(self.dir, f'out{i}')
            kids.append((f, subprocess.Popen(['sh', '-c', 'ulimit -v 8000000; exec timeout 120 "$@"', '-', b, 'outcomes', str(SEED), str(self.count)],
                                             stdout=open(f, 'w'), stderr=subprocess.DEVNULL, env=ENV)))
        for f, k in kids:
            k.wait()
            texts.append([l for l in open(f).read().split('\n')[:-1]])
        for a, b in zip(*texts):
            if a != b:
                self.differs = f'{a} / {b}'
                return
            self.compared += 1


# ------------------------------------------------------------------ the bounded check

class Oracle:
    def __init__(self, work):
        self.work = work
        self.target = os.path.join(HERE, '.build', 'oracle')
        self.bin = os.path.join(self.target, 'debug', 'oracle')
        self.stats = {}

    def build(self):
        src = os.path.join(HERE, 'oracle')
        if REPO != '/repo':
            src = os.path.join(self.work, 'oracle')
            if not os.path.exists(src):
                shutil.copytree(os.path.join(HERE, 'oracle'), src)
                t = open(src + '/Cargo.toml').read()
                open(src + '/Cargo.toml', 'w').write(t.replace('"/repo"', f'"{REPO}"'))
            self.target = os.path.join(self.work, 'target')
            self.bin = os.path.join(self.target, 'debug', 'oracle')
        r = run(['cargo', 'build', '--offline', '--quiet'], cwd=src, env=dict(ENV, CARGO_TARGET_DIR=self.target))
        if r.returncode != 0:
            say('the bounded check does not build:', r.stderr[-3000:])
            sys.exit(2)

    def search(self, prop, secs, seed=None):
        out = os.path.join(self.work, f'case.{prop}')
        r = run([self.bin, 'search', prop, str(SEED if seed is None else seed), str(secs), out], env=dict(ENV, TMPDIR=self.work))
        m = re.search(r'evaluations=(\d+) distinct=(\d+) convertible=(\d+) enumerated=(\d+)', r.stdout)
        if m and prop == PROP:
            for k, v in zip(('evaluations', 'distinct', 'convertible', 'enumerated'), map(int, m.groups())):
                self.stats[k] = v if k == 'enumerated' else self.stats.get(k, 0) + v
        if r.returncode == 1 and os.path.exists(out):
            text = open(out).read()
            # a violation counts once it shows again on its own, with the memory
            # that the search had
            c = run(['sh', '-c', 'ulimit -v 4000000; exec timeout 60 "$@"', '-', self.bin, 'replay', out, prop])
            if c.returncode == 0:
                say('a failing case that did not repeat is left out:', text[:2000])
                return None
            return text
        if r.returncode != 0:
            say('the bounded check failed:', r.stdout[-1500:], r.stderr[-1500:])
            sys.exit(2)
        return None

    def samples(self):
        return [l[:600] for l in run([self.bin, 'samples', PROP, str(SEED)]).stdout.splitlines() if l][:4] or ['(none shorter than 400 bytes)']


def main():
    work = tempfile.mkdtemp(prefix='vx.')
    try:
        return check(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def classify(proof, cfg):
    """Functions that the verifier does not decide on this tree, and those with
    failed obligations."""
    e = proof.emit
    bounded = {}
    alarms = {}
    if proof.problem is not None:
        return bounded, alarms
    for k, why in e.lost.items():
        bounded[k] = 'not extracted: ' + why
    for k, (lvl, why) in proof.disabled.items():
        bounded[k] = 'rejected by the verifier: ' + why
    for k in e.nospec:
        if k not in e.gone:
            bounded[k] = 'no contract'
    for k, s in e.c.fns.items():
        if k not in e.found and not s.optional:
            bounded[k] = 'contract without a function'
        elif s.trusted and not s.trusted.startswith('kani'):
            bounded[k] = 'trusted: ' + s.trusted
    for k in proof.limits:
        bounded[k] = 'the solver gave up'
    new = {k.split('::')[-1] for k in e.nospec if k not in cfg['functions'] and k not in e.gone}
    gone = any(v == 'contract without a function' for v in bounded.values())
    nocontract = {k.split('::')[-1] for k, (lvl, _) in proof.disabled.items() if lvl >= 2}
    for k, texts in proof.failed.items():
        shape = cfg['functions'].get(k)
        why = None
        if shape is None:
            why = 'a function that is not in the record of the contracts'
        elif e.idents.get(k, set()) & (new | nocontract):
            why = 'calls a function without contract: ' + ', '.join(sorted(e.idents[k] & (new | nocontract)))
        elif k in e.inlined:
            why = 'functions without contract are written out in it: ' + ', '.join(sorted(set(e.inlined[k])))
        elif k in e.weak:
            why = 'a hint of its proof has no place anymore: ' + e.weak[k]
        elif shape['loops'] != e.loops.get(k, []):
            why = f'its loops changed from {shape["loops"]} to {e.loops.get(k, [])}'
        if why:
            bounded[k] = 'not proved, ' + why
        else:
            alarms[k] = texts
    return bounded, alarms


def check(work):
    cfg = json.load(open(os.path.join(HERE, 'contracts', 'shape.json')))
    proof = Proof(work)
    oracle = Oracle(work)
    kani = Kani(work) if PROP in KANI_PROPS else None
    if kani:
        kani.start()
    try:
        text = ''
        try:
            text = ''.join(extract.build(REPO, os.path.join(HERE, 'contracts'), {}, compiled=True).out)
        except extract.ExpandError:
            raise
        except Exception:
            pass                    # proof.run() reports it
        same_text = Extraction(work, text)
        same_text.start()
        proof.run()
    except extract.ExpandError as e:
        say('/repo does not compile:', e)
        return 2
    if kani:
        kani.join()
        if kani.values:
            ENV['VX_HINTS'] = ','.join(map(str, kani.values))
    t_proof = time.time() - START
    e = proof.emit
    replay_dir = os.path.join(HERE, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join('replay', f'{PROP}.txt')
    if os.path.exists(os.path.join(HERE, replay)):
        os.remove(os.path.join(HERE, replay))
    oracle.build()
    same_text.join()
    same_text.compare(oracle.bin)
    if same_text.differs:
        if proof.problem is None and proof.emit.digest() == cfg['digest']:
            say('the extracted text does not do what the code does:', same_text.differs)
            return 2
        proof.problem = proof.problem or 'the extracted text does not do what the code does: ' + same_text.differs

    bounded, alarms = classify(proof, cfg)
    mine = {k: t for k, t in alarms.items() if PROP in e.c.fns[k].props} if proof.problem is None else {}
    if kani and kani.problem:
        bounded[KANI_KEYS[0]] = bounded[KANI_KEYS[1]] = kani.problem
    for h, text in (kani.failed if kani else {}).items():
        if h not in KANI_OF:
            say('the contract of a wrapper around the standard library does not hold:', h, text)
            return 2
        mine.setdefault(KANI_OF[h], []).append(f'Kani: {h} fails\n{text}')
    same = e is not None and proof.problem is None and e.digest() == cfg['digest']
    if proof.problem is None and same and (proof.spec_failures or alarms or proof.limits):
        say('the proof machinery fails on its own:', *(proof.spec_failures or [t for v in [*alarms.values(), *proof.limits.values()] for t in v])[:3])
        return 2
    if proof.problem is None and proof.spec_failures:
        # the lemmas are about the types of the code, so a change of a type can
        # take their proofs away: nothing is proved then
        proof.problem = 'lemmas fail on this tree: ' + proof.spec_failures[0][:1000]
        mine = {k: t for k, t in mine.items() if kani and k in KANI_KEYS}

    quick = 12 if TIER == 'quick' else 240
    degraded = proof.problem or any(PROP in (e.c.fns[k].props if k in e.c.fns else [PROP]) for k in bounded if not bounded[k].startswith(('trusted', 'no contract')) or k not in cfg['functions'])
    secs = quick if not (mine or alarms or degraded) else max(60, quick)
    known = []
    found = oracle.search(PROP, secs)
    if not found and mine:
        found = oracle.search(PROP, 60, SEED + 1000)
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\w+) check=(\S+) (.*)', line)
        if m and m.group(1) == PROP:
            r = run([oracle.bin, 'known', m.group(2)])
            if r.returncode == 1:
                say(f'KNOWN-FINDING: property={PROP} {m.group(3)}')
                known.append(m.group(3))
            elif r.returncode != 0:
                say('the known finding cannot be replayed:', r.stdout, r.stderr)
                return 2
    rc = 0
    verdict = 'held on everything explored'
    if found:
        head = ''
        if mine or alarms:
            mine = mine or alarms       # of functions that this property was not expected to depend on
            head = '# failed obligations\n' + '\n'.join(f'# {k}\n' + '\n'.join('#   ' + l for t in ts for l in t.split('\n')) for k, ts in mine.items()) + '\n'
        open(os.path.join(HERE, replay), 'w').write(found + '\n' + head)
        names = ', '.join(mine) or 'no failed obligation: found by the bounded check alone'
        say(f'failed obligations in: {names}')
        say([l for l in found.split('\n') if l.startswith('explanation=')][:1])
        say(f'replay with: .build/oracle/debug/oracle replay {replay} {PROP}')
        say(f'VIOLATION property={PROP} replay={replay}')
        rc, verdict = 1, 'violated, with a failing input'
    elif mine:
        # explained by a failure of another property that these functions serve?
        others = sorted({p for k in mine for p in (e.c.fns[k].props if k in e.c.fns else []) if p != PROP})
        culprit = None
        for p in others:
            if time.time() > DEADLINE - 120:
                break
            if oracle.search(p, 15):
                culprit = p
                break
        if culprit:
            say(f'obligations of {", ".join(mine)} fail, and an input shows that {culprit} is broken; none shows it for {PROP}')
            verdict = f'obligations fail because of {culprit}; no failing input for this property'
        else:
            text = f'property={PROP}\nno failing input found\n' + ''.join(f'\nfailed obligation in {k}\n' + '\n'.join(ts) for k, ts in mine.items())
            open(os.path.join(HERE, replay), 'w').write(text)
            for k, ts in mine.items():
                say(f'failed obligation in {k}:', ts[0].split('\n')[0])
            say(f'VIOLATION property={PROP} replay={replay} no-failing-input-found')
            rc, verdict = 1, 'violated, no failing input found'
    evidence(proof, oracle, kani, same_text, bounded, alarms, mine, known, verdict, t_proof, cfg)
    if proof.problem:
        say('not proved on this tree:', proof.problem)
    for k, w in bounded.items():
        if k not in cfg['functions'] or not w.startswith(('trusted', 'no contract')):
            say(f'bounded only: {k} ({w})')
    say(f'{PROP}: {verdict}; {proof.verified} proof tasks discharged, {oracle.stats.get("evaluations", 0)} evaluations, {time.time() - START:.0f} s')
    return rc


def evidence(proof, oracle, kani, same_text, bounded, alarms, mine, known, verdict, t_proof, cfg):
    e = proof.emit
    level = cfg['levels'].get(PROP, 'exploration')
    if level == 'proof' and proof.problem:
        level = 'exploration'
    under, trusted, mine_bounded = [], [], {}
    tasks = done = 0
    ms = 0
    if e is not None and proof.problem is None:
        def of(k):
            return k in e.c.fns and PROP in e.c.fns[k].props
        under = sorted(k for k, s in e.c.fns.items() if of(k) and k in e.found and k not in bounded and not s.trusted)
        mine_bounded = {k: w for k, w in bounded.items() if of(k) or k not in e.c.fns}
        trusted = sorted(f'{k}: {s.trusted}' for k, s in e.c.fns.items() if s.trusted)
        tasks = len(proof.functions) + (kani.harnesses if kani else 0)
        done = sum(1 for f in proof.functions if f['success']) + (kani.harnesses - len(kani.failed) if kani else 0)
        ms = sum(f['time-micros'] for f in proof.functions) // 1000
    cov = {
        'explanation': 'Contracts on the functions of /repo, extracted mechanically from its current source and discharged by Verus function by function; '
                       'what the verifier does not decide is covered by the bounded check, which runs the compiled code against a reference.',
        'verdict': verdict,
        'obligations': tasks,
        'discharged': done,
        'obligations_note': 'proof tasks the verifier generated for the whole crate and its lemmas on this run (one per function body, loop nest or lemma), and the harnesses of Kani',
        'checker_cmd': proof.cmd,
        'back_end': 'Verus 0.2026.09.13 with its bundled Z3',
        'solver_ms': ms,
        'verifier_runs': proof.runs,
        'proof_wall_s': round(t_proof, 1),
        'functions_under_contract': under,
        'functions_bounded': mine_bounded,
        'written_out_in_callers': e.inlined if e else {},
        'failed_obligations': {k: [x.split('\n')[0] for x in t] for k, t in alarms.items()},
        'extraction': {'dropped': extract.DROPPED, 'rewrites': {k: {'count': e.counts[k], 'what': w} for k, w in extract.REWRITES.items()},
                       'compared': {'cases': same_text.compared, 'differs': same_text.differs or '', 'not_compared_because': same_text.problem or '',
                                    'what': 'the extracted text, compiled and linked with the program of the bounded check, against the crate on the same cases (bounded)'}} if e else {},
        'trusted_base': TRUSTED + trusted,
        'unproved_because': proof.problem or '',
        'kani': 'not run for this property' if not kani else {'command': kani.cmd, 'harnesses': kani.harnesses, 'checks': kani.checks, 'failed': sorted(kani.failed),
                 'functions': KANI_KEYS, 'problem': kani.problem or '', 'wall_s': round(kani.secs, 1), 'note': 'no loops and no bound: every harness covers the full domain of its function'},
        'evaluations': oracle.stats.get('evaluations', 0),
        'distinct_nontrivial': oracle.stats.get('convertible', 0),
        'rule': 'generated, mutated and enumerated chunks with random formats and settings (see oracle/src/gen.rs); counted as non-trivial: distinct cases that '
                'the reference converts successfully',
        'samples': oracle.samples(),
        'known_findings': known,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', PROP + '.json'), 'w') as f:
        json.dump({'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - START, 1)}, f, indent=1)


KANI_PROPS = ('C01', 'C05', 'C17')
KANI_KEYS = ['number::Number::as_integer', 'number::Number::as_float']
KANI_OF = {'integer_as_integer': KANI_KEYS[0], 'float_as_integer': KANI_KEYS[0], 'float_as_float': KANI_KEYS[1], 'integer_as_float': KANI_KEYS[1]}

TRUSTED = [
    'Verus, vstd, Z3 and rustc',
    'the extraction (vx/extract.py, vx/rust.py) keeps the meaning of the functions; its rewrites are listed above',
    'usize is 64 bits wide',
    'the wrappers and axioms of contracts/00_prelude.rs (std byte conversions, float operations, string building)',
    'derived PartialEq of Copy types is structural equality',
]


if __name__ == '__main__':
    sys.exit(main())
