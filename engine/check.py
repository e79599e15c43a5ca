"""Driver: builds the IR of /repo's current sources and the harness, explores the cases of
a property in parallel, replays counterexamples natively, writes the evidence file."""
import json
import math
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VS_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
CLANG = ['clang++', '-std=gnu++17', '-DNDEBUG', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-ffp-contract=off', '-w', '-S', '-emit-llvm', '-DVS_SYM']
NATIVE = ['g++', '-std=gnu++17', '-O1', '-w', '-ffp-contract=off']


class BuildError(Exception):
    pass


BUILDS = []


def lib_sources():
    return sorted(glob.glob(REPO + '/iir/*.cpp'))


def run_all(cmds):
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
    for p, c in zip(ps, cmds):
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(' '.join(c) + '\n' + out.decode('utf8', 'replace')[-3000:])


class Build:
    """scratch build of the library and one harness in one configuration"""

    def __init__(self, work, harness, opt='-O1', defs=(), pre=()):
        self.work = work
        self.harness = harness
        self.opt = opt
        self.defs = ['-D' + d for d in defs]
        self.native = {}
        self.bg = None
        self.prog = None

    def ir_cmds(self, d):
        srcs = lib_sources() + [VERIF + '/harness/' + self.harness]
        cmds = []
        outs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.ll')
            outs.append(o)
            cmds.append(CLANG + [self.opt] + self.defs + ['-I' + REPO, '-I' + VERIF + '/harness', s, '-o', o])
        return cmds, outs

    def load(self):
        from engine.symex import Program
        d = tempfile.mkdtemp(dir=self.work)
        cmds, outs = self.ir_cmds(d)
        run_all(cmds)
        allf = os.path.join(d, 'all.ll')
        run_all([['llvm-link', '-S', '-o', allf] + outs])
        with open(allf) as f:
            txt = f.read()
        self.prog = Program(txt)
        self.ir_lines = txt.count('\n')
        shutil.rmtree(d)
        return self.prog

    def nat(self, kind='plain'):
        exe = self.native.get(kind)
        if exe:
            return exe
        if kind == 'plain' and self.bg:
            pid, d, exe = self.bg
            self.bg = None
            _, st = os.waitpid(pid, 0)
            if st == 0 and os.path.exists(exe):
                self.native[kind] = exe
                return exe
        d = tempfile.mkdtemp(dir=self.work)
        exe = os.path.join(d, 'replay_' + kind)
        self.compile_native(kind, d, exe)
        self.native[kind] = exe
        return exe

    def start_native(self):
        """the plain native build runs beside the exploration"""
        d = tempfile.mkdtemp(dir=self.work)
        exe = os.path.join(d, 'replay_plain')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                self.compile_native('plain', d, exe)
                os._exit(0)
            except BaseException:
                os._exit(1)
        self.bg = (pid, d, exe)

    def compile_native(self, kind, d, exe):
        flags = list(NATIVE)
        if kind == 'asan':
            flags = ['g++', '-std=gnu++17', '-O1', '-g', '-w', '-ffp-contract=off', '-fsanitize=address,undefined',
                     '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DVS_NO_NEW']
        elif kind == 'msan':
            flags = ['clang++', '-std=gnu++17', '-O1', '-g', '-w', '-ffp-contract=off', '-fsanitize=memory',
                     '-fno-sanitize-recover=all', '-DVS_NO_NEW', '-DVS_MSAN']
        elif kind == 'valgrind':
            flags = ['g++', '-std=gnu++17', '-O0', '-g', '-w', '-ffp-contract=off', '-DVS_NO_NEW']
        srcs = lib_sources() + [VERIF + '/harness/' + self.harness, VERIF + '/harness/vs_native.cpp']
        objs = []
        cmds = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            cmds.append(flags + self.defs + ['-I' + REPO, '-I' + VERIF + '/harness', '-c', s, '-o', o])
        run_all(cmds)
        run_all([flags + ['-rdynamic'] + objs + ['-o', exe, '-ldl']])


def fmtv(v):
    if v != v:
        u = struct.unpack('<Q', struct.pack('<d', v))[0]
        return 'nan' if u == 0x7ff8 << 48 else '%snan(0x%x)' % ('-' if u >> 63 else '', u & ((1 << 51) - 1))
    return repr(float(v)) if abs(v) != math.inf else ('inf' if v > 0 else '-inf')


def replay(build, case, vals, kind='plain', verbose=False, timeout=60):
    """native run; returns (exit code, output, set of failed labels)"""
    exe = build.nat(kind)
    d = tempfile.mkdtemp(dir=build.work)
    vf = os.path.join(d, 'values')
    write_values(vf, case, vals)
    cmd = [exe, case['fn'], vf] + (['-v'] if verbose else [])
    if kind == 'valgrind':
        cmd = ['valgrind', '-q', '--error-exitcode=77'] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 99, 'timeout'
    shutil.rmtree(d)
    labels = set(m.group(1) for m in re.finditer(r'^FAIL ([^:\n]*)', out, re.M))
    return rc, out, labels


def write_values(path, case, vals):
    with open(path, 'w') as f:
        if case.get('domain') == 'F' and not case.get('loose'):
            f.write('vs_tight 1\n')     # claims of identity: only rounding of the last places is tolerated
        for k, v in case.get('params', {}).items():
            f.write('%s %s\n' % (k, fmtv(v)))
        for k, v in vals:
            f.write('%s %s\n' % (k, fmtv(v)))


# ---------------------------------------------------------------- parallel exploration
def worker(prog, case, seed, limit, fd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from engine.explore import explore
    t0 = time.time()
    try:
        r = explore(prog, case, seed + (1 if case.get('retried') else 0), t0 + limit)
    except MemoryError:
        r = dict(id=case['id'], dead='out of memory')
    except BaseException as e:
        import traceback
        r = dict(id=case['id'], dead='engine error: ' + traceback.format_exc()[-1500:])
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(r, f)
    os._exit(0)


def run_cases(jobs, seed, workers, deadline):
    """jobs: list of (prog, case). yields (case, result)"""
    pending = list(jobs)
    running = {}
    out = []
    while pending or running:
        while pending and len(running) < workers:
            prog, case = pending.pop(0)
            left = deadline - time.time()
            if left < 1:
                out.append((case, dict(id=case['id'], dead='time budget of the check')))
                continue
            limit = min(case.get('limit', 60), left)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for q in running:
                    try:
                        os.close(q)
                    except OSError:
                        pass
                worker(prog, case, seed, limit, w)
            os.close(w)
            running[r] = (pid, case, time.time() + limit * 1.5 + 5, bytearray())
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rd:
            pid, case, _, buf = running[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                out.append((case, pickle.loads(bytes(buf))))
            except Exception:
                if case.get('retried'):
                    out.append((case, dict(id=case['id'], dead='worker died')))
                else:
                    # a crash inside the solver library: once more with another seed
                    pr = next(p for p, c in jobs if c['id'] == case['id'])
                    pending.insert(0, (pr, dict(case, retried=True)))
        now = time.time()
        for fd in list(running):
            pid, case, end, buf = running[fd]
            if now > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                out.append((case, dict(id=case['id'], dead='hard time limit')))
    return out


def load_known():
    known = []
    fixed = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) case=(\S+) label=(\S+) (.*)', ln)
            if m:
                known.append((m.group(1), re.compile(m.group(2) + '$'), re.compile(m.group(3) + '$'), m.group(4)))
    return known


def san_fail(rc, out):
    return 'ERROR: AddressSanitizer' in out or 'runtime error:' in out or 'MemorySanitizer' in out or rc == 77 or \
        'Assertion' in out or rc in (-6, -11, 134, 139) or 'terminate called' in out


def confirm(build, case, label, vlist, mem=False):
    """first candidate whose native run violates the property; returns (vals, output, kind) or None"""
    for vals in vlist[:6]:
        rc, out, labels = replay(build, case, vals)
        if rc in (3, 4) and not labels:
            continue
        if label is None:
            if labels or rc in (-6, -11, -8, 134, 139):
                return vals, out, 'plain'
        elif label in labels:
            return vals, out, 'plain'
        elif labels and label is not None:
            # another obligation of the same case fails on this input: just as much a violation
            return vals, out, 'plain'
        if rc in (-6, -11, -8) and not case.get('abort_ok'):
            return vals, out, 'plain'
    if mem:
        for kind in ('asan', 'valgrind'):
            for vals in vlist[:2]:
                rc, out, labels = replay(build, case, vals, kind)
                if rc == 4:
                    continue
                if san_fail(rc, out):
                    return vals, out, kind
    return None


def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2 and argv[2] in ('quick', 'thorough'):
        tier = argv[2]
    only = None
    for a in argv[2:]:
        if a.startswith('case='):
            only = re.compile(a[5:])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workers = int(os.environ.get('VS_WORKERS', '8'))
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    for a in argv[2:]:
        if a.startswith('replay='):
            return rerun(prop, mod, a[7:])
    budget = getattr(mod, 'BUDGET', {}).get(tier, 500 if tier == 'quick' else 800)
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix='vs_%s_' % prop)
    rc = 2
    try:
        rc = check(prop, mod, tier, seed, workers, deadline, work, only, t0)
    finally:
        for b in BUILDS:
            if b.bg:
                try:
                    os.waitpid(b.bg[0], 0)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def rerun(prop, mod, path):
    """natively runs the counterexample in a file written by an earlier check"""
    txt = open(path).read()
    m = re.search(r'^# case (\S+) label (.*) build (\S+)$', txt, re.M)
    work = tempfile.mkdtemp(prefix='vs_replay_')
    try:
        for c in mod.cases('quick') + mod.cases('thorough'):
            cid = c.get('id', c['fn'] + ''.join('_%s%s' % kv for kv in sorted(c.get('params', {}).items())))
            if cid != m.group(1):
                continue
            b = Build(work, c.get('harness', prop.lower() + '.cpp'), c.get('opt', '-O1'), c.get('defs', ()))
            vals = []
            for ln in txt.splitlines():
                if ln and ln[0] != '#':
                    k, v = ln.rsplit(' ', 1)
                    vals.append((k, float(v)))
            c = dict(c, params={})
            rc, out, labels = replay(b, c, vals, m.group(3), verbose=True)
            print(out)
            bad = bool(labels) or rc not in (0, 3, 4) or san_fail(rc, out)
            print('exit code %d: the violation %s' % (rc, 'is reproduced' if bad else 'does not occur'))
            return 1 if bad else 0
        print('no such case', m.group(1))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, mod, tier, seed, workers, deadline, work, only, t0):
    cases = [c for c in mod.cases(tier)]
    for c in cases:
        c.setdefault('params', {})
        c.setdefault('harness', prop.lower() + '.cpp')
        c.setdefault('opt', '-O1')
        c.setdefault('defs', ())
        c.setdefault('id', c['fn'] + ''.join('_%s%s' % kv for kv in sorted(c['params'].items())))
    ids = [c['id'] for c in cases]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    if only:
        cases = [c for c in cases if only.search(c['id'])]
    builds = {}
    for c in cases:
        k = (c['harness'], c['opt'], tuple(c['defs']))
        if k not in builds:
            BUILDS.append(Build(work, c['harness'], c['opt'], c['defs']))
            builds[k] = BUILDS[-1]
            try:
                builds[k].load()
            except BuildError as e:
                print('BUILD FAILED (the check gives no verdict):', str(e)[-2500:])
                return 2
        c['build'] = builds[k]
    for b in builds.values():
        b.start_native()
    tb = time.time()
    jobs = [(c['build'].prog, {k: v for k, v in c.items() if k != 'build'}) for c in
            sorted(cases, key=lambda c: -c.get('cost', 1))]
    byid = {c['id']: c for c in cases}
    results = run_cases(jobs, seed, workers, deadline)
    # fall-back: a case whose verdict is open is repeated in its alternative configuration
    redo = []
    for c, r in results:
        if c.get('alt') and (r.get('dead') or r['fails'] or r['unknown'] or r['undecided']):
            a = dict(c)
            a.update(c['alt'])
            a['alt'] = None
            a['is_alt'] = True
            redo.append((byid[c['id']]['build'].prog, a))
    if redo:
        r2 = {c['id']: r for c, r in run_cases(redo, seed, workers, deadline + 30)}
        new = []
        for c, r in results:
            q = r2.get(c['id'])
            if q is not None and not q.get('dead'):
                clean = not (q['fails'] or q['unknown'] or q['undecided'] or q['mem'])
                if r.get('dead') or clean or q['fails']:
                    q['alt_used'] = True
                    r = q
                else:
                    r['fails'] = r['fails'] + q['fails']
            new.append((c, r))
        results = new
    known = load_known()
    viol = []
    knownhits = []
    notes = []
    tot = dict(obligations=0, discharged=0, paths=0, decisions=0, steps=0, z3_calls=0, z3_time=0.0, z3_unknown=0, dropped=0,
               infeasible=0, generic=0)
    how = {}
    funcs = set()
    validated = 0
    mismatches = 0
    samples = []
    percase = {}
    open_cases = []
    replays = 0
    for c0, r in results:
        c = byid[c0['id']]
        b = c['build']
        cid = c['id']
        if r.get('dead'):
            notes.append('%s: undecided (%s)' % (cid, r['dead']))
            open_cases.append(cid)
            tot['obligations'] += 1
            percase[cid] = 'undecided: ' + r['dead'][:200]
            continue
        for k in ('paths', 'decisions', 'steps', 'z3_calls', 'z3_time', 'z3_unknown', 'dropped', 'infeasible', 'generic'):
            tot[k] += r[k]
        nob = r['ok'] + len(r['fails']) + len(r['unknown']) + len(r['undecided']) + len(r['mem'])
        tot['obligations'] += nob
        tot['discharged'] += r['ok']
        for k, v in r['how'].items():
            how[k] = how.get(k, 0) + v
        funcs |= set(r['funcs'])
        percase[cid] = '%d paths, %d/%d obligations, %.1fs' % (r['paths'], r['ok'], nob, r['wall'])
        need = c.get('reach', ('end',))
        for lab in need:
            if not r['reach'].get(lab):
                notes.append('%s: reachability witness %s not reached' % (cid, lab))
                if not (r['fails'] or r['mem'] or r['undecided']):
                    open_cases.append(cid)
        openc = False
        seenl = set()
        for lab, vlist in r['fails']:
            kf = [k for k in known if k[0] == prop and k[1].match(cid) and k[2].match(lab)]
            if lab in seenl and not kf and any(v[0] == cid for v in viol):
                continue
            if replays > 200:
                break
            replays += 1
            # the symbolic verdict is a violation: no tolerance for strict inequalities
            got = confirm(b, c, lab, [list(v) + [('vs_strict', 1.0)] for v in vlist])
            if got and kf:
                knownhits.append((kf[0][3], cid, lab))
                # other labels failing on the same input still count
                rest = [l for l in replay(b, c, got[0])[2] if not any(k[0] == prop and k[1].match(cid) and k[2].match(l) for k in known)]
                if rest:
                    viol.append((cid, rest[0], got, c))
                continue
            if got:
                viol.append((cid, lab, got, c))
                seenl.add(lab)
            else:
                openc = True
                notes.append('%s: %s not proved; counterexample candidate not reproduced natively: %s' % (cid, lab, dict(vlist[0]) if vlist else ''))
        for why, vlist in r['mem']:
            if len(viol) > 3:
                break
            got = confirm(b, c, None if why != 'abort' else None, vlist, mem=True)
            if got:
                viol.append((cid, 'memory: ' + why if why != 'abort' else 'abort', got, c))
            else:
                openc = True
                notes.append('%s: %s (not reproduced natively)' % (cid, why))
        for lab, why, vlist in r['unknown']:
            openc = True
            got = confirm(b, c, lab, vlist) if vlist and replays < 200 and len(viol) < 5 else None
            replays += 1
            if got and not any(k[0] == prop and k[1].match(cid) and k[2].match(lab) for k in known):
                viol.append((cid, lab, got, c))
            else:
                notes.append('%s: %s undecided (%s)' % (cid, lab, why))
        for u in r['undecided']:
            openc = True
            why, vlist = u if isinstance(u, tuple) else (u, [])
            got = confirm(b, c, None, vlist) if vlist and replays < 200 and len(viol) < 5 else None
            replays += 1
            if got:
                lb = sorted(replay(b, c, got[0])[2])
                lb = [l for l in lb if not any(k[0] == prop and k[1].match(cid) and k[2].match(l) for k in known)]
                if lb or not replay(b, c, got[0])[2]:
                    viol.append((cid, (lb or ['crash'])[0], got, c))
            else:
                notes.append('%s: path undecided (%s)' % (cid, why))
        if openc:
            open_cases.append(cid)
        if r['trace'] and not viol and c.get('validate', True):
            vals, pred = r['trace']
            if len(samples) < 6:
                samples.append(dict(case=cid, input={k: v for k, v in vals}, predicted=[list(p) for p in pred[:4]]))
            rcx, out, labels = replay(b, c, vals, verbose=True)
            nat = {}
            for m in re.finditer(r'^EQ (\S+) (\S+) (\S+)', out, re.M):
                nat.setdefault(m.group(1), []).append((float(m.group(2)), float(m.group(3))))
            bad = None
            cnt = {}
            if rcx in (0, 1):
                for lab, x, y in pred:
                    i = cnt.get(lab, 0)
                    cnt[lab] = i + 1
                    ns = nat.get(lab, [])
                    if i >= len(ns):
                        bad = 'label %s missing natively' % lab
                        break
                    for p, q in zip((x, y), ns[i]):
                        if not (p == q or (p != p and q != q) or abs(p - q) <= 1e-5 * (1e-3 + abs(p) + abs(q))):
                            bad = '%s: interpreter %.12g native %.12g' % (lab, p, q)
                if bad is None:
                    validated += 1
                else:
                    mismatches += 1
                    notes.append('%s: translator validation mismatch %s' % (cid, bad))
            else:
                mismatches += 1
                notes.append('%s: native run of the validation input ended with %d' % (cid, rcx))
    notes = list(dict.fromkeys(notes))
    for n in notes[:25]:
        print('NOTE', n[:400])
    if len(notes) > 25:
        print('NOTE ... and %d more' % (len(notes) - 25))
    seenk = set()
    for text, cid, lab in knownhits:
        if text not in seenk:
            seenk.add(text)
            print('KNOWN-FINDING: property=%s %s [%s %s]' % (prop, text, cid, lab))
    rc = 0
    if viol:
        rdir = VERIF + '/evidence/replay'
        os.makedirs(rdir, exist_ok=True)
        for i, (cid, lab, got, c) in enumerate(viol[:10]):
            vals, out, kind = got
            f = os.path.join(rdir, '%s_%d.txt' % (prop, i))
            write_values(f, c, vals)
            with open(f, 'a') as fh:
                fh.write('# case %s label %s build %s\n# replay: %s/replay %s %s\n' % (cid, lab, kind, VERIF, prop, f))
                fh.write('# fn %s harness %s\n' % (c['fn'], c['harness']))
                for ln in out.splitlines()[:40]:
                    fh.write('# | %s\n' % ln)
            print('case %s: %s fails for %s' % (cid, lab, {k: v for k, v in vals}))
            for ln in [l for l in out.splitlines() if 'FAIL' in l or 'ERROR' in l or 'runtime error' in l][:3]:
                print('    ' + ln)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(rdir, '%s_0.txt' % prop)))
        rc = 1
    wall = time.time() - t0
    if not only:
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'), wall_s=round(wall, 2),
                  violations=len(viol),
                  assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                  coverage=dict(states=tot['paths'], transitions=tot['steps'],
                                traces_validated_against_impl=validated, samples=samples or [dict(note='no concrete trace')],
                                obligations=tot['obligations'], discharged=tot['discharged'],
                                discharged_by=how, decisions=tot['decisions'], dropped_paths=tot['dropped'],
                                infeasible_paths=tot['infeasible'], unexplored_zero_sets=tot['generic'], solver_queries=tot['z3_calls'],
                                solver_seconds=round(tot['z3_time'], 2), solver_unknown=tot['z3_unknown'],
                                cases=len(cases), undecided_cases=sorted(set(open_cases)), validation_mismatches=mismatches,
                                bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
                                functions_encoded=sorted(demangle(funcs)), per_case=percase,
                                known_findings=sorted(seenk), notes=notes[:100],
                                explanation='states = feasible execution paths of the real code explored symbolically; '
                                            'transitions = LLVM IR instructions executed on symbolic values'))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d/%d obligations, %d open cases, %d queries %.1fs, validated %d, %.1fs -> exit %d' % (
        prop, tier, len(cases), tot['paths'], tot['discharged'], tot['obligations'], len(set(open_cases)), tot['z3_calls'],
        tot['z3_time'], validated, wall, rc))
    if only or os.environ.get('VS_VERBOSE'):
        for k, v in sorted(percase.items()):
            print('  ', k, v)
    return rc


def demangle(names):
    names = [n[1:] for n in names]
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return [l for l in p.stdout.decode().split('\n') if l.startswith('Iir::') or ' Iir::' in l or '(Iir::' in l][:400]
    except Exception:
        return names[:400]


if __name__ == '__main__':
    sys.exit(main(sys.argv))
