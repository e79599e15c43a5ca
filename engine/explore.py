"""Exploration of one case: every decision prefix is re-executed with a fresh machine
and value domain; obligations are collected per path."""
import math
import os
import time
import traceback
import z3
from .symex import Machine, Path, MemError, CppThrow, Abort, SInt, Op, FBits, UNDEF, sgn
from .ir import IRError
from .rf import Budget, RF
from .real import RealDomain, Stats, Infeasible, Undecided, INF
from .fpdom import FPDomain


class Dropped(Exception):
    pass


class Run:
    """one path"""

    def __init__(self, case, prefix, stats, seed):
        self.case = case
        self.path = Path(prefix)
        if case.get('domain', 'R') == 'R':
            self.D = RealDomain(self.path, seed=seed, nsamples=case.get('nsamples', 24), z3_ms=case.get('z3_ms', 3000), stats=stats)
            self.D.cx.MAXTERMS = case.get('maxterms', self.D.cx.MAXTERMS)
            self.D.generic = case.get('generic', False)
        else:
            self.D = FPDomain(self.path, seed=seed, nsamples=case.get('nsamples', 24), nan_free=case.get('nan_free', True), stats=stats)
            self.D.model_ms = case.get('model_ms', 3000)
        self.inputs = []          # (name, getter(env) -> float)
        self.obs = []             # (label, status, how/env)
        self.reach = []
        self.eqs = []             # (label, a, b)
        self.names = {}
        self.pnames = {}

    def uname(self, n):
        k = self.pnames[n] = self.pnames.get(n, 0) + 1
        return n if k == 1 else '%s#%d' % (n, k)


def handlers(run, m):
    D = run.D
    isR = D.name == 'R'

    def param(n, v):
        nm, _, fn = D.params[-1]
        run.inputs.append((n, fn))
        return v

    def flt(x):
        return None if type(x) is float and (x == INF or x == -INF) else x

    def h_real(m, a):
        n = m.cstr(a[0])
        nm = run.uname(n)
        strict = m.conc(a[3])
        if a[1] == a[2]:
            run.inputs.append((nm, lambda env, v=a[1]: v))
            return a[1]
        return param(nm, D.real(nm, flt(a[1]), flt(a[2]), bool(strict & 1), bool(strict & 2)))

    def h_freq(m, a):
        n = run.uname(m.cstr(a[0]))
        lo, hi = a[2], a[3]
        return param(n, D.freq(n, sgn(m.conc(a[1]), 32), lo, hi))

    def h_db(m, a):
        n = run.uname(m.cstr(a[0]))
        return param(n, D.logp(n, sgn(m.conc(a[1]), 32), flt(a[2]), flt(a[3])))

    def h_int(m, a):
        n = run.uname(m.cstr(a[0]))
        lo, hi = sgn(m.conc(a[1]), 32), sgn(m.conc(a[2]), 32)
        v = z3.BitVec(n, 32)
        s = m.isolver()
        s.add(v >= lo, v <= hi)
        si = SInt(v, 32, n, lo, hi)

        def get(env):
            for t in getattr(D, 'terms', ()):
                if t.op == 'int' and t.args[0] == n and env is not None and t.id in env:
                    return float(env[t.id])
            if s.check() == z3.sat:
                return float(sgn(s.model().eval(v, model_completion=True).as_long(), 32))
            return float(lo)
        run.inputs.append((n, get))
        return si

    def h_choice(m, a):
        n = run.uname(m.cstr(a[0]))
        k = m.path.choose_int('choice ' + n, list(range(m.conc(a[1]))))
        run.inputs.append((n, lambda env, k=k: float(k)))
        return k

    def h_p(m, a):
        return int(run.case['params'][m.cstr(a[0])]) & 0xffffffff

    def h_pd(m, a):
        return float(run.case['params'][m.cstr(a[0])])

    def h_assume(m, a):
        if not m.cbool(a[0]):
            raise Dropped()

    def h_check(m, a):
        lab = m.cstr(a[0])
        v = a[1]
        if v is UNDEF:
            raise MemError('uninitialised condition in ' + lab)
        ok = m.cbool(v)
        if ok:
            run.obs.append((lab, 'ok', 'path'))
        else:
            env = witness_env(run)
            run.obs.append((lab, 'fail' if env is not None or not D.params else 'unknown',
                            env if env is not None else ({} if not D.params else 'no witness for the path')))

    def h_eq(m, a):
        lab = m.cstr(a[0])
        x, y, tol = a[1], a[2], a[3]
        if x is UNDEF or y is UNDEF:
            raise MemError('uninitialised value reaches ' + lab)
        run.eqs.append((lab, x, y))
        st, how = D.check_eq(x, y, tol)
        run.obs.append((lab, st, how))

    def h_eqr(m, a):
        lab = m.cstr(a[0])
        x, y = a[1], a[2]
        if x is UNDEF or y is UNDEF:
            raise MemError('uninitialised value reaches ' + lab)
        run.eqs.append((lab, x, y))
        st, how = D.check_eq(x, y, 0.0, 0) if isR else D.check_eq(x, y, 0.0)
        run.obs.append((lab, st, how))

    def rel(op):
        def h(m, a):
            lab = m.cstr(a[0])
            x, y = a[1], a[2]
            if x is UNDEF or y is UNDEF:
                raise MemError('uninitialised value reaches ' + lab)
            if isR:
                if type(x) is float and type(y) is float:
                    ok = x < y if op == 'lt' else x <= y
                    env = witness_env(run)
                    run.obs.append((lab, 'ok' if ok else 'fail', 'const' if ok else env or {}))
                    return
                if type(x) is float and not math.isfinite(x) or type(y) is float and not math.isfinite(y):
                    ok = D.fcmp('o' + op, x, y)
                    run.obs.append((lab, 'ok' if ok else 'fail', 'const' if ok else witness_env(run) or {}))
                    return
                st, how = D.check_rel(D.cx.sub(D.lift(y), D.lift(x)), '>' if op == 'lt' else '>=')
            else:
                st, how = D.check_rel(x, y, op)
            run.obs.append((lab, st, how))
        return h

    def h_reach(m, a):
        run.reach.append(m.cstr(a[0]))

    def h_poison(m, a):
        o, off = m.find(a[0], 0, 'poison')
        n = m.conc(a[1])
        m.clear(o, off, n)

    def h_heap(m, a):
        return m.heap_total

    return {'@vs_real': h_real, '@vs_freq': h_freq, '@vs_db': h_db, '@vs_int': h_int, '@vs_choice': h_choice,
            '@vs_p': h_p, '@vs_pd': h_pd, '@vs_assume': h_assume, '@vs_check': h_check, '@vs_eq': h_eq, '@vs_eqr': h_eqr,
            '@vs_le': rel('le'), '@vs_lt': rel('lt'), '@vs_reach': h_reach, '@vs_poison': h_poison,
            '@vs_heap_mark': h_heap, '@vs_globals': lambda m, a: m.gwrites & ((1 << 64) - 1), '@vs_obj': lambda m, a: None}


def witness_env(run):
    D = run.D
    if D.samples:
        return D.samples[0]
    if D.name == 'R':
        try:
            D.witness()
        except Exception:
            pass
    else:
        D.find_model(4000)
    return D.samples[0] if D.samples else None


def values(run, env):
    out = []
    for n, fn in run.inputs:
        try:
            v = fn(env)
        except Exception:
            v = 0.25
        out.append((n, v))
    return out


def explore(prog, case, seed=1, deadline=None):
    """all paths of a case. Returns a plain dict (picklable)"""
    stats = Stats()
    t0 = time.time()
    res = dict(id=case['id'], paths=0, dropped=0, infeasible=0, steps=0, ok=0, how={}, fails=[], unknown=[], undecided=[],
               reach={}, funcs=[], trace=None, mem=[], aborts=0, complete=True, depth=0, decisions=0)
    funcs = set()
    work = [[]]
    turn = 0
    maxpaths = case.get('max_paths', 400)
    while work:
        if res['paths'] + res['dropped'] + res['infeasible'] >= maxpaths or (deadline and time.time() > deadline):
            res['complete'] = False
            res['undecided'].append('%d path prefixes not explored (budget)' % len(work))
            break
        if len(res['fails']) >= 24:
            res['complete'] = False
            res['undecided'].append('%d path prefixes not explored (enough failures)' % len(work))
            break
        # depth first and breadth first in turn, so that a case cut short by its budget has seen early and late decisions
        turn += 1
        prefix = work.pop(0 if turn % 2 == 0 else -1)
        run = Run(case, prefix, stats, seed)
        if deadline:
            run.D.deadline = deadline
        m = Machine(prog, run.D, run.path, step_limit=case.get('steps', 4000000))
        m.handlers.update(handlers(run, m))
        end = 'done'
        try:
            for c in prog.mod.ctors:
                m.call(c, [])
            m.call('@' + case['fn'], [])
            if not run.D.samples and run.D.name == 'R' and run.D.params and run.D.cons:
                pass
        except Dropped:
            end = 'dropped'
        except Infeasible:
            end = 'infeasible'
        except (Budget, Undecided, z3.Z3Exception, RecursionError) as e:
            end = 'undecided'
            why = '%s: %s' % (type(e).__name__, e)
        except IRError as e:
            end = 'undecided'
            why = 'IR: %s' % e
        except MemError as e:
            end = 'mem'
            why = str(e)
        except CppThrow as e:
            end = 'throw'
            why = 'exception %s leaves the harness' % e.tinfo
        except Abort:
            end = 'abort'
        except (ZeroDivisionError, OverflowError, ValueError, TypeError, AttributeError, KeyError, IndexError, ArithmeticError) as e:
            end = 'undecided'
            tb = traceback.extract_tb(e.__traceback__)[-1]
            why = 'engine %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
            if os.environ.get('VS_DEBUG'):
                traceback.print_exc()
        work.extend(run.path.alts)
        funcs |= m.funcs_used
        res['steps'] += m.steps
        res['decisions'] += len(run.path.taken)
        if os.environ.get('VS_DEBUG'):
            print('  path', list(zip(run.path.taken, run.path.labels)), end, [(o[0], o[1], o[2] if isinstance(o[2], str) else '') for o in run.obs][-8:], flush=True)
        if end == 'dropped':
            res['dropped'] += 1
            continue
        if end == 'infeasible':
            res['infeasible'] += 1
            continue
        res['paths'] += 1
        res['depth'] = max(res['depth'], len(run.path.taken))
        for lab, st, how in run.obs:
            if st == 'ok':
                res['ok'] += 1
                res['how'][how] = res['how'].get(how, 0) + 1
            elif st == 'fail':
                cands = [how] if isinstance(how, dict) else []
                cands += run.D.samples[:4]
                vals = []
                for e in cands:
                    if e is None:
                        continue
                    vv = values(run, e)
                    if vv not in vals:
                        vals.append(vv)
                if not vals:
                    vals = [values(run, {})]
                res['fails'].append((lab, vals))
            else:
                res['unknown'].append((lab, how, [values(run, e) for e in run.D.samples[:3]]))
        if end in ('done', 'undecided', 'mem', 'throw', 'abort'):
            for r in run.reach:
                res['reach'][r] = res['reach'].get(r, 0) + 1
        if end == 'undecided':
            vs = [values(run, e) for e in run.D.samples[:3]]
            res['undecided'].append((why, vs))
        elif end == 'abort':
            res['aborts'] += 1
            if case.get('abort_ok'):
                res['ok'] += 1
                res['how']['abort'] = res['how'].get('abort', 0) + 1
                res['reach']['abort'] = res['reach'].get('abort', 0) + 1
            else:
                e = witness_env(run)
                res['mem'].append(('abort', [values(run, e or {})]))
        elif end in ('mem', 'throw'):
            e = witness_env(run)
            if e is None and run.D.params:
                res['undecided'].append((end + ' on a path without witness: ' + why, []))
            else:
                res['mem'].append((why, [values(run, x) for x in (run.D.samples[:4] or [{}])]))
        if end == 'done' and res['trace'] is None and (run.D.samples or not run.D.params):
            # translator validation data: predicted values on one input
            env = run.D.samples[0] if run.D.samples else {}
            pred = []
            for lab, x, y in run.eqs[:400]:
                try:
                    pred.append((lab, evalf(run.D, env, x), evalf(run.D, env, y)))
                except Exception:
                    pass
            res['trace'] = (values(run, env), pred)
    res['funcs'] = sorted(f for f in funcs if not f.startswith('@vs_') and '_GLOBAL__' not in f)
    res['z3_calls'] = stats.z3_calls
    res['z3_time'] = stats.z3_time
    res['z3_unknown'] = stats.z3_unknown
    res['generic'] = stats.generic
    res['wall'] = time.time() - t0
    return res


def evalf(D, env, x):
    if type(x) is float:
        return x
    if D.name == 'R':
        return float(D.cx.eval(env, D.cx.normal(x)))
    return D.eval(env, x)
