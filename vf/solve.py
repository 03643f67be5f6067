"""Discharging obligations: each is written as SMT-LIB text and given to the solvers as separate processes."""
import os, subprocess, tempfile, time, threading, queue, shutil
import z3
from .vals import *
from .core import has_q

r_, s_ = z3.Reals('fpx fpy')


def fpaxioms(used):
    """float model: rounding is monotone, keeps 0 and sign, never passes infinity; INF above everything stored"""
    ax = [INF > 2**60]
    for R in (R4, R8):
        if R.name() not in used:
            continue
        ax.append(z3.ForAll([r_, s_], z3.Implies(r_ <= s_, R(r_) <= R(s_)), patterns=[z3.MultiPattern(R(r_), R(s_))]))
        ax.append(z3.ForAll([r_], z3.And(z3.Implies(r_ >= 0, R(r_) >= 0), z3.Implies(r_ <= 0, R(r_) <= 0)), patterns=[R(r_)]))
        ax.append(z3.ForAll([r_], z3.And(R(r_) <= INF, R(r_) >= -INF, z3.Implies(r_ >= INF, R(r_) == INF)), patterns=[R(r_)]))
        ax.append(z3.ForAll([r_], R(R(r_)) == R(r_), patterns=[R(R(r_))]))
    return ax


def decls(ts):
    seen, out = set(), set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            for p in range(t.num_patterns()):
                stack.append(t.pattern(p))
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        stack.extend(t.children())
    return out


def funcs(t):
    """uninterpreted functions (not constants) in t"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def relevant(pc, goal):
    """hypotheses without the quantified ones about functions that no ground fact nor the goal mentions"""
    base = funcs(goal) if goal is not None else set()
    for t in pc:
        if not has_q(t):
            base |= funcs(t)
    return [t for t in pc if not has_q(t) or funcs(t) <= base]


def smt2(pc, goal, extra=()):
    ts = list(pc) + list(extra) + ([z3.Not(goal)] if goal is not None else [])
    d = decls(ts)
    s = z3.Solver()
    for t in fpaxioms(d) if ('INF' in d or 'round_f4' in d or 'round_f8' in d) else []:
        s.add(t)
    for t in ts:
        s.add(t)
    return '(set-logic ALL)\n' + s.to_smt2()


_sk = [0]


def split(goal, hyps=(), known=frozenset()):
    """goal as a list of (extra hypotheses, quantifier-free-at-top goal); conjuncts that are assumed as they stand (known:
    ids of the assumptions) are left out"""
    hyps = tuple(hyps)
    if goal.get_id() in known:
        return []
    if z3.is_and(goal):
        return [x for g in goal.children() for x in split(g, hyps, known)]
    if z3.is_implies(goal):
        return split(goal.arg(1), hyps + (goal.arg(0),), known)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = []
        for i in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('sk!%s!%d' % (goal.var_name(i), _sk[0]), goal.var_sort(i)))
        return split(z3.substitute_vars(goal.body(), *reversed(vs)), hyps, known)
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return [x for g in goal.arg(0).children() for x in split(z3.Not(g), hyps, known)]
    return [(hyps, goal)]


def run_solver(cmd, path, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        out = p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.strip().split('\n')[0] if out.strip() else ''
    return (first if first in ('sat', 'unsat', 'unknown') else 'unknown'), out, time.time() - t0


class Result(object):
    def __init__(self):
        self.status, self.by, self.time, self.out = 'unknown', None, 0.0, ''


CMDS = {
    'z3': lambda t: ['z3-new', '-T:%d' % t],
    'cvc5': lambda t: ['cvc5', '--tlimit=%d' % (t * 1000)],
    'z3l': lambda t: ['z3-new', 'smt.arith.nl=false', '-T:%d' % t],      # products of unknowns left uninterpreted
    'z3s': lambda t: ['z3-new', 'smt.arith.solver=2', '-T:%d' % t],
    'z3-old': lambda t: ['z3', '-T:%d' % t],
    'cvc5e': lambda t: ['cvc5', '--enum-inst', '--tlimit=%d' % (t * 1000)],
}
# rounds of growing effort: (seconds, solver, 'r' relevant hypotheses only / 'a' all)
SCALE = float(os.environ.get('VF_SCALE', '1'))


def rounds(timeout):
    k = lambda t: max(1, int(t * SCALE))
    return [[(k(3), 'z3', 'r'), (k(3), 'cvc5', 'r')], [(k(4), 'z3', 'a'), (k(4), 'cvc5', 'a')],
            [(k(5), 'z3-old', 'r'), (k(timeout // 2), 'cvc5', 'r'), (k(timeout // 2), 'z3', 'r')],
            [(k(timeout), 'z3', 'a'), (k(timeout), 'cvc5', 'a'), (k(timeout), 'z3-old', 'a')]]


def nonlinear(ts):
    """does some product of unknowns occur"""
    seen, stack = set(), list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and sum(not (z3.is_int_value(x) or z3.is_rational_value(x)) for x in t.children()) > 1:
            return True
        stack.extend(t.children())
    return False


def boolconsts(ts):
    seen, out = set(), {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_const(t) and z3.is_bool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[str(t)] = t
        stack.extend(t.children())
    return [out[k] for k in sorted(out)]


def cases(hyps, goal, limit=5):
    """the query split over the truth values of its Boolean constants"""
    bs = boolconsts(hyps + [goal])
    if not bs:
        return None
    if len(bs) > limit:
        freq = {str(b): 0 for b in bs}
        for t in hyps + [goal]:
            for b in boolconsts([t]):
                freq[str(b)] += 1
        bs = sorted(bs, key=lambda b: (-freq[str(b)], str(b)))[:limit]
    out = []
    for m in range(2 ** len(bs)):
        sub = [(b, z3.BoolVal(bool(m >> i & 1))) for i, b in enumerate(bs)]
        hs = [z3.simplify(z3.substitute(h, *sub)) for h in hyps]
        if any(z3.is_false(h) for h in hs):
            continue
        g = z3.simplify(z3.substitute(goal, *sub))
        if z3.is_true(g):
            continue
        out.append(([h for h in hs if not z3.is_true(h)], g))
    return out


def discharge(obls, jobs=8, timeout=20, deadline=None, extra=(), quick=False):
    """obls: list of Obl; returns list of Result in order.  What resists is split into cases and tried again."""
    res = discharge0(obls, jobs, timeout, deadline, extra, 1)
    hard = [i for i, r in enumerate(res) if r.status == 'unknown']
    again = []
    for i in hard:
        o = obls[i]
        for h, g in split(toB(o.goal), known={t.get_id() for t in o.pc}):
            cs = cases(list(o.pc) + list(h) + list(extra), g)
            if cs is None or len(cs) < 1:
                break
            again += [(i, c, g2) for c, g2 in cs]
        else:
            continue
        again = [x for x in again if x[0] != i]
    if again:
        class O(object):
            pass
        os_ = []
        for i, pc, g in again:
            o = O()
            o.pc, o.goal = pc, g
            os_.append(o)
        rs = discharge0(os_, jobs, timeout, deadline, (), 1)
        for i in {x[0] for x in again}:
            mine = [r for x, r in zip(again, rs) if x[0] == i]
            res[i].time += sum(r.time for r in mine)
            if all(r.status == 'unsat' for r in mine):
                res[i].status, res[i].by = 'unsat', 'cases:' + '+'.join(sorted({r.by for r in mine}))
    if quick:
        return res
    hard = [i for i, r in enumerate(res) if r.status == 'unknown']
    if hard and not (deadline and time.time() > deadline):
        rs = discharge0([obls[i] for i in hard], jobs, timeout, deadline, extra, 2)
        for i, r in zip(hard, rs):
            r.time += res[i].time
            res[i] = r
    return res


def discharge0(obls, jobs, timeout, deadline, extra, part):
    d = tempfile.mkdtemp(prefix='vf-smt-')
    res = [Result() for _ in obls]
    todo, left, done, by = [], {}, set(), {}
    for i, o in enumerate(obls):
        b = boolval(o.goal) if not isinstance(o.goal, bool) else o.goal
        if b is True:
            res[i].status, res[i].by = 'unsat', 'simplifier'
            continue
        parts = split(toB(o.goal), known={t.get_id() for t in o.pc})
        left[i] = len(parts)
        if not parts:
            res[i].status, res[i].by = 'unsat', 'assumed as it stands'
            continue
        for j, (h, g) in enumerate(parts):
            p = os.path.join(d, '%d_%d' % (i, j))
            hyps = list(o.pc) + list(h) + list(extra)
            rel = relevant(hyps, g)
            with open(p + 'a', 'w') as f:
                f.write(smt2(hyps, g))
            with open(p + 'r', 'w') as f:
                f.write(smt2(rel, g))
            todo.append((i, p, len(rel) == len(hyps), nonlinear(hyps + [g])))
    rs = rounds(timeout)
    rs = rs[:2] if part == 1 else rs[2:]
    lock = threading.Lock()
    try:
        for rd in rs:
            if not todo:
                break
            q = queue.Queue()
            for x in todo:
                q.put(x)

            def work():
                while True:
                    try:
                        i, p, same, nl = q.get_nowait()
                    except queue.Empty:
                        return
                    if res[i].status == 'sat':
                        continue
                    for tl, nm, which in ([(rd[0][0], 'z3l', rd[0][2]), (rd[0][0], 'z3s', rd[0][2])] if nl else []) + rd:
                        if deadline and time.time() + 1 > deadline:
                            return
                        r, out, dt = run_solver(CMDS[nm](tl), p + which, tl)
                        res[i].time += dt
                        if r == 'unsat':
                            with lock:
                                done.add(p)
                                by.setdefault(i, set()).add(nm)
                                left[i] -= 1
                                if left[i] == 0 and res[i].status == 'unknown':
                                    res[i].status, res[i].by = 'unsat', '+'.join(sorted(by[i]))
                            break
                        if r == 'sat' and nm not in ('z3l', 'z3s') and (which == 'a' or same):
                            res[i].status, res[i].by, res[i].out = 'sat', nm, out
                            break
                        res[i].out = '%s: %s' % (nm, out[:300])
            ths = [threading.Thread(target=work) for _ in range(jobs)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            todo = [x for x in todo if x[1] not in done and res[x[0]].status != 'sat']
            if deadline and time.time() > deadline:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res
