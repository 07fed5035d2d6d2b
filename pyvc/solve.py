"""back ends: z3 (several configurations), cvc5 as the second prover"""
import z3, time, os, subprocess, tempfile

STATS = {'z3': 0, 'cvc5': 0, 'simplify': 0, 'nra': 0}
CROSS = {'on': False, 'agree': 0, 'disagree': 0, 'unknown': 0}

def _smt2(axioms, pc, cond):
    s = z3.Solver()
    for a in axioms: s.add(a)
    for c in pc: s.add(c)
    s.add(z3.Not(cond))
    return s.to_smt2()

def cvc5_check(axioms, pc, cond, timeout_ms):
    txt = _smt2(axioms, pc, cond)
    import cvc5
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout_ms)))
        slv.setOption('nl-ext-tplanes', 'true')
        slv.setLogic('ALL')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = parser.getSymbolManager()
        res = ''
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull(): break
            out = cmd.invoke(slv, sm)
            if out.strip(): res = out.strip()
        return res.split('\n')[-1]
    except Exception as e:
        return 'error %s' % e

def has_uf(exprs):
    seen = set(); todo = list(exprs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            return True
        if z3.is_quantifier(e):
            return True
        todo.extend(e.children())
    return False

def abstract_uf(exprs):
    """replace applications of uninterpreted functions by variables + congruence (Ackermann)"""
    apps = {}
    order = []
    memo = {}
    def walk(e):
        k = e.get_id()
        if k in memo: return memo[k]
        if z3.is_quantifier(e) or z3.is_var(e):
            memo[k] = e; return e
        ch = [walk(c) for c in e.children()]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            key = (e.decl().get_id(), tuple(c.get_id() for c in ch))
            if key not in apps:
                v = z3.FreshConst(e.sort(), 'ack')
                apps[key] = (e.decl(), ch, v)
                order.append(key)
            r = apps[key][2]
        elif ch:
            r = e.decl()(*ch)
        else:
            r = e
        memo[k] = r
        keep.append(e); keep.append(r)
        return r
    keep = []
    out = [walk(e) for e in exprs]
    cong = []
    for i in range(len(order)):
        for j in range(i):
            d1, a1, v1 = apps[order[i]]; d2, a2, v2 = apps[order[j]]
            if d1.eq(d2):
                cong.append(z3.Implies(z3.And([x == y for x, y in zip(a1, a2)]), v1 == v2))
    return out, cong

def prove(axioms, pc, cond, timeout_ms=20000, use_cvc5=True):
    """-> (status, backend, model)  status in proved/failed/unknown"""
    c = z3.simplify(cond)
    if z3.is_true(c):
        STATS['simplify'] += 1
        return 'proved', 'simplifier', None
    neg = z3.Not(cond)
    base = list(axioms) + list(pc) + [neg]
    s = z3.Solver()
    s.set('timeout', min(timeout_ms, 4000))
    for a in base: s.add(a)
    r = s.check()
    if r == z3.unsat:
        STATS['z3'] += 1
        if CROSS['on']:
            q = cvc5_check(axioms, pc, cond, 5000)
            if q == 'unsat': CROSS['agree'] += 1
            elif q == 'sat': CROSS['disagree'] += 1
            else: CROSS['unknown'] += 1
        return 'proved', 'z3', None
    if r == z3.sat:
        return 'failed', 'z3', model_of(s.model())
    # abstract UFs and use the nlsat-based tactic
    model = None
    try:
        ex, cong = abstract_uf(base)
        for tac in ('qfnra-nlsat', 'smt'):
            t = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite', tac) if tac == 'qfnra-nlsat' else z3.Tactic('smt')
            s2 = t.solver()
            s2.set('timeout', timeout_ms)
            for a in ex: s2.add(a)
            for a in cong: s2.add(a)
            try:
                r = s2.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                STATS['nra'] += 1
                return 'proved', 'z3-nra', None
            if r == z3.sat:
                try:
                    model = model_of(s2.model())
                except z3.Z3Exception:
                    model = {}
                return 'failed', 'z3-nra', model
    except z3.Z3Exception:
        pass
    if use_cvc5:
        q = cvc5_check(axioms, pc, cond, timeout_ms)
        if q == 'unsat':
            STATS['cvc5'] += 1
            return 'proved', 'cvc5', None
        if q == 'sat':
            return 'failed', 'cvc5', {}
    return 'unknown', None, None

def model_of(m):
    out = {}
    for d in m.decls():
        try:
            out[d.name()] = str(m[d])[:200]
        except Exception:
            pass
    return out
