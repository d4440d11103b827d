"""cvc5 as a second back end: what z3 discharged is asked again, from the same formulas printed as SMT-LIB."""
import re
import time

import cvc5
import z3

QUOTED = re.compile(r'\|(?:\\.|[^|\\])*\|')
PER_MS = 4000
BUDGET = 90


class Second:
    def __init__(self):
        self.count = dict(unsat=0, unknown=0, sat=0, error=0, skipped=0)
        self.spent = 0.0
        self.disagree = []
        self.errors = []

    def text(self, ctx, cond):
        s = z3.Solver()
        s.add(*ctx.pc)
        s.add(z3.Not(cond))
        names = {}
        out = QUOTED.sub(lambda m: names.setdefault(m.group(0), f'q!{len(names)}'), s.to_smt2())
        if '(declare-fun xor ' in out:
            # a function of integers; the formulas use no exclusive or of truth values
            out = re.sub(r'(?<=[\s(])xor(?=[\s)])', 'xor!int', out)
        return '\n'.join(l for l in out.splitlines() if not l.startswith(('(set-info', '(set-logic', '(check-sat', ';')))

    def ask(self, text):
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption('tlimit-per', str(PER_MS))
        solver.setLogic('ALL')
        p = cvc5.InputParser(solver)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'obligation')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(solver, sm)
            if 'error' in str(r):
                raise RuntimeError(str(r)[:300])
        r = solver.checkSat()
        return 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'

    def __call__(self, ctx, name, cond):
        """'sat' when cvc5 finds a model of what z3 refuted"""
        if self.spent > BUDGET:
            self.count['skipped'] += 1
            return None
        t = time.time()
        try:
            r = self.ask(self.text(ctx, cond))
        except Exception as e:  # noqa: BLE001
            r = 'error'
            if len(self.errors) < 3:
                self.errors.append(f'{name}: {type(e).__name__}: {str(e)[:200]}')
        self.spent += time.time() - t
        self.count[r] += 1
        if r == 'sat' and len(self.disagree) < 5:
            self.disagree.append(name)
        return r

    def report(self):
        return dict(**self.count, seconds=round(self.spent, 1), disagreements=self.disagree, errors=self.errors)
