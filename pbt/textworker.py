"""Reads {"jobs": [...]} on stdin, writes the printed results as JSON.  Used by C30 to run the same calls under
different hash seeds."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

sys.dont_write_bytecode = True
sys.meta_path.insert(0, boot._FromSource)
sys.path.insert(0, boot.REPO)


def separated(terms):
    """nbody_separation of a sum of monomials."""
    import sympy

    from blueqat import wq
    expr = sympy.Integer(0)
    for k, names in terms:
        expr += sympy.Mul(k, *[sympy.Symbol(n) for n in names])
    if type(expr) is not sympy.Add:
        return ''
    new, constraints, mapping = wq.nbody_separation(expr, sympy.symbols('anc0:40'))
    return repr((new, constraints, sorted((k, str(v)) for k, v in mapping.items())))


def main():
    import random

    import numpy as np

    import blueqat.pauli as bp
    import bq
    from blueqat import wq
    make = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
    out = []
    for job in json.load(sys.stdin)['jobs']:
        random.seed(job['seed'])
        np.random.seed(job['seed'])
        h = bp.Expr.zero()
        for ops, c in job['h']:
            t = bp.I.to_term()
            for l, q in ops:
                t = t * make[l][q]
            h = h + t * c
        c = bq.build(job['circuit'])
        o = wq.Opt()
        o.add(job['qubo'])
        o.Ts, o.R, o.ite = 1.0, 0.5, 5
        rows = [repr(h), repr(h.simplify()), repr(h * h), repr((h * h).simplify()),
                repr(bp.commutator(h, bp.X[0] + bp.Y[1] * bp.Z[2])), repr(h * bp.Y[0]),
                repr(c), c.to_qasm(), sorted(c.run(shots=9).items()), repr(c.run().tolist()),
                repr(wq.pauli(job['qubo'])), repr(o.run(targetT=0.3)), repr([float(e) for e in o.E])]
        rows.append(separated(job['terms']))
        if all(x[0] not in ('m', 'measure', 'reset') for x in job['circuit']['ops']):
            rows += [repr(c.dagger()), repr((c + c.dagger()).run().tolist())]
        out.append([str(r) for r in rows])
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
