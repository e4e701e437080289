"""The CP-SAT solver as an environment that reports more intermediate solutions than it usually does.

The solver may report any sequence of feasible solutions with increasing objective before the best one.  Before the real
solve, weaker feasible solutions are reported to the same callback, in increasing order of their objective; the real solve
then only reports better ones."""
import math


def terms(model):
    """(variables, integer coefficients) of the maximised objective, None if there is none"""
    pr = model.Proto() if hasattr(model, 'Proto') else None
    if pr is None:
        return None
    if pr.HasField('objective') and pr.objective.vars:
        sg = -1 if pr.objective.scaling_factor < 0 else 1
        if sg > 0:
            return None                     # minimisation
        vs, cs = list(pr.objective.vars), list(pr.objective.coeffs)
        # a maximised objective is stored with negated coefficients
        return [(v if v >= 0 else -v - 1) for v in vs], [-c if v >= 0 else c for v, c in zip(vs, cs)]
    if pr.HasField('floating_point_objective') and pr.floating_point_objective.vars and pr.floating_point_objective.maximize:
        cs = pr.floating_point_objective.coeffs
        if any(c != int(c) for c in cs):
            return None
        return list(pr.floating_point_objective.vars), [int(c) for c in cs]
    return None


def weaker(solve, cp_model, model, cb, rng, n, seconds=2.0):
    """Reports to cb; the model that is left to solve."""
    t = terms(model)
    if t is None:
        return model
    vs, cs = t
    if not any(cs):
        return model

    def bounded(lo, hi):
        c = model.Clone()
        k = c.Proto().constraints.add()
        k.linear.vars.extend(vs)
        k.linear.coeffs.extend(cs)
        k.linear.domain.extend([lo, hi])
        return c

    def solver():
        s = cp_model.CpSolver()
        s.parameters.num_search_workers = 1
        s.parameters.max_time_in_seconds = seconds
        s.parameters.random_seed = rng.randrange(1 << 20)
        return s
    big = sum(abs(c) for c in cs) + 1
    s = solver()
    if solve(s, model) != cp_model.OPTIMAL:
        return model
    best = sum(c * s.Value(model.GetBoolVarFromProtoIndex(v)) for v, c in zip(vs, cs))
    got, low = 0, -big
    # values to aim at: near the best, and anywhere below
    unit = max(1, max(abs(c) for c in cs))
    for hi in sorted(math.floor(best - 1 - rng.random() ** 2 * rng.choice([.3, 1, 3]) * unit) for _ in range(n)):
        if hi <= low:
            continue
        s = solver()
        c = bounded(low + 1, hi)
        s.parameters.stop_after_first_solution = rng.random() < .3
        r = solve(s, c, cb)
        if r not in (cp_model.OPTIMAL, cp_model.FEASIBLE):
            continue
        got += 1
        low = sum(q * s.Value(c.GetBoolVarFromProtoIndex(v)) for v, q in zip(vs, cs))
    return bounded(low + 1, big) if got else model
