"""Deterministic execution: one solver thread everywhere, seeded random numbers; notes solves that gave up early."""
import contextlib
import random


@contextlib.contextmanager
def deterministic(seed=0, note=None):
    from ortools.linear_solver import pywraplp
    from ortools.sat.python import cp_model
    create, threads, solve = pywraplp.Solver.CreateSolver, pywraplp.Solver.SetNumThreads, cp_model.CpSolver.Solve

    def CreateSolver(*a, **kw):
        s = create(*a, **kw)
        if s is not None:
            threads(s, 1)
        return s

    def SetNumThreads(self, n):
        return threads(self, 1)

    def Solve(self, *a, **kw):
        self.parameters.num_search_workers = 1
        r = solve(self, *a, **kw)
        if note is not None and r not in (cp_model.OPTIMAL, cp_model.INFEASIBLE):
            note.append(int(r))
        return r
    pywraplp.Solver.CreateSolver = staticmethod(CreateSolver)
    pywraplp.Solver.SetNumThreads = SetNumThreads
    cp_model.CpSolver.Solve = Solve
    random.seed(seed)
    try:
        yield
    finally:
        pywraplp.Solver.CreateSolver, pywraplp.Solver.SetNumThreads, cp_model.CpSolver.Solve = staticmethod(create), threads, solve
