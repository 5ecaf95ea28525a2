#!/bin/sh
# nothing to compile: the verifier is Python on the installed z3; check that both interpreters work
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3; s = z3.Solver(); x = z3.Bool('x'); s.add(x, z3.Not(x)); assert s.check() == z3.unsat"
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import pgmpy, networkx, numpy"
