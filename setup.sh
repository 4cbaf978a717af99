#!/bin/bash
# nothing to build: the engine is Python; check that both interpreters and the solver are there
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3, engine.solver, engine.dsl" && /opt/venv/bin/python -c "import numpy, scipy, numba, astropy" 
