#!/bin/bash
# Nothing has to be built: the checks import cosipy from /repo and take
# Hypothesis from the tool environment.  Fail early if either is missing.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from pbt import env
env.ensure_hypothesis()
import hypothesis, numba, xarray, scipy, pandas, distributed
print('hypothesis', hypothesis.__version__, 'numba', numba.__version__)
import os
assert os.path.isfile(os.path.join(env.REPO, 'COSIPY.py'))
"
