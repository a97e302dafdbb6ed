#!/bin/bash
# Nothing to build: the checks are Python and import /repo directly.  This
# only verifies that the interpreter and the library are usable.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
mkdir -p evidence replays
/opt/venv/bin/python -B -c "
import warnings; warnings.simplefilter('ignore')
import chainerrl, os
assert os.path.realpath(chainerrl.__file__).startswith('/repo/'), chainerrl.__file__
print('ok', chainerrl.__file__)"
