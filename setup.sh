#!/bin/bash
# Nothing to build (pure Python): check that the interpreter, the code under test and the harness import.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${VERIF_REPO:-/repo}/src"
export MPLCONFIGDIR=$(mktemp -d /tmp/verif_mpl.XXXXXX)
/opt/venv/bin/python -W ignore -c "
import dga.bubble, harness.core, harness.gen, harness.atom, harness.vertex
print('setup ok', dga.bubble.__file__)"
rc=$?
/bin/rm -rf "$MPLCONFIGDIR"
exit $rc
