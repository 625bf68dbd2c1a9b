#!/bin/bash
# Nothing has to be built: Hypothesis is vendored in vendor/, DRecPy is pure Python and is imported from /repo.
# This only confirms that the interpreter, the vendored library and the harness load.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
PYTHONPATH=vendor:pbt /opt/venv/bin/python - <<'PY' || exit 1
import hypothesis, json
json.load(open('MANIFEST.json')); json.load(open('known_findings.json'))
print('hypothesis', hypothesis.__version__, 'ok')
PY
mkdir -p evidence replays
