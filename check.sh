#!/bin/bash
# usage: bash check.sh <PROPERTY> [quick|thorough]           run a check
#        bash check.sh <PROPERTY> replay <file.json>          re-run one saved failing case, without Hypothesis
#        bash check.sh <PROPERTY> findings                    only re-demonstrate the listed known findings
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -u pbt/run.py "$@"
