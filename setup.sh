#!/bin/bash
# Nothing needs to persist: every check imports /repo's working tree itself.  Only verify that the tools are there.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -B -c "import duckdb, pyarrow, dill, numpy, torch" || exit 1
chmod +x run.sh
mkdir -p evidence replays
exit 0
