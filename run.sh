#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt -c "import sys; sys.path.insert(0,'lib'); sys.dont_write_bytecode=True; import vlib; sys.exit(vlib.main('$1','${2:-${VERIF_TIER:-quick}}'))"
