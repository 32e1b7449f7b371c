#!/bin/sh
# run.sh CNN [quick|thorough] [--only part,..] [--replay file]
cd "$(dirname "$0")" || exit 2
exec python3-vt -m pbt.core "$@"
