#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] -- decides one property on /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/lib/env.sh ]; then . /opt/vp/lib/env.sh; fi
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 
unset LD_LIBRARY_PATH LIBRARY_PATH CPATH LDFLAGS
[ -n "$2" ] && export VERIF_TIER=$2
cd "$here" || exit 2
unset SPACEPY
[ "$1" = "--setup" ] && exec python -m vk.build plain asan
exec python -m vk.runner "$1" ${3:+"$3"}
