#!/bin/bash
# check.sh ID [--replay FILE]   (tier from VERIF_TIER: quick|thorough)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
# never read bytecode cached from another version of the tree
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache
# development only: VERIF_REPO points a run at another copy of the tree; registered checks use /repo
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$VERIF_REPO:$PWD
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
if [ "$1" = C10 ]; then   # file-system calls are owned by an interposer
  if [ ! -f build/faultfs.so ] || [ native/faultfs.c -nt build/faultfs.so ]; then
    mkdir -p build && gcc -O2 -shared -fPIC -o build/faultfs.so native/faultfs.c -ldl || exit 3
  fi
  export LD_PRELOAD=$PWD/build/faultfs.so
fi
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
