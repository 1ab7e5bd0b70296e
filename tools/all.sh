#!/bin/bash
# all.sh [IDs]: every quick check, one line each (VERIF_REPO may point to another tree)
cd "$(dirname "$0")/.."
for i in ${@:-$(seq -f C%02g 1 28)}; do timeout 900 bash check.sh $i 2>&1 | grep -v KNOWN-FINDING | tail -3; done
