#!/bin/bash
# check.sh PROPERTY [--replay FILE]: decides one property. Environment: VERIF_SEED, VERIF_TIER=quick|thorough.
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -B engine/main.py "$@"
