#!/bin/sh
# run.sh <id> : runs the check of property <id> (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" && exec python3 "checks/$1.py"
