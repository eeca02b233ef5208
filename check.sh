#!/bin/sh
# check.sh PROPERTY [quick|thorough] | check.sh setup | check.sh replay HARNESS PROPERTY SCENARIO CASE SEED
exec python3-vt "$(dirname "$0")/engine/check.py" "$@"
