#!/bin/sh
# replays a counterexample written by check.py against the real headers: ./replay.sh evidence/replay/<file>.json
exec python3 "$(dirname "$0")/tools/replay.py" "$1"
