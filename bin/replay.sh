#!/bin/bash
# replay.sh FILE [trace]: rebuild the simulator from /repo and run the recorded
# execution again; prints the event-log hash and the verdict (exit 1: violated)
HERE=$(cd "$(dirname "$0")/.." && pwd)
F=$(readlink -f "$1"); MODE=${2:-replay}
T=$(mktemp -d /tmp/aitisa_replay_XXXXXX); trap 'rm -rf "$T"' EXIT
if grep -q '^prop C15' "$F"; then B=handles; else B=sim; fi
if grep -q '^prop C07' "$F"; then export SIM_DEFS=-DNDEBUG; fi
bash "$HERE/bin/build_$B.sh" "$T" "${VERIF_REPO:-/repo}" || exit 3
cd "$T" && "$T/$B" "$MODE" --file "$F"
case $? in 10) exit 1;; 0) exit 0;; *) exit 3;; esac
