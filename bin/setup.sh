#!/bin/bash
# Proves that the simulator builds offline; the checks rebuild it themselves.
HERE=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/aitisa_setup_XXXXXX); trap 'rm -rf "$T"' EXIT
bash "$HERE/bin/build_sim.sh" "$T" /repo && bash "$HERE/bin/build_handles.sh" "$T" /repo && echo "simulator builds"
