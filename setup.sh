#!/bin/bash
# Nothing to compile: checks that the interpreter, the solver and the simulator load and that one run replays.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
./run.sh one C01 0 >/tmp/dst-setup.$$ 2>&1; rc=$?
cat /tmp/dst-setup.$$; rm -f /tmp/dst-setup.$$
exit $rc
