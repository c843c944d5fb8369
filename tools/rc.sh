#!/bin/sh
# short output of a check
cd /verif; VF_VERBOSE=1 python3 run_check.py "$@" 2>&1 | cut -c1-700 | grep -v '^ *File\|^ *\^\|^$\|Traceback' | head -${LINES_MAX:-24}
