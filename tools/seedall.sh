#!/bin/bash
# usage: tools/seedall.sh [-j N] SEED_DIR...   (extra mode via MODE=notest)
n=4; [ "$1" = -j ] && { n=$2; shift 2; }
printf '%s\n' "$@" | xargs -P $n -I{} bash -c 'cd /verif; tools/seedrun.sh {} $MODE > /tmp/mk/$(basename {}).log 2>&1; tail -3 /tmp/mk/$(basename {}).log'
