#!/bin/bash
# One seed is one execution: event-log digests in fresh processes with other hash seeds, forwards and in the parallel runner.
cd "$(dirname "$0")/.."
PY=/opt/venv/bin/python
for p in ${@:-C01 C03 C05 C07 C08 C09 C10 C12 C13 C14 C15}; do
  a=$(PYTHONHASHSEED=0 $PY check.py --digest $p 25 2>/dev/null | md5sum); b=$(PYTHONHASHSEED=77 $PY check.py --digest $p 25 2>/dev/null | md5sum)
  [ "$a" = "$b" ] && echo "$p same" || echo "$p DIFFERENT"
done
