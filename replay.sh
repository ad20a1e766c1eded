#!/bin/bash
# replay.sh FILE   -- re-execute the recorded counterexamples of a violation, without the explorer
exec "$(dirname "$0")/run.sh" "$1" --replay
