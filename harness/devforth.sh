#!/bin/sh
# development aid: rejected Forth sessions, compactly
python3 "$(dirname "$0")/dev.py" "$@" 2>&1 | grep -v "^   \(ins\|dts\|nvars\|words\|main\)"| cut -c1-${C:-900}
