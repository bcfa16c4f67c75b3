#!/bin/bash
# developer helper: run one contract in the foreground, with the solver queries on stderr if SYM_DUMP is set
b=/verif/target/debug/$1; k=$($b --list x | grep -F "$2" | head -1 | cut -d' ' -f1); shift 2; exec timeout ${T:-60} $b --one $k "$@"
