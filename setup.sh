#!/bin/bash
# nothing to build ahead: every check regenerates what it needs from /repo's working tree
cd "$(dirname "$0")" && mkdir -p build evidence && python3-vt -c 'import z3' && which clang++-18 opt-18 cvc5 >/dev/null
