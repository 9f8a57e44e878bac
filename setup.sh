#!/bin/sh
# Nothing needs building beforehand: every check compiles /repo's current tree itself.
cd "$(dirname "$0")" && mkdir -p build evidence && cargo kani --version && python3 -c 'import registry'
