#!/bin/bash
# Builds every check against /repo.
here=$(cd "$(dirname "$0")" && pwd)
source "$here/env.sh"
all=$(cd "$here/harness/src/bin" && ls | sed 's/\.rs$//')
build $(for b in $all; do [[ " $fine " == *" $b "* ]] || echo $b; done) && build $fine
