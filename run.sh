#!/bin/bash
# Usage: run.sh <ID> [args]: builds the check of property <ID> against /repo's working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID}; shift
source "$here/env.sh"
bin=$(echo "$id" | tr A-Z a-z)
build "$bin" || exit 2
cd "$here" && exec "$target/debug/$bin" "$@"
