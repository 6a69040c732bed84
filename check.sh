#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo, then search.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/setup.sh" || exit 2
exec env SIM_ROOT="$here" "$here/target/release/amqp-sim" check "$@"
