#!/bin/bash
# Nothing to build: TLC and Node run the committed files; every check bundles /repo's sources itself.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/replay evidence
test -x /opt/node/node_modules/.bin/node
java -version 2>/dev/null
