#!/bin/bash
# Typing while the page connects
# Exits 0 when the behaviour is right. Run with the working directory at the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
node "$here/demo.js" "$PWD/noodle-webapp/static/index.html" || { echo "wrong behaviour"; exit 1; }
