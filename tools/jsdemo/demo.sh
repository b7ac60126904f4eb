#!/bin/bash
# Runs main.cjs against the TypeScript of the repository in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); export XDEMO_REPO=$PWD
export XDEMO_DIR=$(mktemp -d /tmp/xdemo.XXXXXX); trap 'rm -r "$XDEMO_DIR"' EXIT
cd "$XDEMO_DIR" && node "$here/main.cjs"
