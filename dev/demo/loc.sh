#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -I/repo "$HERE/t.cc" /repo/bant/frontend/source-locator.cc -o $W/t || exit 2
timeout 20 $W/t
