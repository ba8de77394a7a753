# Scratch project, cache and stand-in for clang-tidy, all inside one scratch directory.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/tidydemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
SCRIPT=/repo/_build/bin/scripts/run-clang-tidy-cached
mkdir -p "$W/p/bant" "$W/cache" "$W/log" "$W/home"
export CACHE_DIR="$W/cache" HOME="$W/home" TMPDIR="$W" W
cd "$W/p"
echo 'Checks: "*"' > .clang-tidy
touch MODULE.bazel compile_commands.json
# default stand-in: lists itself in log/, prints what is behind "// say: " in the source
cat > "$W/tidy" <<'T'
#!/bin/bash
if [ "$1" = --version ]; then echo "LLVM version ${FAKE_VERSION:-18.1.3}"; exit 0; fi
echo "$1" >> "$W/log/calls"
if [ -e "$W/hook" ]; then . "$W/hook"; fi
sed -n 's|^// say: ||p' "$1"
T
chmod +x "$W/tidy"
export CLANG_TIDY="$W/tidy"
run() { timeout 100 "$SCRIPT" "$@" > "$W/out" 2> "$W/err"; }
fail() { echo "FAIL: $*"; exit 1; }
calls() { if [ -e "$W/log/calls" ]; then wc -l < "$W/log/calls"; else echo 0; fi; }
