# Sourced by demonstrations: builds the bant program from the sources in the
# current directory into a scratch directory; sets BANT, and W (scratch folder).
K=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/bantdemo.XXXXXX)
trap 'cd /; rm -rf "$W"' EXIT
fail() { echo "FAIL: $*"; exit 1; }
compile() {  # sources...
  printf '%s\n' "$@" | xargs -P "$(nproc)" -I{} sh -c \
    'clang++ -std=c++23 -O0 -w -I"'"$K"'/shim" -I"'"$R"'" -c "{}" -o "'"$W"'/$(echo "{}" | tr / _).o"' || fail "does not compile"
}
link() {  # output
  clang++ -std=c++23 -w -fno-access-control -I"$K/shim" -c "$K/support.cc" -o "$W/support.o" || fail "support"
  clang++ "$W"/*.o -o "$1" -Wl,--allow-multiple-definition -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || fail "does not link"
}
build_bant() {
  compile $(find bant -name '*.cc' ! -name '*_test.cc')
  link "$W/bant.bin"
  BANT=$W/bant.bin
  mkdir -p "$W/prj"
}
