# Sourced: builds the tokeniser with a driver and address checking; "tokens FILE" prints what it yields.
. "$(dirname "${BASH_SOURCE[0]}")/bantenv.sh"
clang++ -std=c++23 -O0 -g -w -fsanitize=address -I"$K/shim" -I"$R" -fno-access-control "$K/tokens.cc" "$K/support.cc" \
  bant/frontend/scanner.cc bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc \
  -o "$W/tokens" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || fail "does not compile"
tokens() { "$W/tokens" "$@"; }
