#!/bin/bash
# Runs Pluto on the programs input*.txt beside this file; fails if a schedule is wrong.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -w -g -rdynamic -I/repo/include -I/repo/lib "$here/transform_demo.c" "$here/absent.c" -o "$d/demo" -L/repo/_build \
  -Wl,-rpath,/repo/_build -Wl,-z,lazy -Wl,--allow-shlib-undefined -lpluto -lisl -lgomp || exit 2
cd "$d"
for i in "$here"/input*.txt; do
  rm -f tile.sizes
  [ -f "${i%.txt}.sizes" ] && cp "${i%.txt}.sizes" tile.sizes
  timeout 100 ./demo "$i" || { echo "$i: wrong"; exit 1; }
done
exit 0
