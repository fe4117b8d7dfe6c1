#!/bin/bash
# builds the OS seam; usage: build.sh [OUT]
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/build/simio.so}
mkdir -p "$(dirname "$out")"
exec gcc -O2 -shared -fPIC -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o "$out" "$here/sim/simio.c" -ldl
