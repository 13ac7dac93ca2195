#!/bin/bash
# build.sh SRC OUT FLAGS...   (headers from ${VP_REPO:-/repo}); VP_NATIVE_CXX chooses another compiler line
src=$1; out=$2; shift 2
exec ${VP_NATIVE_CXX:-clang++-18 -O0} -std=c++17 -g1 -w -fsanitize=address -fno-sanitize-recover -I${VP_REPO:-/repo} -I$(dirname $src) "$@" $src -o $out
