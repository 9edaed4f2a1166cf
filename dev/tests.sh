#!/bin/bash
# builds and runs the test suite of a scratch copy of the repository ($1)
set -e
export CC=/usr/bin/gcc CXX=/usr/bin/g++
B=$1/_scratch
G="-G Ninja -DCMAKE_BUILD_TYPE=Debug -DCLI_BuildExamples=ON"
cmake -S $1 -B $B/boost $G -DCLI_BuildTests=ON -DCLI_UseBoostAsio=ON >/dev/null
ninja -j4 -C $B/boost >$B/boost.log || { tail -30 $B/boost.log; exit 1; }
if [ -n "$FULL" ]; then
cmake -S $1 -B $B/st $G -DCLI_UseStandaloneAsio=ON >/dev/null
ninja -j4 -C $B/st >$B/st.log || { tail -30 $B/st.log; exit 1; }
cmake -S $1 -B $B/loop $G >/dev/null
ninja -j4 -C $B/loop >$B/loop.log || { tail -30 $B/loop.log; exit 1; }
fi
mkdir -p $B/run; cd $B/run
timeout 120 $B/boost/test/test_suite >$B/test.log 2>&1 || { tail -20 $B/test.log; exit 1; }
