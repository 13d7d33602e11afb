#!/bin/bash
# developer helper: build one harness into /tmp/b/<name>   mk.sh name parts [extra flags]
n=$1; parts=$2; shift 2; H=$(cd $(dirname $0)/../harness && pwd); D=/tmp/b/$n; mkdir -p $D/s; F="${F:--O1 -fsanitize=address -fno-omit-frame-pointer}"
for f in mcmain alloccount omprt; do g++ -std=gnu++17 -w ${F//-fsanitize=thread/} -I${REPO:-/repo}/include -c $H/$f.cpp -o $D/$f.o & done
for ((k=0;k<parts;k++)); do g++ -std=gnu++17 -w $F -fopenmp -I${REPO:-/repo}/include -I$H -I$H/stub -DPART=$k "$@" -c $H/$n.cpp -o $D/p$k.o & done
wait; g++ ${F//-fsanitize=thread/} $D/*.o -o $D/run
