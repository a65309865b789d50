#!/bin/bash
# usage: run.sh REPO : build+run the repo's own gtests against the stubs
R=${1:-/repo}; O=$(mktemp -d)
INC="-I/verif/stubs -I$R/avoidance/include -I$R/local_planner/include -I$R/safe_landing_planner/include -I$R/global_planner/include -I/usr/include/eigen3"
S="-std=c++17 -O1 -g -w -include ros/ros.h"
build() { # name srcs...
  n=$1; shift; ( g++ $S $INC "$@" -lgtest -lgtest_main -lgmock -lyaml-cpp -lpthread -o $O/$n > $O/$n.log 2>&1 && (cd $O; timeout 120 ./$n > $n.out 2>&1; echo "$n rc=$? $(grep -E 'PASSED|FAILED' $n.out | tr '\n' ' ')") || echo "$n BUILD/RUN FAIL $(grep -m2 error $O/$n.log)" ) &
}
A="$R/avoidance/src"; L="$R/local_planner/src"; P="$R/safe_landing_planner/src"
for t in $R/avoidance/test/test_*.cpp; do b=$(basename $t .cpp); build av_$b $t $A/common.cpp $A/histogram.cpp $A/transform_buffer.cpp ; done
LS=$(ls $L/nodes/*.cpp $L/utils/*.cpp | grep -v _main)
for t in $R/local_planner/test/test_*.cpp; do b=$(basename $t .cpp); build lp_$b $t $LS $A/*.cpp ; done
for t in $R/safe_landing_planner/test/test_*.cpp; do b=$(basename $t .cpp); build slp_$b $t $P/nodes/waypoint_generator.cpp $P/nodes/safe_landing_planner.cpp $A/*.cpp ; done
wait; echo "logs: $O"
