#!/bin/bash
# build.sh <demo.cpp> <out>: compiles /repo's engine, the index and log stand-ins and one demo program
set -e
K=$(cd "$(dirname "$0")" && pwd); R=${REPO:-$PWD}; D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
INC="-I$K/shadow -I$K/standin -I$K/standin/yakushima/include -I$K -I$R/include -I$R/src -I$R/src/include -I$R/third_party"
DEF="-DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPWAL -DPROJECT_ROOT=$R -DKVS_MAX_PARALLEL_THREADS=8 
 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=8 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 
 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 
 -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 
 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DNDEBUG" 
DEF=$(echo $DEF)
TREE="--redefine-sym _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_=vt_rb_insert
 --redefine-sym _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_=vt_rb_erase
 --redefine-sym _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base=vt_rb_inc --redefine-sym _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base=vt_rb_cinc
 --redefine-sym _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base=vt_rb_dec --redefine-sym _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base=vt_rb_cdec"
TREE=$(echo $TREE)
C="-std=c++17 -O1 -w -mcx16 -fno-pie -fno-omit-frame-pointer -include $K/shadow/prelude.h"
{
  i=0
  for s in $(find "$R/src" -name '*.cpp' | sort); do i=$((i+1)); o="$D/e$i.o"
    echo "g++ $C $INC $DEF -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -c $s -o $o.t && objcopy --redefine-sym memcpy=vt_memcpy --redefine-sym memmove=vt_memmove --redefine-sym memcmp=vt_memcmp --redefine-sym memset=vt_memset $TREE $o.t $o"
  done
  for s in "$K/rt/rt.cpp" "$K/standin/limestone/limestone.cpp" "$K/standin/yakushima/yakushima.cpp" "$1"; do i=$((i+1))
    echo "g++ $C -fno-builtin-malloc $INC $DEF -c $s -o $D/e$i.o"
  done
} | tr '\n' '\0' | xargs -0 -P 8 -I{} sh -c '{} || exit 255'
g++ -no-pie "$D"/*.o -o "$2" -lglog -lgflags -ltbb -lboost_filesystem -latomic -lpthread -ldl
