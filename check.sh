#!/bin/bash
# usage: check.sh Cnn     (VERIF_TIER=quick|thorough, VERIF_SEED=n)
id=$1
tier=${VERIF_TIER:-quick}
here=/verif
# what a sanitizer report ends the process with (a number no check result uses)
export ASAN_OPTIONS=detect_leaks=0:exitcode=134:allocator_may_return_null=1
run() { # profile, extra arguments
  local profile=$1; shift
  $here/build.sh $profile || exit 2
  mkdir -p $here/target/log
  local log=$here/target/log/$id-$profile.log
  local dir=$here/target/$profile
  [ $profile = checked ] && dir=$here/target/x86_64-unknown-linux-gnu/checked
  $dir/dlpmon check --property $id --tier $tier "$@" 2>$log.err | tee $log
  local rc=${PIPESTATUS[0]}
  case $rc in
    0|1) ;;
    132|133|134|135|136|139) # died by SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV, or stopped by the sanitizer
      tail -c 20000 $log.err >> $log
      echo "VIOLATION property=$id replay=$log"
      rc=1 ;;
    *) tail -n 40 $log.err >&2; rc=2 ;;
  esac
  [ $rc = 0 ] || exit $rc
}
if [ "$tier" = thorough ]; then
  run checked --seconds 120 --min-episodes 1000
  run release
else
  # memory safety is part of these two
  case $id in C27|C28) run checked --seconds 8 --min-episodes 200 ;; esac
  run release
fi
exit 0
