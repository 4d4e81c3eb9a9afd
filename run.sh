#!/bin/bash
# run.sh ID TIER            build what check ID needs from /repo's working tree and run it
# run.sh replay ID TIER SEED CASE
cd /verif || exit 2
. ./env.sh
if [ "$1" = replay ]; then ID=$2; else ID=$1; fi
[ -n "$ID" ] || exit 2
build() { # variant-dir cargo-args...
  local dir=$1; shift
  (cd harness && cargo build --offline --target-dir "$VT$dir" "$@") >"$LOG" 2>&1 || { tail -40 "$LOG"; echo "build failed: $*"; exit 2; }
}
mkdir -p evidence target
LOG=$(mktemp /verif/target/build.XXXXXX.log)
trap 'rm -f "$LOG"' EXIT
case $ID in
C18) build /count --features count_alloc; EXE=$VT/count/debug/vph ;;
*) build ""; EXE=$VT/debug/vph ;;
esac
case $ID in
C03|C04) build "" --release; export VPH_RELEASE=$VT/release/vph ;;
C14|C15) build /stream --features stream; export VPH_STREAM=$VT/stream/debug/vph ;;
C20) (cargo build --offline --manifest-path /repo/Cargo.toml -p rinklecate --target-dir "$VT/rink") >"$LOG" 2>&1 || { tail -40 "$LOG"; echo "build failed: rinklecate"; exit 2; }
     export VPH_RINK=$VT/rink/debug/rinklecate ;;
esac
if [ "$1" = replay ]; then
  exec "$EXE" case "$2" "$3" "$4" "$5"
fi
"$EXE" check "$ID" "${2:-quick}"
exit $?
