#!/bin/bash
# check.sh ID                build the property's simulator against /repo's working tree and run it
# check.sh ID replay FILE    build it and replay one recorded violation
# exit 0 held, 1 violation (with a VIOLATION line), 2 the check itself could not run
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id="$1"; bin="${id,,}"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" SYNSIM_EVIDENCE="$PWD/evidence" SYNSIM_REPLAYS="$PWD/replays" SYNSIM_KNOWN="$PWD/known_findings.json"
unset RUSTFLAGS RUST_BACKTRACE RUSTC_WRAPPER
mkdir -p target evidence replays
log="target/build-$id.log"
cmd=(check); [ "$2" = replay ] && cmd=(replay "$3")
build() { (cd "$1" && shift && cargo build --release --offline "$@") >"$log" 2>&1; }
broken() { echo "building the simulator for $id failed:" >&2; tail -40 "$log" >&2; exit 2; }
case "$id" in
C14)
  seed="${VERIF_SEED:-1}"
  [ "$2" = replay ] && seed=$(sed -n 's/^ *"seed": *\([0-9]*\).*/\1/p' "$3" | head -1)
  build sim --bin gen14 || broken
  export SYNSIM_GEN14="$PWD/target/gen14-$seed"
  # violation of the generating stage: CLASS, text in a file
  stage() { python3 tools/stage14.py "$1" "$seed" "$log" "$SYNSIM_GEN14" "${VERIF_TIER:-quick}"; exit $?; }
  target/release/gen14 "$SYNSIM_GEN14" /repo/src/tool/templates/target/rust "$seed" >"$log" 2>&1
  rc=$?
  [ $rc = 3 ] && stage generation-failed
  [ $rc != 0 ] && { cat "$log" >&2; exit 2; }
  # without the generated part, to tell a harness that does not build from a source that does not compile
  if ! build gen14 --bin c14; then stage does-not-compile; fi
  ;;
C12)
  mkdir -p target/release
  gcc -O1 -shared -fPIC -o target/release/shim.so sim/shim/shim.c -ldl || { echo "building the fault shim failed" >&2; exit 2; }
  build sim --bin c12 --bin prog || broken
  ;;
*) build sim --bin "$bin" || broken ;;
esac
"target/release/$bin" "${cmd[@]}"
