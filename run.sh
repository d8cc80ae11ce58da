#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
# Builds the monitors against /repo's working tree and runs those of one property.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$T/bin" "$V/evidence" "$V/replays"
cd "$V/harness" || exit 3

rm -f "$T/build-first.log"
build() { # name, cargo arguments
  local name=$1
  shift
  if ! cargo build --offline --target-dir "$T" "$@" >"$T/build-$name.log" 2>&1; then
    return 1
  fi
}
die() {
  echo "INCONCLUSIVE: the monitors do not build: $1"
  tail -n 40 "$T/build-$1.log"
  exit 3
}
# Some parts are only compiled if they can be, for a change of how the crate is written may keep them from it:
# literals that must be accepted, literals that must be refused (while the macros report them at run time), and
# structs whose fields are named like variables the derive macros might use.
GOOD=goodlit BAD=badlit SHAPE=awkward REFUSED=
for _ in 1 2 3 4 5 6; do
  FEAT=$(echo $GOOD $BAD $SHAPE | tr ' ' ,)
  build release --release ${FEAT:+--features $FEAT} && break
  LOG=$T/build-release.log
  [ -f "$T/build-first.log" ] || cp "$LOG" "$T/build-first.log"
  if [ $GOOD ] && grep -q 'src/props/literals\.rs' "$LOG"; then
    GOOD=
    # a literal whose evaluation fails at compile time is a literal that is refused
    if grep -qF 'error[E0080]' "$LOG"; then cp "$LOG" "$T/build-literals.log"; REFUSED=1; fi
  elif [ $BAD ] && grep -q 'src/props/literals_bad\.rs' "$LOG"; then
    BAD=
  elif [ $SHAPE ] && grep -q 'src/props/shapes' "$LOG"; then
    [ $SHAPE = awkward ] && SHAPE=shapes || SHAPE=
  elif [ $BAD ]; then
    BAD=
  elif [ $SHAPE ]; then
    SHAPE=
  elif [ $GOOD ]; then
    GOOD=
  else
    cp "$T/build-first.log" "$LOG"
    die release
  fi
done
case $ID,$GOOD$REFUSED,$SHAPE in
C32,*, | C12,,*) cp "$T/build-first.log" "$T/build-release.log"; die release ;;
esac
[ "$FEAT" = goodlit,badlit,awkward ] || echo "note: built with features '$FEAT' only"
cp "$T/release/monitor" "$T/bin/monitor-release" || exit 3
BINS=$T/bin/monitor-release

checked() {
  build checked --release ${FEAT:+--features $FEAT} \
    --config 'profile.release.package.sia_sdk.overflow-checks=true' \
    --config 'profile.release.package.sia_sdk.debug-assertions=true' || die checked
  cp "$T/release/monitor" "$T/bin/monitor-checked" || exit 3
  BINS=$BINS,$T/bin/monitor-checked
}
case $ID in
C27)
  build lto --profile lto --features only_erase || die lto
  BINS=$BINS,$T/lto/monitor
  ;;
C05 | C11 | C13 | C14 | C15 | C16) checked ;;
*) if [ "$TIER" = thorough ]; then checked; fi ;;
esac
EXTRA=()
if [ "$ID" = C30 ]; then
  R=$T/sanitizers-$$.json
  python3 "$V/tools/sanitize.py" "$TIER" "$SEED" "$T" "$FEAT" "$R"
  EXTRA=(--extra "$R")
fi
if [ "$ID" = C12 ] && [ $REFUSED ]; then
  R=$T/literals-$$.json
  python3 - "$T/build-literals.log" "$R" <<'END'
import json, sys
log = open(sys.argv[1], errors="replace").read()
at = log.find("error[E0080]")
fail = {"key": "refused", "msg": "a well-formed literal is refused at compile time: " + log[at:at + 3000]}
json.dump({"name": "literals", "tool": "rustc", "evals": 0, "counts": {}, "fails": [fail], "error": None, "coverage": {}}, open(sys.argv[2], "w"))
END
  EXTRA=(--extra "$R")
fi
"$T/bin/monitor-release" run "$ID" --tier "$TIER" --bins "$BINS" --seed "$SEED" \
  --evidence "$V/evidence/$ID.json" --replays "$V/replays" --findings "$V/known-findings.txt" "${EXTRA[@]}"
