#!/bin/bash
# usage: check.sh <property> [quick|thorough]   -- builds its harness against /repo and runs it
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
CRATE=$(crate_of "$ID") || { echo "unknown property $ID" >&2; exit 2; }
build_crate "$CRATE" || { echo "build failed" >&2; exit 2; }
export VERIF_TIER="$TIER"
# explore <crate>: its run of the property.  A run that a signal ended (memory fault, abort while
# unwinding, stack overflow) is one the code under test broke: the unchanged tree never does that.
explore() {
  "$CARGO_TARGET_DIR/release/$1" "$ID" "$TIER"
  local rc=$?
  case $rc in
    132|134|135|136|139)
      mkdir -p evidence/replay
      printf 'property %s\nreplay: ./check.sh %s %s\nthe exploration was ended by signal %s\n' "$ID" "$ID" "$TIER" $((rc - 128)) >"evidence/replay/$ID.txt"
      printf '  [crash] the exploration was ended by signal %s\nVIOLATION property=%s replay=evidence/replay/%s.txt\n' $((rc - 128)) "$ID" "$ID"
      rc=1 ;;
  esac
  return $rc
}
# the core has two builds (with std and SIMD, without): explore the other one first, a violation there is one of this property
if OTHER=$(other_build "$ID"); then
  read -r OC OTEXT <<<"$OTHER"
  build_crate "$OC" || { echo "build failed" >&2; exit 2; }
  OUT=$(explore "$OC"); RC=$?
  printf 'build %s:\n%s\n' "$OTEXT" "$OUT"
  [ $RC = 0 ] || exit $RC
  export VERIF_OTHER_BUILD="the same space was first explored in the build $OTEXT: $(echo "$OUT" | grep -m1 "^$ID: " | cut -d' ' -f2-4)"
fi
explore "$CRATE"
