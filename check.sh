#!/bin/bash
# check.sh ID [build-only]: builds what the property's check needs from /repo's current tree, then runs the check.
# VERIF_TIER (quick|thorough) and VERIF_SEED select the tier and the seed.
# Exit status: 0 held on everything explored, 1 violation, 2 no answer (build failure, time-out).
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PBT_T0="$(date +%s)" # the time limit includes the builds
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTUP_TOOLCHAIN
ID="${1:?property id}"
H="$PWD/harness"
case "$ID" in
  C23) F="" ;;
  C22) F="c06" ;; # shares code with C06
  *) F="$(echo "$ID" | tr C c)" ;;
esac
NEED="$(sh "$H/needs.sh" "$ID")" || { echo "ERROR: unknown property $ID"; exit 2; }
mkdir -p "$H/target/bin"
exec 9>"$H/target/lock"; flock 9
# cargo decides by modification time whether the crate under test changed; never let it decide that it did not
stale() { rm -rf "$1"/.fingerprint/raw-btree-* "$1"/.fingerprint/rbt-harness-*; }
run() { # name, command...
  local log; log="$(mktemp)"
  if ! "${@:2}" >"$log" 2>&1; then
    echo "ERROR: building the $1 executable failed"; grep -E '^error' -A 12 "$log" | head -60; tail -5 "$log"; rm -f "$log"; exit 2
  fi
  rm -f "$log"
}
order() { # builds the harness on a copy of the crate with M set to $1; a copy that does not compile is a finding
  local m="$1" o="$H/target/order/$1" log
  rm -rf "$o/repo" "$o/harness"; mkdir -p "$o/repo" "$o/harness"
  cp -r "$REPO/src" "$REPO/Cargo.toml" "$o/repo/"
  printf '\n[workspace]\n' >>"$o/repo/Cargo.toml"
  find "$o/repo/src" -name '*.rs' -exec sed -i -E "s/^(\s*(pub(\([a-z]+\))? )?const M: usize = )[0-9]+;/\1$m;/" {} +
  sed "s#^raw-btree = { path = \"[^\"]*\"#raw-btree = { path = \"$o/repo\"#" "$H/Cargo.toml" >"$o/harness/Cargo.toml"
  cp "$H/Cargo.lock" "$o/harness/"; ln -s "$H/src" "$o/harness/src"
  stale "$o/target/release"
  if ! log="$(cargo build --offline --manifest-path "$o/repo/Cargo.toml" --lib --features dot --target-dir "$o/target/alone" 2>&1)"; then
    if echo "$log" | grep -qE '^ *--> .*src/'; then
      echo "$log" | grep -E '^error' -A 12 | head -80 >"$H/target/bin/$ID-order$m.rejected"
    else
      echo "ERROR: building the crate with order $m failed"; echo "$log" | tail -5; touch "$H/target/bin/$ID-order$m.error"
    fi
    return
  fi
  cargo build --offline --manifest-path "$o/harness/Cargo.toml" --no-default-features --features "$F" --release --target-dir "$o/target" \
    >"$o/log" 2>&1 || { echo "ERROR: building the order $m executable failed"; grep -E '^error' -A 12 "$o/log" | head -40; touch "$H/target/bin/$ID-order$m.error"; return; }
  if [ "$("$o/target/release/pbt" order)" = "$m" ]; then cp -f "$o/target/release/pbt" "$H/target/bin/$ID-order$m"; fi
}
COMMON=(--offline --manifest-path "$H/Cargo.toml" --no-default-features --features "$F")
for n in release $NEED; do
  case "$n" in
    release) stale "$H/target/release"
      run release cargo build "${COMMON[@]}" --release
      cp -f "$H/target/release/pbt" "$H/target/bin/$ID-release" ;;
    ship) stale "$H/target/ship"
      run ship cargo build "${COMMON[@]}" --profile ship
      cp -f "$H/target/ship/pbt" "$H/target/bin/$ID-ship" ;;
    asan) stale "$H/target/asan/x86_64-unknown-linux-gnu/release"
      run asan env RUSTFLAGS="-Zsanitizer=address" cargo +nightly build "${COMMON[@]}" --release \
        --target x86_64-unknown-linux-gnu --target-dir "$H/target/asan"
      cp -f "$H/target/asan/x86_64-unknown-linux-gnu/release/pbt" "$H/target/bin/$ID-asan" ;;
    orders:*) # copies of the crate with another value of the documented constant M
      REPO="${VERIF_REPO:-$(sed -n 's/^raw-btree = { path = "\([^"]*\)".*/\1/p' "$H/Cargo.toml")}"
      rm -f "$H/target/bin/$ID"-order*
      pids=()
      for m in $(echo "${n#orders:}" | tr , ' '); do order "$m" & pids+=($!); done
      for p in "${pids[@]}"; do wait "$p"; done
      if ls "$H/target/bin/$ID"-order*.error >/dev/null 2>&1; then exit 2; fi ;;
    miri|miritree)
      # building for the interpreter happens when it runs; a first run here keeps parallel workers from racing
      if [ "$n" = miri ]; then fl="-Zmiri-disable-stacked-borrows"; else fl="-Zmiri-tree-borrows"; fi
      stale "$H/target/$n/miri/x86_64-unknown-linux-gnu/ship"
      run "$n" env MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks $fl" cargo +nightly miri run -q --profile ship \
        "${COMMON[@]}" --target-dir "$H/target/$n" -- list ;;
  esac
done
flock -u 9; exec 9>&-
[ "${2:-}" = build-only ] && exit 0
exec "$H/target/bin/$ID-release" check "$ID"
