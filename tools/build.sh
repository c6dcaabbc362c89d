# sourced: offline build helpers
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$VERIF_ROOT/harness/target CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset RUSTFLAGS
repo_hash() { (cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.clar' -o -name '*.json' -o -name '*.txt' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64); }
# build_pkg PKG: file times in /repo may be older than our build output, so
# freshness is decided by content.
build_pkg() {
  local h stamp
  mkdir -p "$CARGO_TARGET_DIR"
  exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
  h=$(repo_hash); stamp=$CARGO_TARGET_DIR/.repo-hash
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    for p in stacks-core sbtc-core sbtc-cli-shadow romeo-shadow; do
      (cd harness && cargo clean --offline -q -p $p 2>/dev/null)
    done
    echo "$h" > "$stamp"
  fi
  (cd harness && cargo build --offline -q -p $1 2>"$CARGO_TARGET_DIR/build-$1.log")
  local rc=$?
  flock -u 9
  [ $rc = 0 ] || tail -40 "$CARGO_TARGET_DIR/build-$1.log" >&2
  return $rc
}
