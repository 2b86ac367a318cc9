#!/bin/bash
# Builds the harness against the working tree of /repo and runs it:
#   run.sh build | check ID | replay FILE | parse FILE
# VERIF_SEED and VERIF_TIER choose the seed and the tier (quick, thorough).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
[ -d "$HOME/.cargo" ] || [ ! -d /root/.cargo ] || export HOME=/root
export PATH="$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
export NRBF_VERIF_DIR="$here" NRBF_REPO=/repo
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
# the repository may pin a toolchain in its directory; the harness does not
rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64-unknown-linux-gnu' &&
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p "$here/target" "$here/evidence" "$here/replays"

# What a build depends on. Cargo goes by modification times only, which says nothing about a tree that was put in place
# with old ones.
digest() {
  { cat "$here/run.sh" "$here/cover-rustc.sh"
    cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
    cd "$here/harness" && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
  } | sha256sum | cut -d' ' -f1
}

# The crate under test with coverage, for what is guided by it.
cover() {
  export RUSTC_WRAPPER="$here/cover-rustc.sh"
  build cover || return 1
  unset RUSTC_WRAPPER
}

# build NAME FLAGS...
build() {
  local name=$1 dir="$here/target/$1" log="$here/target/$1.log" want
  shift
  want=$(digest)
  if [ "$(cat "$dir/stamp" 2>/dev/null)" = "$want" ] && [ -x "$dir/release/nrbfcheck" ]; then
    return 0
  fi
  mkdir -p "$dir/release/.fingerprint"
  find "$dir/release/.fingerprint" -maxdepth 1 -name 'nrbf*' -exec rm -rf {} +
  rm -f "$dir/stamp"
  if ! (cd "$here/harness" && CARGO_TARGET_DIR="$dir" cargo build --release --offline --locked "$@") >"$log" 2>&1; then
    echo "run.sh: the harness cannot be built ($name):" >&2
    tail -40 "$log" >&2
    return 1
  fi
  echo "$want" >"$dir/stamp"
}

(
  flock 9
  case "${1:-}" in
    check) build serde && { [ "${2:-}" != C25 ] || build noserde --no-default-features; } && { cover || true; } ;;
    *) build serde && build noserde --no-default-features && { cover || true; } ;;
  esac
) 9>"$here/target/lock" || exit 3

[ "${1:-}" = build ] && exit 0
export NRBF_NOSERDE_BIN="$here/target/noserde/release/nrbfcheck"
# without the build with coverage there is no guided part, which the evidence then says
[ ! -f "$here/target/cover/stamp" ] || export NRBF_COVER_BIN="$here/target/cover/release/nrbfcheck"
exec "$here/target/serde/release/nrbfcheck" "$@"
