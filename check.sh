#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 replay a recorded violation
# check.sh build                         build everything
# Exit status: 0 held, 1 violation, 3 the check itself could not run.
root="$(cd "$(dirname "$0")" && pwd)"
export D10SIM_ROOT="$root" D10SIM_TARGET="$root/target/sim"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER LD_PRELOAD
log="$root/target/build.log"
mkdir -p "$root/target"

build_sim() {
  "$root/sim/build.sh" >"$log" 2>&1 || { tail -40 "$log"; echo "check error: the simulator does not build against /repo"; exit 3; }
}
# the repository's own binaries, built from a copy so that nothing is written to /repo
build_repo() { # package...
  local src="$root/target/repo-src"
  mkdir -p "$src"
  rsync -a --delete --exclude=/target --exclude=/.git --exclude=Cargo.lock /repo/ "$src/" 2>/dev/null || {
    rm -rf "$root/target/repo-src"; mkdir -p "$src"
    (cd /repo && tar cf - --exclude=./target --exclude=./.git --exclude=./Cargo.lock .) | tar xf - -C "$src"
  }
  cmp -s "$root/sim/repo.Cargo.lock" "$src/Cargo.lock" || cp "$root/sim/repo.Cargo.lock" "$src/Cargo.lock"
  local args=()
  for p in "$@"; do args+=(-p "$p"); done
  (cd "$src" && CARGO_PROFILE_RELEASE_LTO=off PYO3_PYTHON=/opt/vp/venv/bin/python CARGO_TARGET_DIR="$root/target/repo" \
    cargo build --offline --release "${args[@]}") >"$log" 2>&1 ||
    { tail -40 "$log"; echo "check error: /repo does not build"; exit 3; }
}
needs() { # property
  case "$1" in
    C07|C14) build_repo d10-cli ;;
    C12|C18) build_repo d10-python ;;
  esac
}
case "$1" in
  build)
    build_sim
    build_repo d10-cli d10-python
    ;;
  replay)
    build_sim
    needs "$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
    exec "$D10SIM_TARGET/release/d10sim" replay "$2"
    ;;
  C*)
    build_sim
    needs "$1"
    exec "$D10SIM_TARGET/release/d10sim" check "$1" --tier "${2:-quick}"
    ;;
  *)
    sed -n '2,5p' "$0"
    exit 3
    ;;
esac
