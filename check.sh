#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra arguments for the checker]
# Builds what the check needs from /repo's working tree and runs it.
# Exit 0: held; 1: VIOLATION line(s) printed; 2: the check could not give an answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
id=${1:?property}; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
T=$here/target
mkdir -p "$T" "$here/evidence" "$here/replays"

srchash() {
  (cd /repo && find . -path ./.git -prune -o -name target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# build <log> <stamp> <clean manifest> <target dir> <packages> -- cargo arguments
fresh() { # stamp-file target-dir manifest: drop stale workspace crates when the sources changed
  local stamp=$1 tdir=$2 man=$3 h
  h=$(srchash)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    rm -f "$stamp"
    for p in scutiger-core scutiger-lfs scutiger-bin; do
      cargo clean --offline --manifest-path "$man" --target-dir "$tdir" -p $p >/dev/null 2>&1
    done
  fi
  echo "$h"
}

die() { echo "check.sh: $1" >&2; [ -n "${2:-}" ] && tail -40 "$2" >&2; exit 2; }

exec 9>"$T/.lock"
flock 9
log=$T/build-$id.log
build_repo_bins() {
  local h
  h=$(fresh "$T/bins.stamp" "$T/repo" /repo/Cargo.toml)
  # Cargo.lock of /repo must stay as it is: --locked refuses to change it.
  cargo build --offline --locked --manifest-path /repo/Cargo.toml --bins --target-dir "$T/repo" >"$log" 2>&1 ||
    die "building /repo failed" "$log"
  echo "$h" >"$T/bins.stamp"
}
build_harness() { # crate
  cargo build --offline --manifest-path "$here/$1/Cargo.toml" --target-dir "$T/h" >>"$log" 2>&1 ||
    die "building $1 failed" "$log"
}
: >"$log"
case $id in
  build)
    h=$(fresh "$T/lib.stamp" "$T/h" "$here/mclib/Cargo.toml")
    build_harness mclib; echo "$h" >"$T/lib.stamp"
    build_repo_bins; build_harness mc; build_harness mcgit
    exit 0;;
  C01|C02|C03|C27)
    h=$(fresh "$T/lib.stamp" "$T/h" "$here/mclib/Cargo.toml")
    build_harness mclib; echo "$h" >"$T/lib.stamp"; exe=mclib;;
  C22|C23|C24|C25|C26|C28|C30) build_repo_bins; build_harness mcgit; exe=mcgit;;
  C*) build_repo_bins; build_harness mc; exe=mc;;
  *) die "unknown property $id";;
esac
# Run a private copy of the programs, so that a later build cannot disturb this run.
run=$(mktemp -d "${TMPDIR:-/tmp}/vrun.XXXXXX") || die "mktemp"
chmod 755 "$run"
trap 'rm -rf "$run"' EXIT
cp "$T/h/debug/$exe" "$run/" || die "harness missing"
if [ $exe != mclib ]; then
  for b in git-lfs-transfer git-at git-recent-refs; do cp "$T/repo/debug/$b" "$run/" || die "no $b"; done
fi
flock -u 9
exec 9>&-
export VERIF_BIN=$run
"$run/$exe" "$id" "$tier" "$@"
rc=$?
rm -f "$here/target/build-$id.log"
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "check.sh: $exe ended with status $rc" >&2; exit 2; }
exit $rc
