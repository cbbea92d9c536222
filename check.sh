#!/bin/bash
# usage: check.sh PID [quick|thorough]     decide one property against /repo's current working tree
#        check.sh --build                  only build
# exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: the check could not decide
PID=$1; TIER=${2:-${VERIF_TIER:-quick}}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
OUT=$VERIF_DIR/target; mkdir -p "$OUT"
exec 9>"$OUT/.lock"; flock 9
(
  . /opt/vp/env.sh
  # cargo trusts mtimes: force a rebuild of the workspace whenever the contents changed since our last build
  H=$( find /repo/crates /repo/Cargo.toml /repo/Cargo.lock -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha1sum | sha1sum | cut -c1-40)
  if [ "$(cat "$OUT/.repo-stamp" 2>/dev/null)" != "$H" ] || [ ! -x /repo/target/release/cryptovampire ]; then
    rm -f "$OUT/.repo-stamp"
    find /repo/crates -name '*.rs' -path '*/src/*' -exec touch {} +
  fi
  cargo build $FLAGS >"$OUT/build-repo.log" 2>&1 || { echo "cannot build /repo, see $OUT/build-repo.log" >&2; tail -20 "$OUT/build-repo.log" >&2; exit 2; }
  echo "$H" >"$OUT/.repo-stamp"
  cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$OUT cargo build --release --offline >"$OUT/build-harness.log" 2>&1 || { echo "cannot build the harness" >&2; tail -20 "$OUT/build-harness.log" >&2; exit 2; }
) || exit 2
flock -u 9
[ "$PID" = --build ] && exit 0
export CV_BIN=/repo/target/release/cryptovampire
cd "$VERIF_DIR" || exit 2
exec "$OUT/release/cvcheck" "$PID" --tier "$TIER" --seed "${VERIF_SEED:-1}"
