#!/bin/bash
# check.sh <property-id>      build against /repo's working tree and run that check
# check.sh replay <file>      re-run one recorded case
# check.sh build              build only
# Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
cd /verif || exit 2
. /verif/env.sh
mkdir -p /verif/target
exec 9>/verif/target/.lock
flock 9
POSY_SRC_HASH=$(cd /repo && find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
export POSY_SRC_HASH
log=/verif/target/build.log
# Modules of the harness that do not build against this tree (say, because it changed what
# one of its internal functions takes) are left out, and with them only their own checks.
features=$(sed -n 's/^default = \[\(.*\)\]$/\1/p' harness/Cargo.toml | tr -d ' "' | tr , '\n')
until (cd harness && cargo build --offline --locked --no-default-features --features "$(echo $features)") >"$log" 2>&1; do
  bad=$(grep -E '^error' -A6 "$log" | sed -nE 's/^ *--> src\/(props\/)?([a-z0-9_]+)\.rs:.*/\2/p' | sort -u)
  left=$(echo "$features" | grep -vxF "$bad")
  if [ -z "$bad" ] || [ -z "$left" ] || [ "$left" = "$features" ]; then
    grep -E '^error' -A12 "$log" | head -80 >&2
    tail -5 "$log" >&2
    echo "check.sh: the harness does not build against this tree" >&2
    exit 2
  fi
  echo "check.sh: without" $bad "as they do not build against this tree:" >&2
  grep -E '^error' -A12 "$log" | head -30 >&2
  features=$left
done
if [ ! -e target/shim.so ] || [ shim.c -nt target/shim.so ]; then
  if [ -e shim.c ]; then gcc -O1 -shared -fPIC -o target/shim.so.tmp shim.c -ldl && mv target/shim.so.tmp target/shim.so || exit 2; fi
fi
# run a private copy, so that a rebuild can't pull the program from under a running check
bin=/verif/target/run.$$
cp target/debug/harness "$bin" || exit 2
flock -u 9
trap 'rm -f "$bin"' EXIT
case "$1" in
  build) exit 0 ;;
  replay) "$bin" replay "$2"; exit $? ;;
  *) "$bin" run "$1"; exit $? ;;
esac
