#!/bin/bash
# usage: confirm_seed.sh SEED... — confirms planted bugs in a scratch copy of /repo:
# builds, the stable tests pass, the demonstration passes without and fails with the patch.
set -u
W=/tmp/seed-scratch-$$
cp -a /repo $W || exit 2
trap 'rm -rf '"$W" EXIT
for S in "$@"; do
  D=/verif/seeded/$S
  cd $W && git checkout -q -- . || exit 2
  if [ -z "${SKIP_CLEAN:-}" ]; then
    bash $D/demo.sh > /tmp/seed-$S.clean 2>&1; c=$?
  else c=skipped; fi
  if ! git apply $D/patch.diff; then echo "$S: patch does not apply"; continue; fi
  if ! cargo build --workspace --offline --locked > /tmp/seed-$S.build 2>&1; then echo "$S: build fails (/tmp/seed-$S.build)"; continue; fi
  cargo test --workspace --no-fail-fast --offline --locked > /tmp/seed-$S.test 2>&1; t=$?
  n=$(grep -c '\.\.\. ok$' /tmp/seed-$S.test)
  f=$(grep '\.\.\. FAILED$' /tmp/seed-$S.test | head -3 | tr '\n' ';')
  bash $D/demo.sh > /tmp/seed-$S.patched 2>&1; p=$?
  ok=BAD; [ "$c" != 1 ] && { [ "$c" = 0 ] || [ "$c" = skipped ]; } && [ $t = 0 ] && [ $p != 0 ] && ok=GOOD
  echo "$S: $ok clean=$c tests_rc=$t ok=$n patched=$p $f"
done
