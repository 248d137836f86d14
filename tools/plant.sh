#!/bin/bash
# bash tools/plant.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies, builds, keeps
# the stable tests passing, and the demonstration passes without it and fails with it.
W=/tmp/plant
export HOME=/root PATH="$PATH:/root/.cargo/bin"
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true DEMO_TARGET=$W/demo-target
cd $W/repo || exit 1
git checkout -q -- . ; git clean -fdq; git fetch -q /repo main && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  b=/verif/seeded/$id
  r=""
  timeout 280 bash $b/demo.sh >$W/$id.clean.log 2>&1 || r="$r demo-fails-clean($?)"
  if ! git apply $b/patch.diff 2>$W/$id.apply.log; then echo "$id: does not apply"; continue; fi
  (cargo check --workspace --all-features --offline --locked --target-dir $W/t-all && cargo build --workspace --offline --locked --target-dir $W/t && cargo test --workspace --no-fail-fast --offline --locked --target-dir $W/t -- --test-threads 8) >$W/$id.test.log 2>&1 || r="$r build-or-tests-fail"
  n=$(grep -c '\.\.\. ok$' $W/$id.test.log); 
  timeout 280 bash $b/demo.sh >$W/$id.bug.log 2>&1 && r="$r demo-passes-with-bug"
  grep -q '^error' $W/$id.bug.log && r="$r demo-error"
  git checkout -q -- . ; git clean -fdq
  echo "$id: ok-tests=$n ${r:-CONFIRMED}"
done
