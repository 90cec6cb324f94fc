#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy: patch applies, builds, passes the stable tests, demo 0 without / non-zero with it
W=/tmp/seed
[ -d $W ] || cp -a /repo $W
export HOME=/root USER=root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
cd $W || exit 1
sync() { git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd; }
build() { cargo build --workspace --offline --locked >/tmp/seed.log 2>&1 && cargo test --workspace --no-run --offline --locked >>/tmp/seed.log 2>&1; }
sync; build || { echo "base build failed"; exit 1; }
D=$(mktemp -d)
for id in "$@"; do
  rm -rf "$D/$id"; cp -r /verif/seeded/$id $D/$id; rm -f $D/$id/*.diff $D/$id/meta.json
  timeout 300 bash $D/$id/demo.sh >$D/out 2>&1; echo "$id base: $? $(tail -1 $D/out | cut -c1-150)"
done
for id in "$@"; do
  sync
  git apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  build || { echo "$id: DOES NOT BUILD"; tail -20 /tmp/seed.log; continue; }
  TMPDIR=$(mktemp -d) cargo nextest run --workspace --offline --locked --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/seed.test 2>&1
  T=$(grep -E "Summary|FAIL|TIMEOUT" /tmp/seed.test | sort -u | tr '\n' ';' | cut -c1-300)
  pkill -9 -f "^/tmp/seed/target/debug/ced" 2>/dev/null
  timeout 300 bash $D/$id/demo.sh >$D/out 2>&1; echo "$id patched: $? $(tail -1 $D/out | cut -c1-150) | $T"
done
sync
