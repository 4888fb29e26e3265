#!/bin/bash
# trybug.sh ID...: in a scratch copy of /repo: demo on the unchanged tree, then with the patch: build, tests, demo.
exec 9>/tmp/trybug.lock; flock 9
. /opt/vp/env.sh
R=/tmp/rb/repo
[ -d $R ] || { mkdir -p /tmp/rb; cp -a /repo $R; }
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
for id in "$@"; do
  rm -rf /tmp/rb/$id; cp -r /verif/seeded/$id /tmp/rb/$id
  cd $R; git reset -q --hard
  bash /tmp/rb/$id/demo.sh >/tmp/rb/$id.clean 2>&1; c=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  cargo test --workspace --all-features --no-run --offline >/tmp/rb/$id.build 2>&1; b=$?
  cargo nextest run --workspace --all-features --lib --bins --tests --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/rb/$id.tests 2>&1
  f=$(grep -E '^ +(FAIL|TIMEOUT|SIGABRT|SIGSEGV)' /tmp/rb/$id.tests | awk '{print $NF}' | sort -u | tr '\n' ' ')
  bash /tmp/rb/$id/demo.sh >/tmp/rb/$id.bug 2>&1; d=$?
  git reset -q --hard; git clean -fdq tests
  echo "$id: clean demo $c, build $b, failing tests: $f; demo with bug $d"
  rm -rf /tmp/rb/$id
done
