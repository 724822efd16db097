#!/bin/bash
# compiles the real crate (cwd) with stand-ins for the dependencies that are not available offline, plus demo.rs as a test module
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
tar xzf "$D/rs.tgz" -C "$W" && mkdir -p "$W/build" && cp -r "$R/programs/mango-v4/src" "$W/build/mango-src" || exit 9
sed -i 's/opt-level = 1/opt-level = 0/' "$W/rs/Cargo.toml"
if [ -f "$D/attach" ]; then
  { printf '\n#[cfg(test)]\nmod demo_planted {\n'; cat "$D/demo.rs"; printf '\n}\n'; } >> "$W/build/mango-src/$(cat "$D/attach")"     # next to the private function it calls
else
  cp "$D/demo.rs" "$W/build/mango-src/demo_planted.rs"
  printf '\n#[cfg(test)]\nmod demo_planted;\n' >> "$W/build/mango-src/lib.rs"
fi
cd "$W/rs" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$W/target}" timeout 280 cargo +1.70.0 test --offline -p mango-v4 --lib demo_planted > "$W/log" 2>&1
rc=$?
tail -25 "$W/log"
grep -q "test result: ok. [1-9]" "$W/log" || { [ $rc -eq 0 ] && rc=8; }
exit $rc
