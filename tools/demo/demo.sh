#!/bin/bash
# exit 0: the library decodes the files beside this script as expected
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w="$(mktemp -d)" || exit 9
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/p/src" "$w/in"
cp "$here/main.rs" "$w/p/src/"; cp "$here/Cargo.toml" "$w/p/"; cp "$here/Cargo.lock" "$w/p/" 2>/dev/null
for f in "$here"/*.gz; do [ -f "$f" ] && gunzip -c "$f" > "$w/in/$(basename "$f" .gz)"; done
cd "$w/p" || exit 9
cargo build --offline --target-dir "$w/t" $(cat "$here/cargoflags" 2>/dev/null) >"$w/build.log" 2>&1 || { tail -20 "$w/build.log"; exit 9; }
bin="$w/t/debug/demo"; [ -x "$bin" ] || bin="$w/t/release/demo"
timeout 120 "$bin" "$(cat "$here/mode" 2>/dev/null || echo decode)" "$w"/in/* 2>/dev/null | grep -v " ms for " > "$w/out"
echo "status ${PIPESTATUS[0]}" >> "$w/out"
if [ -n "$DEMO_RECORD" ]; then cp "$w/out" "$DEMO_RECORD"; exit 0; fi
diff "$here/expected" "$w/out" > "$w/d" || { echo "differs from the expected result:"; cut -c1-300 "$w/d" | head -6; exit 1; }
echo as expected
