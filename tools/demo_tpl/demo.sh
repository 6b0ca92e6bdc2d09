#!/bin/bash
# exit 0: the demonstrated behaviour is right; nonzero: it is broken. Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
cp -r "$PWD/akasa-core/src" "$d/core" || exit 3
rm -rf "$d/core/tests"
cp -r "$here/mqtt-proto" "$here/Cargo.toml" "$here/Cargo.lock" "$here/demo.rs" "$d/" || exit 3
sed -i '/^\[workspace\]/d' "$d/mqtt-proto/Cargo.toml"
for f in "$here"/hook_*.rs; do [ -e "$f" ] && cp "$f" "$d/"; done
while read -r file mod; do
    [ -n "$file" ] && printf '\n#[allow(unused)]\n#[path = "%s/%s.rs"]\npub(crate) mod %s;\n' "$d" "$mod" "$mod" >> "$d/core/$file"
done < "$here/hooks.txt"
find "$d/core" \( -name mod.rs -o -name lib.rs \) -exec sed -i -E 's/^mod (\w+);/pub(crate) mod \1;/' {} +
printf '\n#[allow(unused)]\n#[path = "%s/demo.rs"]\npub mod demo;\n' "$d" >> "$d/core/lib.rs"
mkdir -p "$d/bin" && echo 'fn main() { akasa_core::demo::main(); println!("ok"); }' > "$d/bin/main.rs"
cd "$d" && cargo build --offline -q 2> "$d/build.log" || { tail -30 "$d/build.log"; exit 4; }
timeout 120 "$d/target/debug/demo"
