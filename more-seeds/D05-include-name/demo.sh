#!/bin/bash
# builds the command line tool of the current directory and tries it in a scratch directory
R="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cp -a "$R" "$W/src" && cd "$W/src" && git clean -qfdx 2>/dev/null
CARGO_TARGET_DIR="$W/target" cargo build -q --offline -p vimwiki-cli 2>"$W/log" || { cat "$W/log"; exit 3; }
V="$W/target/debug/vimwiki"
mkdir "$W/t" && cd "$W/t" || exit 3
export HOME="$W/t" XDG_CACHE_HOME="$W/t/cache" XDG_CONFIG_HOME="$W/t/config"
fail() { echo "$*"; exit 1; }

mkdir a b; printf 'a\n' > a/p.wiki; printf 'b\n' > b/p.wiki
printf '[[wikis]]\nname = "note"\npath = "%s/a"\npath_html = "%s/ha"\n[[wikis]]\nname = "notes"\npath = "%s/b"\npath_html = "%s/hb"\n' "$PWD" "$PWD" "$PWD" "$PWD" > c.toml
"$V" --no-cache -c c.toml --include=note convert >/dev/null 2>&1
[ -e ha/p.html ] || fail "not converted"
[ ! -e hb/p.html ] || fail "converted too"
