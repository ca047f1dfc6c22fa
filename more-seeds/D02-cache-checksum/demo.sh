#!/bin/bash
# builds the command line tool of the current directory and tries it in a scratch directory
R="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cp -a "$R" "$W/src" && cd "$W/src" && git clean -qfdx 2>/dev/null
CARGO_TARGET_DIR="$W/target" cargo build -q --offline -p vimwiki-cli 2>"$W/log" || { cat "$W/log"; exit 3; }
V="$W/target/debug/vimwiki"
mkdir "$W/t" && cd "$W/t" || exit 3
export HOME="$W/t" XDG_CACHE_HOME="$W/t/cache" XDG_CONFIG_HOME="$W/t/config"
fail() { echo "$*"; exit 1; }

mkdir w c; printf 'a' > w/a.wiki; printf 'a\n' > w/b.wiki; printf '{{{\nx\n}}}\n\n' > w/c.wiki
"$V" --cache c --no-cache inspect '$.wikis[*].files[*].data' w > 1 2>/dev/null
printf 'a' > w/b.wiki; printf 'a\n' > w/a.wiki; printf '{{{\nx\n}}}' > w/c.wiki
"$V" --cache c inspect '$.wikis[*].files[*].data' w > 2 2>/dev/null
printf 'a' > w/a.wiki; printf 'a\n' > w/b.wiki; printf '{{{\nx\n}}}\n\n' > w/c.wiki
"$V" --cache c inspect '$.wikis[*].files[*].data' w > 3 2>/dev/null
[ -s 1 ] || fail "no output"
cmp 1 3 || fail "the cache changes what is shown"
