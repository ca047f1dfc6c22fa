#!/bin/bash
# builds the command line tool of the current directory and tries it in a scratch directory
R="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cp -a "$R" "$W/src" && cd "$W/src" && git clean -qfdx 2>/dev/null
CARGO_TARGET_DIR="$W/target" cargo build -q --offline -p vimwiki-cli 2>"$W/log" || { cat "$W/log"; exit 3; }
V="$W/target/debug/vimwiki"
mkdir "$W/t" && cd "$W/t" || exit 3
export HOME="$W/t" XDG_CACHE_HOME="$W/t/cache" XDG_CONFIG_HOME="$W/t/config"
fail() { echo "$*"; exit 1; }

mkdir bin v f; printf 'a\n' > v/a.wiki; printf 'a\n' > f/a.wiki
mkdir -p .config/nvim; : > .config/nvim/init.vim
printf '[{"path": "%s/v"}]' "$PWD" > list.json
printf '#!/bin/sh\ncase "$*" in *g:*vimwiki_list*) /bin/cat "%s/list.json" ;; esac\n' "$PWD" > bin/nvim
chmod +x bin/nvim
unset XDG_CONFIG_HOME
printf '[[wikis]]\npath = "%s/f"\n' "$PWD" > c.toml
PATH="$PWD/bin:$PATH" "$V" --no-cache --merge -c c.toml inspect '$.wikis[*].path' > out 2>err
cat out
python3 - <<'P' || fail "order"
import json
v = json.load(open('out'))
assert len(v) == 2, v
assert v[0].endswith('/v') and v[1].endswith('/f'), v
P
