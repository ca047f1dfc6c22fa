#!/usr/bin/env python3
# mkseed.py ID PROPERTY < spec ; spec: json {edits:[[file,old,new]...], needs, breaks, demo}
import sys, json, os, subprocess
id_, prop = sys.argv[1:3]
spec = json.load(sys.stdin) if False else eval(sys.stdin.read())
C = '/tmp/plant/repo'
subprocess.run(['git', '-C', C, 'checkout', '-q', '--', '.'], check=True)
subprocess.run(['git', '-C', C, 'fetch', '-q', '/repo', 'HEAD'], check=True)
subprocess.run(['git', '-C', C, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
for f, old, new in spec['edits']:
    p = os.path.join(C, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
d = subprocess.run(['git', '-C', C, 'diff'], check=True, capture_output=True, text=True).stdout
subprocess.run(['git', '-C', C, 'checkout', '-q', '--', '.'], check=True)
S = '/verif/seeded/' + id_
os.makedirs(S, exist_ok=True)
open(S + '/patch.diff', 'w').write(d)
sh = spec.get('sh')
if sh is None:
    open(S + '/demo.rs', 'w').write(spec['demo'])
    crate = 'vimwiki = { path = "$R/vimwiki", features = ["html", "macros"] }' if 'vimwiki::' in spec['demo'] else 'vimwiki-core = { path = "$R/vimwiki-core", features = ["html"] }'
    sh = open('/verif/tools/demo_lib.sh').read()
    if 'vimwiki_wasm::' in spec['demo']:
        # the library itself is only built as cdylib
        crate = 'vimwiki-wasm = { path = "b" }'
        sh = sh.replace('cd "$W" || exit 3\n', '''mkdir "$W/b"
cat > "$W/b/Cargo.toml" <<T
[package]
name = "vimwiki-wasm"
version = "0.1.1"
edition = "2018"
[lib]
path = "$R/vimwiki-wasm/src/lib.rs"
[dependencies]
js-sys = "0.3.51"
wasm-bindgen = { version = "0.2.74", features = ["serde-serialize"] }
vimwiki = { path = "$R/vimwiki", features = ["html"] }
T
cd "$W" || exit 3
''')
    if 'serde_json' in spec['demo']:
        crate += '\nserde_json = "1"'
    sh = sh.replace('@DEP@', crate)
else:
    sh = open('/verif/tools/demo_cli.sh').read() + sh
open(S + '/demo.sh', 'w').write(sh)
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(S + '/meta.json', 'w'), indent=1)
