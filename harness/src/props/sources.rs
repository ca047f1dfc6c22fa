//! Where the command line tool has its wikis from: the configuration file,
//! vim (a stand-in of its own) and the paths it is given.
use super::cli::*;
use super::*;
use serde_json::json;
use std::fs;

/// the list that vim has; None when there is no vim
const VIM: [(&str, Option<&str>); 9] = [
    ("no vim", None),
    ("unset", Some("0")),
    ("empty", Some("[]")),
    ("one", Some(r#"[{"path": "@/v1", "path_html": "@/hv1", "name": "V"}]"#)),
    ("two", Some(r#"[{"path": "@/v1/", "path_html": "@/hv1"}, {"path": "~/v2", "path_html": "@/hv2/", "name": "c", "ext": "md", "auto_toc": 1, "css_name": "k.css"}]"#)),
    ("defaults", Some(r#"[{}, {"path": "@/v1"}]"#)),
    ("relative", Some(r#"[{"path": "v1"}]"#)),
    ("no list", Some(r#"{"path": "/v1"}"#)),
    ("broken", Some("[{")),
];
fn vim_wikis(i: usize) -> Vec<W> {
    let d = |path, html| w(path, html);
    match VIM[i].0 {
        "one" => vec![W { name: Some("V"), ..d("v1", "hv1") }],
        "two" => vec![d("v1", "hv1"), W { name: Some("c"), ext: "md", ..d("home/v2", "hv2") }],
        "defaults" => vec![d("home/vimwiki", "home/vimwiki_html"), d("v1", "home/vimwiki_html")],
        _ => vec![],
    }
}
/// None: no configuration file
const CONF: [Option<usize>; 4] = [None, Some(0), Some(1), Some(2)];
fn conf_wikis() -> Vec<W> {
    vec![W { name: Some("c"), ..w("c1", "hc1") }, w("c2", "hc2")]
}
const EXTRA: [(&str, &[&str]); 8] = [
    ("none", &[]),
    ("file", &["x/f.wiki"]),
    ("dir", &["y"]),
    ("both", &["x/f.wiki", "y"]),
    ("other order", &["y", "x/f.wiki"]),
    ("two files", &["x/f.wiki", "x/g.wiki"]),
    ("missing", &["nope"]),
    ("dots", &["y/../x/./f.wiki"]),
];
const COMMANDS: [&str; 3] = ["inspect", "convert", "serve"];
const DIRS: [&str; 9] = ["v1", "home/v2", "home/vimwiki", "c1", "c2", "x", "y", "y/s", "other"];

/// "<config> <vim> <merge> <extra> <include> <command>"
fn case_of(f: &[usize]) -> Check {
    let world = World::new();
    let (conf, vim, merge, extra, include, command) = (CONF[f[0]], f[1], f[2] == 1, EXTRA[f[3]].1, f[4], COMMANDS[f[5]]);
    world.mkdir("home");
    for d in DIRS {
        for n in ["f.wiki", "g.wiki", "f.md"] {
            world.write(&format!("{}/{}", d, n), format!("= {} =\n[[wiki0:f]] [[/g]]\n", d).as_bytes());
        }
    }
    let mut path = "/nonexistent".to_string();
    if let Some(j) = VIM[vim].1 {
        let j = j.replace('@', world.dir.to_str().unwrap());
        world.write("list.json", j.as_bytes());
        world.write("home/.config/nvim/init.vim", b"");
        world.write("bin/nvim", format!("#!/bin/sh\ncase \"$*\" in *g:*vimwiki_list*) /bin/cat {} ;; esac\n", world.s("list.json")).as_bytes());
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(world.p("bin/nvim"), fs::Permissions::from_mode(0o755)).expect("chmod");
        path = format!("{}:/usr/bin:/bin", world.s("bin"));
    }
    let mine: Vec<W> = conf_wikis().into_iter().take(conf.unwrap_or(0)).collect();
    if conf.is_some() {
        world.write("c.toml", toml(&world, &mine).as_bytes());
    }
    // the model
    let mut ws: Vec<W> = vec![];
    if mine.is_empty() || merge {
        ws.extend(vim_wikis(vim));
    }
    ws.extend(mine);
    let missing = extra.iter().any(|e| e.starts_with("nope"));
    let mut named: Vec<&str> = vec![];
    for e in extra {
        if e.contains("x/") {
            ws.push(w("x", "home/vimwiki_html"));
            named.push(if e.ends_with("g.wiki") { "x/g.wiki" } else { "x/f.wiki" });
        } else {
            ws.push(w("y", "home/vimwiki_html"));
            named.extend(["y/f.wiki", "y/g.wiki", "y/s/f.wiki", "y/s/g.wiki"]);
        }
    }
    let inc = |i: usize, x: &W| match include {
        0 => true,
        1 => i == 0,
        2 => i == 1,
        _ => x.name == Some("c"),
    };

    let before = world.files("");
    let (cf, cache) = (world.s("c.toml"), world.s("cache"));
    let mut args = vec!["--cache", &cache];
    if conf.is_some() {
        args.extend(["-c", &cf]);
    }
    if merge {
        args.push("--merge");
    }
    match include {
        0 => {}
        1 => args.push("--include=0"),
        2 => args.push("--include=1"),
        _ => args.push("--include=c"),
    }
    args.push(command);
    if command == "inspect" {
        args.push("$");
    }
    args.extend(extra.iter());
    let o = world.run_path(&args, "", &path);
    let mut after = world.files("");
    after.retain(|k, _| !k.starts_with("cache/"));
    if missing {
        if o.ok() {
            return Err(format!("a run with a missing path succeeds: {}", o.describe()));
        }
        diff("files after a failure", &after, &before)?;
        return Ok(seen(&"missing"));
    }
    if !o.ok() {
        return Err(format!("the run failed: {}", o.describe()));
    }
    let mut want = before;
    match command {
        "inspect" => {
            let v: serde_json::Value = serde_json::from_slice(&o.out).map_err(|e| format!("inspect gave no JSON: {}", e))?;
            let got: Vec<_> = v[0]["wikis"]
                .as_array()
                .ok_or("no list of wikis")?
                .iter()
                .map(|x| {
                    let mut fs: Vec<String> = x["files"].as_array().map(|a| a.iter().map(|y| y["path"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                    fs.sort();
                    json!([x["index"], x["name"], x["path"], fs])
                })
                .collect();
            let want: Vec<_> = ws
                .iter()
                .enumerate()
                .filter(|(i, x)| inc(*i, x))
                .map(|(i, x)| {
                    let fs: Vec<String> = world.files(x.path).into_keys().filter(|k| k.ends_with(&format!(".{}", x.ext))).map(|k| world.s(&format!("{}/{}", x.path, k))).collect();
                    let mut fs = fs;
                    fs.sort();
                    json!([i, x.name, world.s(x.path), fs])
                })
                .collect();
            if got != want {
                return Err(format!("the wikis are {}\ninstead of {}", json!(got), json!(want)));
            }
        }
        "convert" => {
            let mut c = config(&world, &ws);
            if conf.is_none() {
                c.template = Default::default();
            }
            if VIM[vim].0 == "two" {
                for k in c.wikis.iter_mut() {
                    if k.ext == "md" {
                        k.css_name = "k.css".into();
                    }
                }
            }
            let mut pages: Vec<String> = named.iter().map(|x| x.to_string()).collect();
            if extra.is_empty() {
                pages.clear();
                for (_, x) in ws.iter().enumerate().filter(|(i, x)| inc(*i, x)) {
                    pages.extend(world.files(x.path).into_keys().filter(|k| k.ends_with(&format!(".{}", x.ext))).map(|k| format!("{}/{}", x.path, k)));
                }
            }
            // two wikis may have the same place for their output: the later wins
            for p in pages {
                let i = c.find_wiki_index_by_path(&world.p(&p)).ok_or("page of no wiki")?;
                let t = String::from_utf8_lossy(&want[&p]).into_owned();
                let rel = p.strip_prefix(&format!("{}/", ws[i].path)).ok_or("bad case")?;
                let out = format!("{}/{}.html", ws[i].html, rel.rsplit_once('.').unwrap().0);
                want.insert(out, page_html(&c, Some(i), &world.p(&p), &t)?);
            }
        }
        _ => {}
    }
    // nothing else is written
    after.retain(|k, _| command != "inspect" || !k.is_empty());
    diff("files", &after, &want)?;
    Ok(seen(&(f[5], ws.iter().map(|x| (x.path, x.html)).collect::<Vec<_>>(), include, &named)))
}

pub struct Sources;
impl Prop for Sources {
    fn id(&self) -> &'static str {
        "P38"
    }
    fn rule(&self) -> &'static str {
        "every combination of configuration file, list of wikis in vim (a stand-in program that prints it), --merge, paths given, --include and command is one run of the tool; every case is non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["paths given lie outside of the wikis configured; neovim is replaced by a program that prints the list"]
    }
    fn spaces(&self, t: Tier) -> Vec<Space> {
        let mut v = vec![];
        for c in 0..CONF.len() {
            for vim in 0..VIM.len() {
                for m in 0..2 {
                    for e in 0..EXTRA.len() {
                        for i in 0..4 {
                            for k in 0..COMMANDS.len() {
                                if t == Tier::Quick && ((e > 3 && i > 0) || (k == 2 && (e > 1 || i > 0)) || (vim > 5 && e > 1)) {
                                    continue;
                                }
                                v.push(format!("{} {} {} {} {} {}", c, vim, m, e, i, k));
                            }
                        }
                    }
                }
            }
        }
        vec![cases("sources of wikis", v)]
    }
    fn check(&self, case: &str) -> Check {
        let f: Vec<usize> = case.split(' ').map(|x| x.parse().unwrap()).collect();
        case_of(&f)
    }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Sources)]
}
