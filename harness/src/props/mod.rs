use crate::engine::*;
use crate::tree;
use vimwiki_core::*;

pub mod api;
pub mod basic;
pub mod cli;
pub mod compose;
pub mod config;
pub mod grammar;
pub mod html;
pub mod linkdata;
pub mod links;
pub mod macros;
pub mod options;
pub mod parts;
pub mod single;
pub mod sources;
pub mod spaces;
#[cfg(feature = "wasm")]
pub mod wasm;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    v.extend(basic::all());
    v.extend(api::all());
    v.extend(html::all());
    v.extend(grammar::all());
    v.extend(compose::all());
    v.extend(links::all());
    v.extend(cli::all());
    v.extend(macros::all());
    v.extend(options::all());
    v.extend(single::all());
    v.extend(parts::all());
    v.extend(linkdata::all());
    v.extend(sources::all());
    v.extend(config::all());
    #[cfg(feature = "wasm")]
    v.extend(wasm::all());
    v
}

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    all().into_iter().find(|p| p.id() == id)
}

/// Parses a whole page; a panic or an error is reported as text.
pub fn parse(s: &str) -> Result<Page<'_>, String> {
    match imp("page parser", || Language::from_vimwiki_str(s).parse::<Page>())? {
        Ok(p) => Ok(p),
        Err(e) => {
            let m = e.to_string();
            Err(format!("page parser returned an error: {}", one_line(&m)))
        }
    }
}

pub fn format(p: &Page) -> Result<String, String> {
    format_with(p, VimwikiConfig::default())
}
pub fn format_with(p: &Page, c: VimwikiConfig) -> Result<String, String> {
    imp("vimwiki output", || p.to_vimwiki_string(c))?.map_err(|e| format!("vimwiki output failed: {}", e))
}
pub fn html(p: &Page, c: HtmlConfig) -> Result<String, String> {
    imp("html output", || p.to_html_string(c))?.map_err(|e| format!("html output failed: {}", e))
}

pub fn show(s: &str) {
    match parse(s) {
        Err(e) => println!("ERR {}", e),
        Ok(p) => {
            let t = tree::page(&p);
            println!("tree: {}", t.show());
            t.walk(&mut |n| {
                if let Some((o, l, d)) = n.region {
                    println!("  {:>3}+{:<3} d{} {} {:?}", o, l, d, n.kind, s.get(o..o + l));
                }
            });
            match format(&p) {
                Ok(f) => println!("vimwiki: {:?}", f),
                Err(e) => println!("vimwiki ERR {}", e),
            }
            match html(&p, HtmlConfig::default()) {
                Ok(f) => println!("html: {}", f),
                Err(e) => println!("html ERR {}", e),
            }
        }
    }
}
