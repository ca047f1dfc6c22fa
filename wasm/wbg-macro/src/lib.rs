//! Stand-in for `#[wasm_bindgen]`: functions and methods stay as they are,
//! structs can become JavaScript values, enums of strings become plain enums.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut kind = None;
    for (i, t) in toks.iter().enumerate() {
        if let TokenTree::Ident(x) = t {
            match x.to_string().as_str() {
                "struct" | "enum" => {
                    kind = Some((x.to_string(), i));
                    break;
                }
                "pub" => continue,
                _ => return item,
            }
        }
    }
    let (kind, at) = match kind {
        Some(x) => x,
        None => return item,
    };
    let name = toks[at + 1].to_string();
    if kind == "struct" {
        let extra = format!(
            "impl From<{n}> for ::wasm_bindgen::JsValue {{ fn from(x: {n}) -> Self {{ ::wasm_bindgen::JsValue::__own(\"{n}\", x) }} }}
             impl ::wasm_bindgen::convert::FromWasmAbi for {n} {{ type Abi = u32; unsafe fn from_abi(x: u32) -> Self {{ ::wasm_bindgen::__take(x) }} }}",
            n = name
        );
        let mut out = item;
        out.extend(extra.parse::<TokenStream>().unwrap());
        return out;
    }
    let body = toks.iter().find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    });
    let body: Vec<TokenTree> = body.unwrap().into_iter().collect();
    let mut variants = vec![];
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => i += 2,
            TokenTree::Ident(v) => {
                let has = matches!(body.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '=');
                variants.push((v.to_string(), if has { body[i + 2].to_string() } else { format!("{:?}", v.to_string()) }));
                i += if has { 3 } else { 1 };
            }
            _ => i += 1,
        }
    }
    format!(
        "#[derive(Clone, Copy, Debug, PartialEq, Eq)] #[non_exhaustive] pub enum {n} {{ {}, #[doc(hidden)] __Invalid }}
         impl {n} {{ pub fn __js(&self) -> &'static str {{ match self {{ {} Self::__Invalid => \"\" }} }} }}
         impl From<{n}> for ::wasm_bindgen::JsValue {{ fn from(x: {n}) -> Self {{ ::wasm_bindgen::JsValue::from_str(x.__js()) }} }}",
        variants.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", "),
        variants.iter().map(|v| format!("Self::{} => {},", v.0, v.1)).collect::<String>(),
        n = name
    )
    .parse()
    .unwrap()
}
