//! Stand-in for the attribute of wasm-bindgen: types that are exported become
//! values of the stand-in for JavaScript, functions stay as they are.
use proc_macro::{Delimiter, Group, Spacing, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = tokens.iter().position(|t| matches!(t, TokenTree::Ident(i) if matches!(i.to_string().as_str(), "struct" | "enum" | "impl" | "fn")));
    let (kw, name) = match at {
        Some(i) => (tokens[i].to_string(), tokens.get(i + 1).map(|t| t.to_string()).unwrap_or_default()),
        None => return item,
    };
    match kw.as_str() {
        "struct" => {
            let mut out = item;
            let more: TokenStream = format!(
                "impl From<{n}> for ::wasm_bindgen::JsValue {{
                    fn from(x: {n}) -> Self {{ ::wasm_bindgen::__export(\"{n}\", Box::new(x)) }}
                }}
                impl ::wasm_bindgen::convert::FromWasmAbi for {n} {{
                    type Abi = u32;
                    unsafe fn from_abi(p: u32) -> Self {{
                        *::wasm_bindgen::__take(p).downcast::<{n}>().expect(\"class of an exported value\")
                    }}
                }}",
                n = name
            )
            .parse()
            .unwrap();
            out.extend(more);
            out
        }
        "enum" => string_enum(tokens, &name).unwrap_or(item),
        _ => item,
    }
}

/// `enum X { A = "a" }` becomes an enum without values that can tell its text
fn string_enum(tokens: Vec<TokenTree>, name: &str) -> Option<TokenStream> {
    let body = tokens.last().and_then(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.clone()),
        _ => None,
    })?;
    let inner: Vec<TokenTree> = body.stream().into_iter().collect();
    let mut variants = vec![];
    let mut kept = TokenStream::new();
    let mut i = 0;
    while i < inner.len() {
        if let (TokenTree::Ident(v), Some(TokenTree::Punct(p)), Some(TokenTree::Literal(l))) =
            (&inner[i], inner.get(i + 1), inner.get(i + 2))
        {
            if p.as_char() == '=' && p.spacing() == Spacing::Alone && l.to_string().starts_with('"') {
                variants.push((v.to_string(), l.to_string()));
                kept.extend([inner[i].clone()]);
                i += 3;
                continue;
            }
        }
        kept.extend([inner[i].clone()]);
        i += 1;
    }
    if variants.is_empty() {
        return None;
    }
    let hidden: TokenStream = "#[doc(hidden)] __Nonexhaustive,".parse().unwrap();
    // A comma might be missing after the last variant
    let text = kept.to_string();
    if !text.trim_end().ends_with(',') {
        kept.extend(",".parse::<TokenStream>().unwrap());
    }
    kept.extend(hidden);
    let mut out: TokenStream = "#[derive(Clone, Copy, Debug)]".parse().unwrap();
    out.extend(tokens[..tokens.len() - 1].iter().cloned());
    out.extend([TokenTree::Group(Group::new(Delimiter::Brace, kept))]);
    let arms: String = variants.iter().map(|(v, l)| format!("Self::{} => {},", v, l)).collect();
    let more: TokenStream = format!(
        "impl {n} {{ #[doc(hidden)] pub fn __js(&self) -> &'static str {{
            #[allow(unreachable_patterns)]
            match self {{ {arms} _ => \"\" }}
        }} }}
        impl From<{n}> for ::wasm_bindgen::JsValue {{
            fn from(x: {n}) -> Self {{ ::wasm_bindgen::JsValue::from_str(x.__js()) }}
        }}",
        n = name,
        arms = arms
    )
    .parse()
    .unwrap();
    out.extend(more);
    Some(out)
}
