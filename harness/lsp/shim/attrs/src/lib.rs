//! Attributes and derives of stand-ins.
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// `tower_lsp::async_trait`: async functions in traits need no help any more.
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
/// `tracing::instrument`
#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

/// What a type is called, and what is between its braces.
fn parts(item: TokenStream) -> (String, Vec<TokenTree>) {
    let mut it = item.into_iter();
    let mut name = String::new();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" || i.to_string() == "enum" => {
                name = it.next().expect("a name").to_string();
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                return (name, g.stream().into_iter().collect());
            }
            _ => {}
        }
    }
    (name, vec![])
}
/// The first name of each part between commas, that is not part of an attribute or `pub`.
fn names(body: Vec<TokenTree>) -> Vec<String> {
    let mut out = vec![];
    let (mut fresh, mut angle, mut skip) = (true, 0, false);
    for t in body {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => skip = true,
            TokenTree::Punct(p) if p.as_char() == '<' => angle += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => angle -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && angle == 0 => fresh = true,
            TokenTree::Group(_) if skip => skip = false,
            TokenTree::Ident(i) if fresh && i.to_string() != "pub" => {
                out.push(i.to_string());
                fresh = false;
            }
            _ => {}
        }
    }
    out
}

/// `struct_field_names_as_array::FieldNamesAsArray`
#[proc_macro_derive(FieldNamesAsArray, attributes(field_names_as_array))]
pub fn field_names(item: TokenStream) -> TokenStream {
    let (name, body) = parts(item);
    let fields = names(body);
    format!(
        "impl ::struct_field_names_as_array::FieldNamesAsArray for {name} {{
            type FieldNames = [&'static str; {n}];
            const FIELD_NAMES_AS_ARRAY: Self::FieldNames = {fields:?};
        }}",
        n = fields.len()
    )
    .parse()
    .unwrap()
}

/// `strum::IntoStaticStr`
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(item: TokenStream) -> TokenStream {
    let (name, body) = parts(item);
    let arms: String = names(body).iter().map(|v| format!("{name}::{v} {{ .. }} => {v:?},\n")).collect();
    let f = format!("fn from(it: IT) -> &'static str {{ match it {{ {arms} }} }}");
    format!(
        "impl From<{name}> for &'static str {{ {} }}
         impl<'a> From<&'a {name}> for &'static str {{ {} }}",
        f.replace("IT", &name),
        f.replace("IT", &format!("&'a {name}"))
    )
    .parse()
    .unwrap()
}
