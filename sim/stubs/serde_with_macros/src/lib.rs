//! Stand-in for `serde_with_macros`: rewrites `#[serde_as(as = "T")]` into `#[serde(with = "...")]`.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::{parse_quote, visit_mut::VisitMut, Attribute, Item, LitStr, Type};

struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Infer(_)) {
            *t = parse_quote!(::serde_with::Same);
        } else {
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
}
fn rewrite(attrs: &mut Vec<Attribute>) {
    let mut out = vec![];
    for a in attrs.drain(..) {
        if !a.path().is_ident("serde_as") {
            out.push(a);
            continue;
        }
        a.parse_nested_meta(|m| {
            let key = m.path.to_token_stream().to_string().replace("r#", "");
            let lit: LitStr = m.value()?.parse()?;
            let mut t: Type = lit.parse()?;
            Infer.visit_type_mut(&mut t);
            let with = quote!(::serde_with::As::<#t>).to_string();
            match key.as_str() {
                "as" => out.push(parse_quote!(#[serde(with = #with)])),
                "serialize_as" => {
                    let w = format!("{with}::serialize");
                    out.push(parse_quote!(#[serde(serialize_with = #w)]))
                }
                "deserialize_as" => {
                    let w = format!("{with}::deserialize");
                    out.push(parse_quote!(#[serde(deserialize_with = #w)]))
                }
                _ => return Err(m.error("unsupported serde_as key")),
            }
            Ok(())
        })
        .expect("serde_as");
    }
    *attrs = out;
}
#[proc_macro_attribute]
pub fn serde_as(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item: Item = syn::parse(input).expect("item");
    match &mut item {
        Item::Struct(s) => s.fields.iter_mut().for_each(|f| rewrite(&mut f.attrs)),
        Item::Enum(e) => e.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(|f| rewrite(&mut f.attrs))),
        _ => {}
    }
    quote!(#item).into()
}
