//! `#[tokio::main]` for the simulator: the async main stays an async function, made public, so
//! that the scenario can run it as a simulated task.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let already = toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "pub"))
        && !matches!(&toks[0], TokenTree::Ident(i) if i.to_string() == "async" || i.to_string() == "fn");
    // Insert `pub` in front of the first `async`.
    let mut out = TokenStream::new();
    let mut done = already;
    for t in toks {
        if !done {
            if let TokenTree::Ident(i) = &t {
                if i.to_string() == "async" {
                    out.extend("pub".parse::<TokenStream>().unwrap());
                    done = true;
                }
            }
        }
        out.extend([t]);
    }
    out
}

#[proc_macro_attribute]
pub fn test(_args: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
