//! The protocol of Typst plugins (https://typst.app/docs/reference/foundations/plugin/),
//! in place of the crate that is not available offline.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro]
pub fn initiate_protocol(_: TokenStream) -> TokenStream {
    r#"
    #[link(wasm_import_module = "typst_env")]
    extern "C" {
        #[link_name = "wasm_minimal_protocol_write_args_to_buffer"]
        fn __write_args_to_buffer(ptr: *mut u8);
        #[link_name = "wasm_minimal_protocol_send_result_to_host"]
        fn __send_result_to_host(ptr: *const u8, len: usize);
    }
    "#
    .parse()
    .unwrap()
}
/// A function of byte strings, to a result.
#[proc_macro_attribute]
pub fn wasm_func(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut count = 0;
    let mut toks = item.clone().into_iter();
    while let Some(t) = toks.next() {
        if t.to_string() == "fn" {
            name = toks.next().map(|t| t.to_string());
            if let Some(TokenTree::Group(g)) = toks.next() {
                count = g.stream().into_iter().filter(|t| t.to_string() == ":").count();
            }
            break;
        }
    }
    let name = name.expect("a function");
    let list = |f: &dyn Fn(usize) -> String| (0..count).map(f).collect::<Vec<_>>().join(", ");
    let wrapper = format!(
        r#"
        #[export_name = "{name}"]
        pub extern "C" fn __plugin_{name}({params}) -> i32 {{
            let lens: [usize; {count}] = [{lens}];
            let mut buf = vec![0u8; lens.iter().sum()];
            unsafe {{ __write_args_to_buffer(buf.as_mut_ptr()) }};
            let mut at = 0;
            let mut args: [&[u8]; {count}] = [&[]; {count}];
            for (i, l) in lens.iter().enumerate() {{
                args[i] = &buf[at..at + l];
                at += l;
            }}
            let (code, out) = match {name}({call}) {{
                Ok(v) => (0, v),
                Err(e) => (1, e.into_bytes()),
            }};
            unsafe {{ __send_result_to_host(out.as_ptr(), out.len()) }};
            code
        }}
        "#,
        params = list(&|i| format!("l{i}: usize")),
        lens = list(&|i| format!("l{i}")),
        call = list(&|i| format!("args[{i}]")),
    );
    let mut out = item;
    out.extend(wrapper.parse::<TokenStream>().unwrap());
    out
}
