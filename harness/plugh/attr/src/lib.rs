use proc_macro::TokenStream;
/// Stands in for swc's plugin entry point: the function stays what it is.
#[proc_macro_attribute]
pub fn plugin_transform(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
