//! `Pod` / `Zeroable` derives without the layout (padding) checks.
use proc_macro::TokenStream;
use quote::quote;
fn imp(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(input as syn::DeriveInput);
    let n = &i.ident;
    let (a, b, c) = i.generics.split_for_impl();
    quote!(unsafe impl #a #tr for #n #b #c {}).into()
}
macro_rules! d { ($f:ident, $t:ident) => {
    #[proc_macro_derive($t)]
    pub fn $f(i: TokenStream) -> TokenStream { imp(i, quote!(::bytemuck::$t)) }
} }
d!(pod, Pod);
d!(zeroable, Zeroable);
d!(nouninit, NoUninit);
d!(abp, AnyBitPattern);
macro_rules! unused { ($f:ident, $t:ident) => {
    #[proc_macro_derive($t)]
    pub fn $f(_: TokenStream) -> TokenStream { panic!("bytemuck_derive stub") }
} }
unused!(byte_eq, ByteEq);
unused!(byte_hash, ByteHash);
unused!(cbp, CheckedBitPattern);
unused!(contiguous, Contiguous);
unused!(tw, TransparentWrapper);
