// Stand-in: the attributes leave the item as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn pyo3(_a: TokenStream, item: TokenStream) -> TokenStream { item }
