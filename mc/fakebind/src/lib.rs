//! Stand-in for wasm-bindgen on the host.
pub mod prelude {
    pub use fakebind_macro::wasm_bindgen;
    /// Stand-in for an opaque JavaScript value.
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct JsValue;
}
pub use prelude::*;
