pub mod prelude { pub use wasm_bindgen_macro::wasm_bindgen; }
