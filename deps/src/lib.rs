pub use {bitter, encoding_rs, fnv, phf, serde};
