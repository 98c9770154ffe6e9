//! Stand-in for uniffi: what the generated scaffolding contributes to the crate's own source.
pub use anyhow::Result;
pub use anyhow as deps_anyhow;

#[macro_export]
macro_rules! include_scaffolding {
    ($name:literal) => {
        /// Converts between a type and its representation in the foreign language.
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> $crate::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}
