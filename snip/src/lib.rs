pub use varlen; pub use bumpalo;
