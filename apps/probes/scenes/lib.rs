
#[doc(hidden)]
pub use picking::probe as picking_probe;
