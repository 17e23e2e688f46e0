//! Tables of all typed writers.
pub mod collections;
mod document;
mod graphics;
mod interactive;
pub use document::{document, roles, roles2};
pub use graphics::{device, graphics};
pub use interactive::interactive;
