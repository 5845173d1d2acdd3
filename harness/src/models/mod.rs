pub mod css;
pub mod dom;
pub mod font;
pub mod layout;
pub mod refdom;
pub mod sel;
pub mod png;
