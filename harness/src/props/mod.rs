use crate::engine::Prop;
pub mod common;
pub mod css;
pub mod decls;
pub mod dom;
pub mod fonts;
pub mod layout;
pub mod lester;
pub mod page;
pub mod pdf;
pub mod resources;
pub mod robust;
pub mod schedule;
pub mod textplain;
pub mod writers;

pub fn all() -> Vec<Prop> {
    vec![
        robust::html(),
        pdf::structure(),
        pdf::fidelity(),
        pdf::embedding(),
        fonts::tables(),
        fonts::robust(),
        fonts::shaping(),
        textplain::prop(),
        dom::html_tree(),
        dom::links(),
        dom::xml(),
        css::recovery(),
        css::cascade(),
        css::selectors(),
        css::computed(),
        schedule::prop(),
        layout::widths(),
        layout::stacking(),
        layout::inline(),
        layout::positioning(),
        layout::boxes(),
        layout::painting(),
        lester::png_files(),
        lester::streams(),
        lester::rendering(),
        lester::pages(),
        writers::prop(),
        resources::prop(),
    ]
}
