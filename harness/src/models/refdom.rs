//! A plain document tree built by html5ever's tree construction: parents and lists of children,
//! each operation written as the HTML specification words it.
use super::dom::{El, Node};
use html5ever::interface::tree_builder::{ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::tendril::{StrTendril, TendrilSink};
use html5ever::{Attribute, ExpandedName, QualName};
use std::borrow::Cow;

pub enum Data {
    Document,
    Other,
    Text(String),
    Element { name: QualName, attrs: Vec<Attribute>, template: Option<usize>, annotation: bool },
}
pub struct N {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub data: Data,
}
/// Node 0 is the document
pub struct RefDom {
    pub nodes: Vec<N>,
    /// operations: appended before a sibling, moved, reparented, attributes added, text merged
    pub ops: [u64; 5],
}

impl RefDom {
    pub fn parse(src: &[u8]) -> RefDom {
        let mut d = RefDom { nodes: vec![], ops: [0; 5] };
        d.new(Data::Document);
        html5ever::parse_document(d, Default::default()).from_utf8().one(src)
    }
    fn new(&mut self, data: Data) -> usize {
        self.nodes.push(N { parent: None, children: vec![], data });
        self.nodes.len() - 1
    }
    fn remove(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].children.retain(|c| *c != n);
            self.ops[1] += 1
        }
    }
    fn insert(&mut self, parent: usize, before: Option<usize>, child: NodeOrText<usize>) {
        if let NodeOrText::AppendNode(n) = child {
            self.remove(n)
        }
        let at = match before {
            Some(b) => self.nodes[parent].children.iter().position(|c| *c == b).unwrap(),
            None => self.nodes[parent].children.len(),
        };
        let n = match child {
            NodeOrText::AppendNode(n) => n,
            NodeOrText::AppendText(t) => {
                if at > 0 {
                    let prev = self.nodes[parent].children[at - 1];
                    if let Data::Text(s) = &mut self.nodes[prev].data {
                        s.push_str(&t);
                        self.ops[4] += 1;
                        return;
                    }
                }
                self.new(Data::Text(t.to_string()))
            }
        };
        self.nodes[n].parent = Some(parent);
        self.nodes[parent].children.insert(at, n)
    }
    pub fn root(&self) -> usize {
        *self.nodes[0].children.iter().find(|c| matches!(self.nodes[**c].data, Data::Element { .. })).unwrap()
    }
    /// In tree order
    pub fn walk(&self, n: usize, f: &mut dyn FnMut(usize)) {
        f(n);
        for c in &self.nodes[n].children {
            self.walk(*c, f)
        }
    }
    /// As the tree of the layout model; ids are node indices
    pub fn el(&self, n: usize) -> El {
        let mut e = match &self.nodes[n].data {
            Data::Element { name, attrs, .. } => {
                let mut e = El::new(&name.local);
                for a in attrs {
                    if a.name.ns == html5ever::Namespace::from("") {
                        e.attrs.push((a.name.local.to_string(), a.value.to_string()))
                    }
                }
                e
            }
            _ => unreachable!(),
        };
        e.id = n;
        for c in &self.nodes[n].children {
            match &self.nodes[*c].data {
                Data::Element { .. } => e.children.push(Node::El(self.el(*c))),
                Data::Text(t) => e.children.push(Node::Text(t.clone())),
                _ => e.children.push(Node::Comment(String::new())),
            }
        }
        e
    }
}

impl TreeSink for RefDom {
    type Handle = usize;
    type Output = RefDom;
    fn finish(self) -> RefDom {
        self
    }
    fn parse_error(&mut self, _: Cow<'static, str>) {}
    fn get_document(&mut self) -> usize {
        0
    }
    fn set_quirks_mode(&mut self, _: QuirksMode) {}
    fn same_node(&self, x: &usize, y: &usize) -> bool {
        x == y
    }
    fn elem_name<'a>(&'a self, t: &'a usize) -> ExpandedName<'a> {
        match &self.nodes[*t].data {
            Data::Element { name, .. } => name.expanded(),
            _ => panic!(),
        }
    }
    fn get_template_contents(&mut self, t: &usize) -> usize {
        match &self.nodes[*t].data {
            Data::Element { template: Some(c), .. } => *c,
            _ => panic!(),
        }
    }
    fn is_mathml_annotation_xml_integration_point(&self, t: &usize) -> bool {
        matches!(&self.nodes[*t].data, Data::Element { annotation: true, .. })
    }
    fn create_element(&mut self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> usize {
        let template = if flags.template { Some(self.new(Data::Document)) } else { None };
        self.new(Data::Element { name, attrs, template, annotation: flags.mathml_annotation_xml_integration_point })
    }
    fn create_comment(&mut self, _: StrTendril) -> usize {
        self.new(Data::Other)
    }
    fn create_pi(&mut self, _: StrTendril, _: StrTendril) -> usize {
        self.new(Data::Other)
    }
    fn append(&mut self, p: &usize, c: NodeOrText<usize>) {
        self.insert(*p, None, c)
    }
    fn append_before_sibling(&mut self, s: &usize, c: NodeOrText<usize>) {
        self.ops[0] += 1;
        let p = self.nodes[*s].parent.unwrap();
        self.insert(p, Some(*s), c)
    }
    fn append_based_on_parent_node(&mut self, e: &usize, prev: &usize, c: NodeOrText<usize>) {
        if self.nodes[*e].parent.is_some() {
            self.append_before_sibling(e, c)
        } else {
            self.append(prev, c)
        }
    }
    fn append_doctype_to_document(&mut self, _: StrTendril, _: StrTendril, _: StrTendril) {
        let n = self.new(Data::Other);
        self.insert(0, None, NodeOrText::AppendNode(n))
    }
    fn add_attrs_if_missing(&mut self, t: &usize, new: Vec<Attribute>) {
        self.ops[3] += 1;
        if let Data::Element { attrs, .. } = &mut self.nodes[*t].data {
            for a in new {
                if !attrs.iter().any(|b| b.name == a.name) {
                    attrs.push(a)
                }
            }
        }
    }
    fn remove_from_parent(&mut self, t: &usize) {
        self.remove(*t)
    }
    fn reparent_children(&mut self, n: &usize, p: &usize) {
        self.ops[2] += 1;
        for c in self.nodes[*n].children.clone() {
            self.insert(*p, None, NodeOrText::AppendNode(c))
        }
    }
}
