//! Trees of single elements
use crate::walk::{self, Node};
use vimwiki::*;

/// Trees of all types that macros build
pub trait Nodes {
    fn node(&self) -> Node;
    fn written(&self) -> String {
        String::new()
    }
}

impl Nodes for Page<'_> {
    fn node(&self) -> Node {
        walk::page(self)
    }
    fn written(&self) -> String {
        format!("{:?} {:?}", self.to_vimwiki_string(Default::default()).ok(), self.to_html_string(Default::default()).ok())
    }
}

macro_rules! nodes {
    ($($t:ident $f:expr;)*) => {
        $(impl Nodes for Located<$t<'_>> {
            fn node(&self) -> Node {
                let f: fn(&$t) -> Node = $f;
                f(self.as_inner()).at(self.region())
            }
        })*
    };
}

fn block<'a>(b: impl Into<BlockElement<'a>>) -> Node {
    walk::block(&b.into())
}
fn inline<'a>(b: impl Into<InlineElement<'a>>) -> Node {
    walk::inline(&b.into())
}

nodes! {
    BlockElement walk::block;
    InlineElementContainer |x| Node::new("container").k(walk::container(x));
    InlineElement walk::inline;
    Blockquote |x| block(x.clone());
    Comment |x| inline(x.clone());
    LineComment |x| inline(Comment::Line(x.clone()));
    MultiLineComment |x| inline(Comment::MultiLine(x.clone()));
    DefinitionList |x| block(x.clone());
    Header |x| block(x.clone());
    Link |x| inline(x.clone());
    List |x| block(x.clone());
    ListItem walk::item;
    CodeInline |x| inline(x.clone());
    MathInline |x| inline(x.clone());
    MathBlock |x| block(x.clone());
    Paragraph |x| block(x.clone());
    Placeholder |x| block(x.clone());
    CodeBlock |x| block(x.clone());
    Table |x| block(x.clone());
    Tags |x| inline(x.clone());
    DecoratedText walk::decorated;
    Text |x| inline(x.clone());
}
impl Nodes for Located<Divider> {
    fn node(&self) -> Node {
        block(self.as_inner().clone()).at(self.region())
    }
}
impl Nodes for Located<Keyword> {
    fn node(&self) -> Node {
        inline(self.as_inner().clone()).at(self.region())
    }
}
