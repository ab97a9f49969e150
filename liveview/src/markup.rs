//! C26: markup against the element tree it describes.

use std::collections::{BTreeMap, HashMap};

use puck_liveview::{
    dom::{element::Element, listener::ListenerRef},
    html::id::IdGen,
    prelude::*,
};
use serde::Serialize;
use serde_json::json;

use crate::{ctx::Ctx, ensure, rng::Rng};

#[derive(Clone, Debug, Serialize)]
struct Node {
    kind: &'static str,
    text: Option<String>,
    attrs: BTreeMap<String, String>,
    listeners: Vec<(String, String)>,
    children: Vec<Node>,
}

const CONTAINERS: &[&str] = &["div", "form", "p", "input"];
const LEAVES: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6", "a", "label", "br", "img"];
const HEADINGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6", "label"];

fn text(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => String::new(),
        1 => "a & <b> \"c\"".into(),
        _ => rng.text(12),
    }
}

fn node(rng: &mut Rng, kind: &'static str) -> Node {
    let mut n = Node { kind, text: None, attrs: BTreeMap::new(), listeners: vec![], children: vec![] };
    if HEADINGS.contains(&kind) || kind == "a" || kind == "p" {
        n.text = Some(text(rng));
    }
    let names: &[&str] = match kind {
        "div" => &["id", "class", "style", "data-x", "anything", ""],
        "p" => &["id", "class"],
        "form" => &["action", "style"],
        "input" => &["name", "placeholder", "id", "class", "value", "style"],
        "a" => &["href", "id", "style"],
        "img" => &["alt", "src"],
        "br" => &[],
        _ => &["class", "id", "style", "data-x", "anything"],
    };
    if !names.is_empty() {
        for _ in 0..rng.below(4) {
            let k = rng.pick(names).to_string();
            let v = text(rng);
            n.attrs.insert(k, v);
        }
    }
    if kind != "br" {
        for _ in 0..rng.below(5).saturating_sub(2) {
            let name = format!("{}{}", rng.text(4), rng.below(100));
            n.listeners.push((name, rng.pick(&["click", "submit", "input"]).to_string()));
        }
    }
    n
}

/// A tree with so many nodes.
fn grow(rng: &mut Rng, size: usize, deep: bool) -> Node {
    let kind = rng.pick(if size > 1 { CONTAINERS } else { &["div", "form", "p", "input", "h1", "a", "br", "img"] });
    let mut n = node(rng, kind);
    let mut left = size - 1;
    while left > 0 {
        let take = if deep { left.max(2) - rng.below(2) } else { rng.range(1, left) };
        let take = take.clamp(1, left);
        left -= take;
        n.children.push(if take == 1 && !rng.chance(3) {
            let kind = rng.pick(LEAVES);
            node(rng, kind)
        } else {
            grow(rng, take, deep)
        });
    }
    n
}

fn class(v: String) -> Class {
    Class::from(std::borrow::Cow::from(v))
}

fn markup(rng: &mut Rng, n: &Node) -> WrappedBodyNode {
    macro_rules! attrs {
        ($x:expr, $($k:literal => $f:expr),*) => {{
            let mut x = $x;
            for (k, v) in &n.attrs {
                x = match k.as_str() {
                    $($k => x.attribute($f(v.clone())),)*
                    other => unreachable!("{other}"),
                };
            }
            x.wrap()
        }};
    }
    macro_rules! raw {
        ($x:expr) => {{
            let mut x = $x;
            for (k, v) in &n.attrs {
                x = x.raw_attribute(k.clone(), v.clone());
            }
            x.wrap()
        }};
    }
    let t = n.text.clone().unwrap_or_default();
    let mut w = match n.kind {
        "div" => raw!(Div::new()),
        "h1" => raw!(H1::new_unchecked(t)),
        "h2" => raw!(H2::new_unchecked(t)),
        "h3" => raw!(H3::new_unchecked(t)),
        "h4" => raw!(H4::new_unchecked(t)),
        "h5" => raw!(H5::new_unchecked(t)),
        "h6" => raw!(H6::new_unchecked(t)),
        "label" => raw!(Label::new_unchecked(t)),
        "p" => attrs!(P::new_unchecked(t), "id" => Id::new, "class" => class),
        "form" => attrs!(Form::new(), "action" => Action::new, "style" => Style::new),
        "input" => attrs!(Input::new(), "name" => Name::new, "placeholder" => Placeholder::new, "id" => Id::new,
            "class" => class, "value" => Value::new, "style" => Style::new),
        "a" => attrs!(A::default().text_unsanitized(t), "href" => Href::new, "id" => Id::new, "style" => Style::new),
        "img" => {
            let mut x = Img::new();
            for (k, v) in &n.attrs {
                x = if k == "alt" { x.attribute(Alt::new(v.clone())) } else { x.attribute(Src::new(v.clone())) };
            }
            BodyNode::Img(x).wrap()
        },
        "br" => BodyNode::Br(Br).wrap(),
        other => unreachable!("{other}"),
    };
    // listeners and children can be given in any way and order
    let mut children: Vec<WrappedBodyNode> = n.children.iter().map(|c| markup(rng, c)).collect();
    children.reverse();
    let mut listeners = n.listeners.iter();
    loop {
        match rng.below(3) {
            0 => {
                if let Some((name, event)) = listeners.next() {
                    w = w.listener(ListenerRef::new(name, event));
                }
            }
            1 => {
                if let Some(c) = children.pop() {
                    w = w.child(c);
                }
            }
            _ => {
                let k = rng.below(children.len() + 1);
                let some: Vec<_> = (0..k).filter_map(|_| children.pop()).collect();
                w = w.children(some);
            }
        }
        if children.is_empty() && listeners.len() == 0 {
            return w;
        }
    }
}

fn size(n: &Node) -> usize {
    1 + n.children.iter().map(size).sum::<usize>()
}

/// Compares, with the number which the next element has to have.
fn same(n: &Node, e: &Element, next: &mut usize, at: &str) -> Result<(), String> {
    let at = format!("{at}/{}", n.kind);
    ensure!(e.name == n.kind, "at {at}: the tag is {:?}", e.name);
    ensure!(e.id == *next, "at {at}: the id is {} instead of {next}", e.id);
    *next += 1;
    ensure!(
        e.text.as_deref().unwrap_or("") == n.text.as_deref().unwrap_or(""),
        "at {at}: the text is {:?} instead of {:?}", e.text, n.text
    );
    let got: BTreeMap<String, String> = e.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    ensure!(got == n.attrs, "at {at}: the attributes are {got:?} instead of {:?}", n.attrs);
    let got: Vec<(String, String)> =
        e.listeners.iter().map(|l| (l.listener_name().to_string(), l.js_event().to_string())).collect();
    ensure!(got == n.listeners, "at {at}: the listeners are {got:?} instead of {:?}", n.listeners);
    ensure!(
        e.children.len() == n.children.len(),
        "at {at}: there are {} children instead of {}", e.children.len(), n.children.len()
    );
    for (i, (c, d)) in n.children.iter().zip(&e.children).enumerate() {
        same(c, d, next, &format!("{at}[{i}]"))?;
    }
    Ok(())
}

fn unique(e: &Element, seen: &mut HashMap<usize, ()>) -> Result<(), String> {
    ensure!(seen.insert(e.id, ()).is_none(), "two elements have the id {}", e.id);
    e.children.iter().try_for_each(|c| unique(c, seen))
}

fn check(rng: &mut Rng, nodes: &[Node]) -> Result<(), String> {
    let mut ids = IdGen::new();
    let mut again = IdGen::new();
    let mut next = 0;
    let mut seen = HashMap::new();
    for (i, n) in nodes.iter().enumerate() {
        let e = markup(rng, n).into_element(&mut ids);
        same(n, &e, &mut next, &format!("tree {i}, {}", n.kind))?;
        unique(&e, &mut seen)?;
        let f = markup(rng, n).into_element(&mut again);
        ensure!(e == f, "the same markup is turned into another tree the second time");
    }
    Ok(())
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "An execution converts some trees of markup with one generator of ids; two are distinct when their trees differ.".into();
    ctx.section("trees", 3000, |case| {
        let mut rng = case.rng.clone();
        let most = *rng.pick(&[1, 3, 8, 30, 100]);
        let nodes: Vec<Node> = (0..rng.range(1, 3))
            .map(|_| {
                let n = rng.range(1, most);
                let deep = rng.chance(3);
                grow(&mut rng, n, deep)
            })
            .collect();
        case.key(json!(nodes).to_string().as_bytes());
        case.count("trees", nodes.len() as u64);
        case.count("elements", nodes.iter().map(size).sum::<usize>() as u64);
        case.input = json!(nodes);
        check(&mut rng, &nodes)
    });
    let kinds: Vec<&'static str> = CONTAINERS.iter().chain(LEAVES).copied().collect();
    // each kind of node in each kind of container, first, between others, and last
    let n = kinds.len() * CONTAINERS.len() * 3;
    ctx.all("each kind in each container", n as u64, |case| {
        let i = case.index as usize;
        let (kind, outer, place) = (kinds[i / 3 / CONTAINERS.len()], CONTAINERS[i / 3 % CONTAINERS.len()], i % 3);
        let mut rng = case.rng.clone();
        let mut root = node(&mut rng, outer);
        for k in 0..3 {
            let kind = if k == place { kind } else { rng.pick(&kinds) };
            let mut c = node(&mut rng, kind);
            if CONTAINERS.contains(&kind) {
                let inner = rng.pick(&kinds);
                c.children = vec![node(&mut rng, inner), node(&mut rng, "h1")];
            }
            root.children.push(c);
        }
        case.key(json!(root).to_string().as_bytes());
        case.input = json!(root);
        check(&mut rng, &[root])
    });
    ctx.section("deep trees", 10, |case| {
        let mut rng = case.rng.clone();
        let mut root = node(&mut rng, "h1");
        for _ in 0..rng.range(100, 400) {
            let kind = rng.pick(CONTAINERS);
            let mut outer = node(&mut rng, kind);
            outer.children.push(root);
            root = outer;
        }
        case.key(json!(root).to_string().as_bytes());
        case.count("elements", size(&root) as u64);
        check(&mut rng, &[root])
    });
}
