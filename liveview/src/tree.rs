//! Element trees: generated, changed, turned into puck's elements and into what a page has to show.

use std::collections::{BTreeMap, HashMap};

use puck_liveview::dom::{element::Element, listener::ListenerRef};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::rng::Rng;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Tree {
    pub id: usize,
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    /// Name and event.
    pub listeners: Vec<(String, String)>,
    pub children: Vec<Tree>,
    pub text: Option<String>,
    pub key: Option<String>,
}

pub const EVENTS: [&str; 3] = ["click", "submit", "input"];
const TAGS: &[&str] = &["div", "p", "span", "ul", "li", "h1", "h3", "form", "button", "section", "a", "label", "table", "b"];
const LEAVES: &[&str] = &["input", "img", "br"];
const NAMES: &[&str] = &["class", "title", "data-x", "href", "style", "value", "name", "placeholder", "type", "aria-label", "hidden", "data-id", "for", "id", "data-a.b", "xml:lang", "_x", "data-é", "viewBox"];

/// How a sequence of trees is numbered.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ids {
    /// In document order, from a number on, as by `IdGen`.
    Order(usize),
    /// Each node keeps its number.
    Stable,
    /// Any.
    Random,
    /// Any, with as many digits as there can be.
    Wide,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Keys {
    None,
    All,
    Some,
}

pub struct Gen {
    pub rng: Rng,
    pub ids: Ids,
    pub keys: Keys,
    pub most: usize,
    /// Attributes and text from the whole of Unicode.
    pub odd: bool,
    next_key: usize,
    next_id: usize,
    next_listener: usize,
    given: Vec<(String, String)>,
}

impl Gen {
    pub fn new(mut rng: Rng) -> Self {
        let ids = match rng.below(6) {
            0 => Ids::Stable,
            1 => Ids::Random,
            2 => Ids::Order(*rng.pick(&[1, 7, 50, 95, 120, 250, 990, 32_760, 65_530, 99_990, 1 << 24, (1 << 31) - 5, u32::MAX as usize - 100_000])),
            3 if rng.chance(3) => Ids::Wide,
            _ => Ids::Order(0),
        };
        let keys = match rng.below(5) {
            0 | 1 => Keys::All,
            2 => Keys::Some,
            _ => Keys::None,
        };
        let most = *rng.pick(&[3, 6, 6, 10, 20]);
        let odd = rng.chance(3);
        Gen { rng, ids, keys, most, odd, next_key: 0, next_id: 0, next_listener: 0, given: vec![] }
    }

    fn text(&mut self) -> String {
        if self.rng.chance(150) {
            return self.long();
        }
        if self.odd {
            return self.rng.text(12);
        }
        self.rng.pick(&["", "a", "A", " a", "a ", " ", "hello", "a + b", "<b>x</b>", "&amp;", "two\nlines", "0", "1", "12", "+"]).to_string()
    }

    fn long(&mut self) -> String {
        let n = *self.rng.pick(&[100, 125, 126, 255, 256, 1000, 4096, 65_535, 65_536, 100_000]);
        self.rng.word(b"abcdefghijklmnopqrstuvwxyz+ \n<", n, n + 3)
    }

    fn value(&mut self) -> String {
        if self.rng.chance(150) {
            return self.long();
        }
        if self.odd && self.rng.chance(2) {
            return self.rng.text(10);
        }
        self.rng.pick(&["", "a", "A", " a", "a ", "  ", "b", "x y", "x  y", "a+b", "+", "a+b+c", "\"q\"", "<", "0", "1", "true"]).to_string()
    }

    pub fn listener(&mut self) -> (String, String) {
        // one listener can be there for several elements
        if !self.given.is_empty() && self.rng.chance(5) {
            return self.rng.pick(&self.given).clone();
        }
        self.next_listener += 1;
        let n = self.next_listener;
        let name = match self.rng.below(13) {
            8 => format!(" {n}"),
            9 => format!("listener_{n} "),
            10 => format!("{n}"),
            11 => format!("LISTENER_{}", n.saturating_sub(1)),
            12 => format!("listener_{}", "0".repeat(n % 60)),
            0 => format!("a+b{n}"),
            1 => format!("set \"name\" {n}"),
            2 => format!("é{n}"),
            3 => format!("+{n}+"),
            _ => format!("listener_{n}"),
        };
        self.given.push((name, self.rng.pick(&EVENTS).to_string()));
        self.given.last().unwrap().clone()
    }

    /// Something which is almost the same.
    fn near(&mut self, s: &str) -> String {
        match self.rng.below(7) {
            0 => format!("{s} "),
            1 => format!(" {s}"),
            2 => s.to_uppercase(),
            3 => s.to_lowercase(),
            4 => format!("{s}{s}"),
            5 => s.trim().to_string(),
            _ => {
                let mut s = s.to_string();
                s.pop();
                s
            }
        }
    }

    fn listener_for(&mut self, event: &str) -> (String, String) {
        loop {
            let l = self.listener();
            if l.1 == event {
                return l;
            }
        }
    }

    /// Changes about one in `n` elements.
    pub fn shake(&mut self, t: &mut Tree, n: usize) {
        if self.rng.chance(n) {
            match self.rng.below(4) {
                0 => {
                    let k = self.rng.pick(NAMES).to_string();
                    let v = self.value();
                    t.attrs.insert(k, v);
                }
                1 => {
                    let l = self.listener();
                    t.listeners = vec![l];
                }
                _ if t.is_container() => t.text = Some(self.text()),
                _ => t.attrs.clear(),
            }
        }
        for c in &mut t.children {
            self.shake(c, n);
        }
    }

    pub fn leaf(&mut self) -> Tree {
        let empty = self.rng.chance(6);
        let name = if empty { *self.rng.pick(LEAVES) } else { *self.rng.pick(TAGS) };
        self.next_id += 1;
        self.next_key += 1;
        let mut t = Tree { id: self.next_id, name: name.to_string(), ..Default::default() };
        for _ in 0..self.rng.below(3) {
            let k = self.rng.pick(NAMES).to_string();
            let v = self.value();
            t.attrs.insert(k, v);
        }
        if name == "input" && self.rng.chance(2) {
            let l = self.listener_for("input");
            t.listeners.push(l);
        }
        if self.rng.chance(3) {
            for _ in 0..self.rng.range(1, 2) {
                let l = self.listener();
                t.listeners.push(l);
            }
        }
        if !empty && self.rng.chance(2) {
            t.text = Some(self.text());
        }
        t.key = match self.keys {
            Keys::None => None,
            Keys::All => Some(format!("k{}", self.next_key)),
            Keys::Some => self.rng.chance(2).then(|| format!("k{}", self.next_key)),
        };
        t
    }

    pub fn tree(&mut self) -> Tree {
        let mut t = self.leaf();
        t.name = self.rng.pick(&["div", "div", "form", "p"]).to_string();
        let n = self.rng.below(self.most);
        for _ in 0..n {
            self.add(&mut t);
        }
        self.number(&mut t);
        t
    }

    fn container<'a>(&mut self, t: &'a mut Tree) -> &'a mut Tree {
        let all = t.containers();
        let n = self.rng.below(all);
        t.nth_container(&mut { n }).unwrap()
    }

    fn node<'a>(&mut self, t: &'a mut Tree) -> &'a mut Tree {
        let n = self.rng.below(t.size());
        t.nth(&mut { n }).unwrap()
    }

    fn add(&mut self, t: &mut Tree) {
        let new = self.leaf();
        let end = self.rng.chance(2);
        let at = self.rng.next() as usize;
        let parent = self.container(t);
        let at = if end { parent.children.len() } else { at % (parent.children.len() + 1) };
        parent.children.insert(at, new);
    }

    /// Takes a node other than the root out of the tree.
    fn take(&mut self, t: &mut Tree) -> Option<Tree> {
        let size = t.size();
        if size < 2 {
            return None;
        }
        let n = self.rng.range(1, size - 1);
        t.take(&mut { n })
    }

    /// One change.
    pub fn change(&mut self, t: &mut Tree) -> &'static str {
        match self.rng.below(14) {
            0 | 1 if t.size() < 40 => {
                self.add(t);
                "add"
            }
            2 => {
                let keep = self.take(t);
                if keep.is_some() { "remove" } else { "none" }
            }
            3 => {
                // to any other place
                if let Some(taken) = self.take(t) {
                    let at = self.rng.next() as usize;
                    let parent = self.container(t);
                    let at = at % (parent.children.len() + 1);
                    parent.children.insert(at, taken);
                }
                "move"
            }
            4 => {
                let name = self.rng.pick(TAGS).to_string();
                let node = self.node(t);
                if LEAVES.contains(&node.name.as_str()) && (name != "x") {
                    node.name = "span".into();
                } else {
                    node.name = name;
                }
                "tag"
            }
            5 => {
                let text = self.rng.chance(3);
                let mut new = (!text).then(|| self.text());
                let n = self.rng.below(t.size());
                if self.rng.chance(3) {
                    new = t.nth(&mut { n }).unwrap().text.clone().map(|old| self.near(&old)).or(new);
                }
                let node = t.nth(&mut { n }).unwrap();
                if !LEAVES.contains(&node.name.as_str()) {
                    node.text = new;
                }
                "text"
            }
            6 | 7 => {
                let mut k = self.rng.pick(NAMES).to_string();
                let mut v = self.value();
                let drop = self.rng.chance(3);
                let n = self.rng.below(t.size());
                if self.rng.chance(3) {
                    let old: Vec<_> = t.nth(&mut { n }).unwrap().attrs.clone().into_iter().collect();
                    if !old.is_empty() {
                        let (key, value) = self.rng.pick(&old).clone();
                        k = key;
                        v = self.near(&value);
                    }
                }
                let node = t.nth(&mut { n }).unwrap();
                if drop {
                    if let Some(k) = node.attrs.keys().next().cloned() {
                        node.attrs.remove(&k);
                    }
                } else {
                    node.attrs.insert(k, v);
                }
                "attribute"
            }
            8 | 9 => {
                let how = self.rng.below(4);
                let node = self.node(t);
                let first = node.listeners.first().cloned();
                match (how, first) {
                    (0, _) => {
                        node.listeners.pop();
                    }
                    (1, Some((_, event))) => {
                        node.listeners[0] = self.listener_for(&event);
                    }
                    (2, Some((name, _))) => {
                        // it is for another event from now on
                        let event = self.rng.pick(&EVENTS).to_string();
                        self.given.iter_mut().filter(|l| l.0 == name).for_each(|l| l.1 = event.clone());
                    }
                    _ => {
                        let l = self.listener();
                        node.listeners.push(l);
                    }
                }
                "listener"
            }
            10 => {
                let mut rng = self.rng.clone();
                let node = self.container(t);
                rng.shuffle(&mut node.children);
                self.rng = rng;
                "reorder"
            }
            11 => {
                // a new element around an old one
                let mut outer = self.leaf();
                while LEAVES.contains(&outer.name.as_str()) {
                    outer = self.leaf();
                }
                if t.size() > 1 && t.size() < 40 {
                    let n = self.rng.range(1, t.size() - 1);
                    let node = t.nth(&mut { n }).unwrap();
                    outer.children.push(std::mem::take(node));
                    if outer.key.is_some() || outer.children[0].key.is_some() {
                        outer.key = Some(format!("w{}", self.next_key));
                    }
                    *node = outer;
                }
                "wrap"
            }
            12 => {
                let most = self.most;
                self.most = 5;
                let mut new = self.leaf();
                if !LEAVES.contains(&new.name.as_str()) {
                    for _ in 0..self.rng.below(4) {
                        self.add(&mut new);
                    }
                }
                self.most = most;
                if t.size() > 1 && t.size() < 40 {
                    let n = self.rng.range(1, t.size() - 1);
                    *t.nth(&mut { n }).unwrap() = new;
                }
                "replace"
            }
            _ => {
                if self.rng.chance(4) {
                    let children = self.rng.chance(2);
                    let node = self.container(t);
                    if children {
                        node.children.clear();
                    }
                    return "clear";
                }
                "none"
            }
        }
    }

    pub fn number(&mut self, t: &mut Tree) {
        let given = std::mem::take(&mut self.given);
        t.each(&mut |e| {
            for l in &mut e.listeners {
                if let Some(now) = given.iter().find(|g| g.0 == l.0) {
                    l.1 = now.1.clone();
                }
            }
        });
        self.given = given;
        match self.ids {
            Ids::Order(from) => {
                let mut n = from;
                t.each(&mut |e| {
                    e.id = n;
                    n += 1;
                });
            }
            Ids::Stable => {}
            Ids::Random | Ids::Wide => {
                let size = t.size();
                let mut pool: Vec<usize> = (0..size * 2 + 2).collect();
                if self.ids == Ids::Wide {
                    let all = [0, 1, 9, 10, 11, 19, 99, 100, 110, 111, 255, 256, 999, 1000, 1111, 65_535, 65_536, 1 << 31, u32::MAX as usize];
                    pool.extend(all);
                    pool.extend(all.map(|n| n / 2 + 100_000));
                    pool.sort_unstable();
                    pool.dedup();
                }
                self.rng.shuffle(&mut pool);
                let mut n = 0;
                t.each(&mut |e| {
                    e.id = pool[n];
                    n += 1;
                });
            }
        }
    }
}

/// Writes histories of trees, one to a line.
pub fn print_histories(seed: u64, count: usize) {
    use std::io::Write;
    let mut rng = Rng::new(seed);
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for _ in 0..count {
        let mut g = Gen::new(Rng::new(rng.next()));
        if g.rng.chance(12) {
            g.most = 150;
        }
        let mut t = g.tree();
        let mut trees = vec![t.clone()];
        for _ in 1..g.rng.range(2, 6) {
            if g.rng.chance(8) {
                g.shake(&mut t, 2);
            }
            for _ in 0..g.rng.range(1, 3) {
                g.change(&mut t);
            }
            g.number(&mut t);
            trees.push(t.clone());
        }
        let _ = writeln!(out, "{}", serde_json::to_string(&trees).unwrap());
    }
}

impl Tree {
    pub fn size(&self) -> usize {
        1 + self.children.iter().map(|c| c.size()).sum::<usize>()
    }

    fn is_container(&self) -> bool {
        !LEAVES.contains(&self.name.as_str())
    }

    fn containers(&self) -> usize {
        self.is_container() as usize + self.children.iter().map(|c| c.containers()).sum::<usize>()
    }

    fn nth_container(&mut self, n: &mut usize) -> Option<&mut Tree> {
        if self.is_container() {
            if *n == 0 {
                return Some(self);
            }
            *n -= 1;
        }
        self.children.iter_mut().find_map(|c| c.nth_container(n))
    }

    pub fn nth(&mut self, n: &mut usize) -> Option<&mut Tree> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        self.children.iter_mut().find_map(|c| c.nth(n))
    }

    fn take(&mut self, n: &mut usize) -> Option<Tree> {
        for i in 0..self.children.len() {
            *n -= 1;
            if *n == 0 {
                return Some(self.children.remove(i));
            }
            let size = self.children[i].size();
            if *n < size {
                return self.children[i].take(n);
            }
            *n -= size - 1;
        }
        None
    }

    pub fn each(&mut self, f: &mut impl FnMut(&mut Tree)) {
        f(self);
        for c in &mut self.children {
            c.each(f);
        }
    }

    pub fn visit<'a>(&'a self, path: &mut Vec<usize>, f: &mut impl FnMut(&'a Tree, &[usize])) {
        f(self, path);
        for (i, c) in self.children.iter().enumerate() {
            path.push(i);
            c.visit(path, f);
            path.pop();
        }
    }

    pub fn all_listeners(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        self.visit(&mut vec![], &mut |t, _| out.extend(t.listeners.iter().cloned()));
        out
    }

    pub fn element(&self) -> Element {
        let attributes: HashMap<_, _> = self.attrs.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect();
        Element {
            id: self.id,
            name: self.name.clone().into(),
            attributes,
            listeners: self.listeners.iter().map(|(n, e)| ListenerRef::new(n, e)).collect(),
            children: self.children.iter().map(|c| c.element()).collect(),
            text: self.text.clone().map(|t| t.into()),
            key: self.key.clone(),
        }
    }

    /// Whether the page shows this tree at this place.
    pub fn shown(&self, page: &Value, at: &str) -> Result<(), String> {
        let here = format!("{at}/{}", self.name);
        if page["tag"] != self.name.as_str() {
            return Err(format!("at {here}: the page has {} instead of {}", page["tag"], self.name));
        }
        let attrs = page["attrs"].as_object().unwrap();
        // the names of attributes are in lower case in a page
        for (k, v) in &self.attrs {
            match attrs.get(&k.to_ascii_lowercase()) {
                Some(got) if got == v.as_str() => {}
                Some(got) => return Err(format!("at {here}: attribute {k} is {got} instead of {v:?}")),
                None => return Err(format!("at {here}: attribute {k} is missing, it should be {v:?}")),
            }
        }
        for (k, v) in attrs {
            // the id is how the client finds the element
            if k != "id" && !self.attrs.keys().any(|a| a.to_ascii_lowercase() == *k) {
                return Err(format!("at {here}: there is an attribute {k} (of {v}), which is not in the tree"));
            }
        }
        let mut content = page["content"].as_array().unwrap().iter();
        let mut text = String::new();
        let mut elements = vec![];
        for c in content.by_ref() {
            match c.as_str() {
                Some(s) if elements.is_empty() => text.push_str(s),
                Some(s) => return Err(format!("at {here}: there is the text {s:?} behind the children")),
                None => elements.push(c),
            }
        }
        let want = self.text.as_deref().unwrap_or("");
        if text != want {
            return Err(format!("at {here}: the text is {text:?} instead of {want:?}"));
        }
        if elements.len() != self.children.len() {
            return Err(format!("at {here}: {} children instead of {}", elements.len(), self.children.len()));
        }
        for (i, (got, child)) in elements.iter().zip(&self.children).enumerate() {
            child.shown(got, &format!("{here}[{i}]"))?;
        }
        Ok(())
    }
}
