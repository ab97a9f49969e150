//! C23 to C25.

use std::{
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    time::Duration,
};

use lunatic::testkit;
use serde_json::{json, Value};

use crate::{
    browser::{self, fine, Browser},
    ctx::{patience, Case, Ctx},
    ensure,
    live::{entries, eventually, forget, telling, Entry, Input, Session, Start},
    refws::Frame,
    rng::Rng,
    tree::{Gen, Ids, Keys, Tree, EVENTS},
};

/// Gives a message to the client, which then has to show the tree.
pub fn deliver(b: &mut Browser, message: &str, tree: &Tree, when: &str) -> Result<(), String> {
    if std::env::var_os("MON_TRACE").is_some() {
        eprintln!("{when}: {message}");
    }
    let v = b.call(json!({"op": "message", "data": message}));
    fine(&v).map_err(|e| format!("{when}: {e}"))?;
    ensure!(v["sent"].as_array().unwrap().is_empty(), "{when}: the client sends {} though nothing happened", v["sent"]);
    let page = v["page"].as_array().unwrap();
    ensure!(page.len() == 1, "{when}: the page has {} elements instead of the one tree", page.len());
    tree.shown(&page[0], "").map_err(|e| format!("{when}: {e}"))
}

/// What has to be called when an event is triggered on the element at the path (below the body).
fn expected(tree: &Tree, path: &[usize], event: &str) -> Vec<String> {
    let mut out = vec![];
    let mut at = tree;
    out.push(at);
    for &i in &path[1..] {
        at = &at.children[i];
        out.push(at);
    }
    out.iter().flat_map(|t| t.listeners.iter().filter(|l| l.1 == event).map(|l| l.0.clone())).collect()
}

pub fn mask(rng: &mut Rng) -> [u8; 4] {
    rng.bytes(4).try_into().unwrap()
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap_or("(not text)").to_string()).collect()
}

fn path_of(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect()
}

/// Triggers every event on every element, and sees which listeners are called.
fn probe(case: &mut Case, b: &mut Browser, s: &mut Session, tree: &Tree) -> Result<(), String> {
    let value = "some \"value\" + é";
    let v = b.call(json!({"op": "probe", "types": EVENTS, "value": value}));
    fine(&v)?;
    ensure!(v["before"].as_array().unwrap().is_empty() && v["sent"].as_array().unwrap().is_empty(), "the client sends messages though nothing happened");
    let before = entries(s.id).len();
    let mut want: Vec<Vec<String>> = vec![];
    let mut total = 0;
    let mut sent = 0;
    for f in v["found"].as_array().unwrap() {
        let path = path_of(&f["path"]);
        let event = f["type"].as_str().unwrap();
        let mut names = expected(tree, &path, event);
        if event == "submit" && !names.is_empty() {
            ensure!(f["prevented"] == true, "the submit event at {path:?} takes the user to another page");
        }
        for m in strings(&f["sent"]) {
            s.tell(&m, mask(&mut case.rng));
            sent += 1;
        }
        names.sort();
        total += names.len();
        if !names.is_empty() {
            want.push(names);
        }
    }
    case.count("events triggered", v["found"].as_array().unwrap().len() as u64);
    case.count("listeners called", total as u64);
    ensure!(
        sent >= total || eventually(|| entries(s.id).len() >= before + total),
        "{} listeners are called by the events, it should be {total}: {want:?}",
        entries(s.id).len() - before
    );
    for i in 0..total {
        let m = s.expect(&format!("after call {i} of {total} expected ones"))?;
        deliver(b, &m, tree, "after an event which changed nothing")?;
    }
    // whatever else was called is logged when this has been answered
    let mut got = called(s, before)?.into_iter();
    for names in want {
        let mut these: Vec<String> = got.by_ref().take(names.len()).map(|(n, ..)| n).collect();
        these.sort();
        ensure!(these == names, "the listeners {these:?} are called instead of {names:?}");
    }
    ensure!(got.next().is_none(), "more listeners are called than there are");
    Ok(())
}

/// The events which the component was told of, from an entry on.
fn called(s: &Session, from: usize) -> Result<Vec<(String, String, Option<String>)>, String> {
    let mut out = vec![];
    for (i, e) in entries(s.id).into_iter().enumerate().skip(from) {
        if let Entry::Update(Input::Event { name, kind, value, render }) = e {
            ensure!(render == i, "the listener {name} is the one of the render after {render} updates, and not after {i}");
            out.push((name, kind, value));
        }
    }
    Ok(out)
}

/// Ends a session; nothing more may have been sent to the client.
pub fn finish(s: &mut Session) -> Result<(), String> {
    s.leave();
    ensure!(eventually(|| s.dropped()), "the component is still there after the client has left");
    let more = s.message(Duration::from_millis(if s.near.other_closed() { 0 } else { 1 }))?;
    ensure!(more.is_none(), "one message to the client too many: {}", more.unwrap_or_default());
    let traps = testkit::take_traps();
    ensure!(traps.is_empty(), "a process panicked: {}", traps[0]);
    forget(s.id);
    Ok(())
}

fn history(case: &mut Case, b: &mut Browser, trees: &[Tree], probes: bool) -> Result<(), String> {
    let _ = testkit::take_traps();
    b.open("/")?;
    case.input = json!(trees);
    for t in trees {
        case.key(json!(t).to_string().as_bytes());
    }
    let mut s = Session::show(&trees[0]);
    for (i, t) in trees.iter().enumerate() {
        if i > 0 {
            s.process.send(Input::Show(t.clone()));
        }
        let m = s.expect(&format!("for render {i}"))?;
        case.count("renders", 1);
        case.count("elements shown", t.size() as u64);
        case.count("bytes of instructions", m.len() as u64);
        deliver(b, &m, t, &format!("render {i}"))?;
        if probes && (i + 1 == trees.len() || case.rng.chance(3)) {
            probe(case, b, &mut s, t).map_err(|e| format!("after render {i}: {e}"))?;
        }
    }
    finish(&mut s)
}

fn grow(case: &mut Case, g: &mut Gen, renders: usize, changes: usize) -> Vec<Tree> {
    let mut t = g.tree();
    let mut trees = vec![t.clone()];
    for _ in 1..renders {
        for _ in 0..g.rng.range(1, changes) {
            let what = g.change(&mut t);
            case.count(what, 1);
        }
        g.number(&mut t);
        trees.push(t.clone());
    }
    trees
}

/// Every list of up to three children, with any of three keys (each as often as it likes) or none.
fn lists() -> Vec<Vec<Option<char>>> {
    let mut all: Vec<Vec<Option<char>>> = vec![vec![]];
    for n in 0..3 {
        let longer: Vec<_> = all
            .iter()
            .filter(|l| l.len() == n)
            .flat_map(|l| {
                [Some('a'), Some('b'), Some('c'), None].iter().map(move |k| {
                    let mut l = l.clone();
                    l.push(*k);
                    l
                })
            })
            .collect();
        all.extend(longer);
    }
    all
}

/// All trees without attributes with up to `most` elements below the root.
fn shapes(most: usize) -> Vec<Tree> {
    fn forests(n: usize) -> Vec<Vec<Tree>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for first in 0..n {
            for inner in forests(first) {
                for rest in forests(n - 1 - first) {
                    let mut all = vec![Tree { name: "div".into(), children: inner.clone(), ..Default::default() }];
                    all.extend(rest);
                    out.push(all);
                }
            }
        }
        out
    }
    (0..=most)
        .flat_map(forests)
        .map(|children| {
            let mut t = Tree { name: "div".into(), children, ..Default::default() };
            let mut n = 0;
            t.each(&mut |e| {
                e.id = n;
                n += 1;
            });
            t
        })
        .collect()
}

pub fn c23(ctx: &mut Ctx, script: &str) {
    ctx.rule = "An execution is a sequence of renders of one component, each applied by the client script to a page, which is compared with the tree; \
                two are distinct when their trees differ."
        .into();
    ctx.section("histories", 500, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let renders = g.rng.range(2, 8);
            let trees = grow(case, &mut g, renders, 3);
            history(case, b, &trees, true)
        })
    });
    ctx.section("one change", 400, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let trees = grow(case, &mut g, 2, 1);
            history(case, b, &trees, true)
        })
    });
    ctx.section("keyed children", 300, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.keys = if g.rng.chance(4) { Keys::Some } else { Keys::All };
            if g.rng.chance(2) {
                g.ids = Ids::Stable;
            }
            let mut t = g.tree();
            let mut pool: Vec<Tree> = (0..g.rng.range(2, 7)).map(|_| g.leaf()).collect();
            // a key which is not as unique as it should be
            if g.rng.chance(5) {
                pool[1].key = pool[0].key.clone();
            }
            let mut trees = vec![];
            for _ in 0..g.rng.range(2, 6) {
                let mut rng = g.rng.clone();
                rng.shuffle(&mut pool);
                g.rng = rng;
                let n = g.rng.below(pool.len() + 1);
                t.children = pool[..n].to_vec();
                if g.rng.chance(2) {
                    t.children.sort_by(|a, b| a.id.cmp(&b.id));
                }
                if g.rng.chance(3) {
                    g.change(&mut t);
                }
                g.number(&mut t);
                trees.push(t.clone());
            }
            history(case, b, &trees, true)
        })
    });
    let all = shapes(4);
    let pairs = (all.len() * all.len()) as u64;
    ctx.all("all pairs of small shapes", pairs, |case| {
        browser::with(script, |b| {
            let (i, j) = (case.index as usize / all.len(), case.index as usize % all.len());
            let mut trees = vec![all[i].clone(), all[j].clone()];
            // the content tells the elements apart
            for (n, t) in trees.iter_mut().enumerate() {
                let mut k = 0;
                t.each(&mut |e| {
                    e.text = Some(format!("{n}.{k}"));
                    e.name = ["div", "p", "span"][k % 3].into();
                    e.listeners.push((format!("l{n}.{k}"), "click".into()));
                    k += 1;
                });
            }
            history(case, b, &trees, true)
        })
    });
    let lists = lists();
    let pairs = (lists.len() * lists.len()) as u64;
    ctx.all("all pairs of keyed lists", pairs, |case| {
        browser::with(script, |b| {
            let (i, j) = (case.index as usize / lists.len(), case.index as usize % lists.len());
            let trees: Vec<Tree> = [i, j]
                .iter()
                .enumerate()
                .map(|(n, i)| {
                    let mut t = Tree { name: "div".into(), ..Default::default() };
                    for (k, key) in lists[*i].iter().enumerate() {
                        t.children.push(Tree {
                            id: k + 1,
                            name: "p".into(),
                            key: key.map(|key| key.to_string()),
                            text: Some(format!("{n}.{k}")),
                            ..Default::default()
                        });
                    }
                    t
                })
                .collect();
            history(case, b, &trees, true)
        })
    });
    ctx.section("large trees", 12, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.most = 300;
            let mut trees = grow(case, &mut g, 2, 20);
            let mut last = trees[1].clone();
            let n = g.rng.range(1, 4);
            g.shake(&mut last, n);
            g.number(&mut last);
            trees.push(last);
            history(case, b, &trees, false)
        })
    });
    ctx.section("deep pages", 6, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let depth = g.rng.range(20, 400);
            let mut t = g.tree();
            for i in 0..depth {
                let mut outer = Tree { id: 1000 + i, name: g.rng.pick(&["div", "p", "span"]).to_string(), ..Default::default() };
                if t.key.is_some() {
                    outer.key = Some(format!("d{i}"));
                }
                if g.rng.chance(20) {
                    outer.text = Some(i.to_string());
                }
                outer.children.push(t);
                t = outer;
            }
            g.number(&mut t);
            let mut trees = vec![t.clone()];
            for _ in 0..3 {
                // far below, and anywhere
                let n = t.size() - 1;
                t.nth(&mut { n }).unwrap().attrs.insert("title".into(), g.rng.next().to_string());
                g.change(&mut t);
                g.number(&mut t);
                trees.push(t.clone());
            }
            history(case, b, &trees, false)
        })
    });
    ctx.section("wide pages", 3, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let mut t = Tree { id: 0, name: "ul".into(), ..Default::default() };
            let keyed = case.index == 1 || g.rng.chance(2);
            if case.index == 1 {
                g.ids = Ids::Order(0);
            }
            let n = if case.index == 1 { g.rng.range(4500, 6000) } else { g.rng.range(300, 1500) };
            for i in 0..n {
                let mut leaf = g.leaf();
                leaf.id = 20_000 + i;
                leaf.key = keyed.then(|| format!("k{i}"));
                t.children.push(leaf);
            }
            g.number(&mut t);
            let mut trees = vec![t.clone()];
            for step in 0..3 {
                match if case.index == 1 { 4 - step } else { g.rng.below(5) } {
                    0 => {
                        let from = g.rng.below(t.children.len());
                        t.children.drain(from..);
                    }
                    1 => {
                        let n = g.rng.below(t.children.len());
                        t.children.remove(n);
                    }
                    2 => t.children.reverse(),
                    4 => {
                        let mut new = g.leaf();
                        new.id = 60_000 + step;
                        new.key = keyed.then(|| format!("new{step}"));
                        // all which follow get other numbers
                        t.children[0].name = "div".into();
                        t.children[0].children.push(new);
                    }
                    _ => g.shake(&mut t, 3),
                }
                let mut more = g.leaf();
                more.id = 50_000 + trees.len();
                more.key = keyed.then(|| format!("more{}", trees.len()));
                t.children.push(more);
                g.number(&mut t);
                trees.push(t.clone());
            }
            history(case, b, &trees, false)
        })
    });
    ctx.section("long texts", 6, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let mut t = g.tree();
            let mut trees = vec![];
            for _ in 0..3 {
                let n = *g.rng.pick(&[70_000, 1 << 17, 300_000, 1 << 20]);
                let text = g.rng.word("abc +<&\"\\\n".as_bytes(), n, n + 10);
                t.children.push(Tree { id: 500 + trees.len(), name: "p".into(), ..Default::default() });
                if t.children[0].key.is_some() {
                    t.children.last_mut().unwrap().key = Some(format!("long{}", trees.len()));
                }
                let at = t.children.last_mut().unwrap();
                if g.rng.chance(2) {
                    at.text = Some(text);
                } else {
                    at.attrs.insert("title".into(), text);
                }
                g.number(&mut t);
                trees.push(t.clone());
            }
            history(case, b, &trees, false)
        })
    });
    ctx.section("many renders", 2, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.most = 5;
            let trees = grow(case, &mut g, 300, 2);
            history(case, b, &trees, false)
        })
    });
    ctx.section("attribute id", 30, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.most = 3;
            g.ids = Ids::Order(0);
            let mut t = g.tree();
            t.children.push(Tree { id: 0, name: "p".into(), text: Some("one".into()), ..Default::default() });
            let id = g.rng.pick(&["mine", "0", "1", "2", "3", ""]).to_string();
            t.children.last_mut().unwrap().attrs.insert("id".into(), id);
            g.number(&mut t);
            let mut u = t.clone();
            u.children.last_mut().unwrap().text = Some("two".into());
            history(case, b, &[t, u], true)
        })
    });
}

const HOSTILE: usize = 16;

/// Text which is no proper message for the listeners of the tree, and why.
fn hostile(rng: &mut Rng, tree: &Tree, sample: Option<&str>) -> (String, &'static str) {
    let inputs: Vec<String> = tree.all_listeners().into_iter().filter(|l| l.1 == "input").map(|l| l.0).collect();
    let any = tree.all_listeners().first().map(|l| l.0.clone()).unwrap_or_else(|| "x".into());
    match rng.below(HOSTILE) {
        0 => (String::new(), "empty"),
        1 => (rng.text(40), "not JSON"),
        2 => ("[]".into(), "not an object"),
        3 => ("{}".into(), "without a listener"),
        4 => (json!({"listener": 5}).to_string(), "a number for a listener"),
        5 => (json!({"listener": null}).to_string(), "null for a listener"),
        6 => (json!({"listener": format!("{any}x")}).to_string(), "an unknown listener"),
        7 => (json!({"listener": ""}).to_string(), "an empty listener"),
        8 => match inputs.first() {
            Some(n) => (json!({"listener": n}).to_string(), "no value for an input listener"),
            None => ("{".into(), "cut off"),
        },
        9 => match inputs.first() {
            Some(n) => (json!({"listener": n, "payload": {}}).to_string(), "an empty payload for an input listener"),
            None => ("}".into(), "not JSON"),
        },
        10 => match inputs.first() {
            Some(n) => (json!({"listener": n, "payload": {"value": 5}}).to_string(), "a number for a value"),
            None => ("null".into(), "null"),
        },
        11 => ("[".repeat(20000), "deeply nested"),
        12 => (format!("{{\"listener\":{}}}", "[".repeat(5000)), "deeply nested"),
        13 => (json!({"listener": "y".repeat(100_000)}).to_string(), "a very long unknown listener"),
        14 => match sample {
            Some(s) => (s[..s.char_indices().nth(rng.below(s.chars().count())).unwrap().0].to_string(), "a message which is cut off"),
            None => ("\"".into(), "cut off"),
        },
        _ => match inputs.first() {
            Some(n) => (json!({"listener": n, "payload": null}).to_string(), "null for a payload"),
            None => ("true".into(), "true"),
        },
    }
}

/// A place where an event calls something, if there is one.
fn target(rng: &mut Rng, tree: &Tree) -> Option<(Vec<usize>, &'static str)> {
    let mut all = vec![];
    tree.visit(&mut vec![0], &mut |t, path| {
        for e in EVENTS {
            if (e != "input" || t.name == "input") && !expected(tree, path, e).is_empty() {
                all.push((path.to_vec(), e));
            }
        }
    });
    (!all.is_empty()).then(|| rng.pick(&all).clone())
}

/// Pairs the children which stay, as far as it is certain which ones those are.
fn pairs(old: &Tree, new: &Tree) -> Vec<(usize, usize)> {
    let keys = |t: &Tree| t.children.iter().map(|c| c.key.clone()).collect::<Vec<_>>();
    let (a, b) = (keys(old), keys(new));
    if a.iter().chain(&b).all(|k| k.is_none()) {
        return (0..a.len().min(b.len())).map(|i| (i, i)).collect();
    }
    let unique = |v: &[Option<String>]| v.iter().all(|k| k.is_some() && v.iter().filter(|l| *l == k).count() == 1);
    if !unique(&a) || !unique(&b) {
        return vec![];
    }
    let from: Vec<Option<usize>> = b.iter().map(|k| a.iter().position(|l| l == k)).collect();
    let stay: Vec<usize> = from.iter().flatten().copied().collect();
    // those which stay keep their order, and the new ones follow them
    if from[..stay.len()].iter().any(|f| f.is_none()) || stay.windows(2).any(|w| w[0] > w[1]) {
        return vec![];
    }
    stay.into_iter().enumerate().map(|(to, from)| (from, to)).collect()
}

/// Whether the elements which the update does not replace are the ones they were, with what was typed into them.
fn stays(case: &mut Case, old: &Tree, new: &Tree, was: &Value, is: &Value, at: &str) -> Result<(), String> {
    if old.name != new.name {
        return Ok(());
    }
    let at = format!("{at}/{}", new.name);
    case.count("elements which stay", 1);
    ensure!(was["placed"] == is["placed"], "{at} was replaced or taken out of the page by an update which keeps it");
    if new.name == "input" && old.attrs.get("type") == new.attrs.get("type") {
        case.count("fields which stay", 1);
        ensure!(was["value"] == is["value"], "{at} has the value {} though {} was typed into it", is["value"], was["value"]);
    }
    let children = |v: &Value| v["content"].as_array().unwrap().iter().filter(|c| c.is_object()).cloned().collect::<Vec<_>>();
    let (a, b) = (children(was), children(is));
    for (i, j) in pairs(old, new) {
        stays(case, &old.children[i], &new.children[j], &a[i], &b[j], &format!("{at}[{j}]"))?;
    }
    Ok(())
}

fn stay_through(case: &mut Case, b: &mut Browser, trees: &[Tree]) -> Result<(), String> {
    let _ = testkit::take_traps();
    b.open("/")?;
    case.input = json!(trees);
    for t in trees {
        case.key(json!(t).to_string().as_bytes());
    }
    let mut s = Session::show(&trees[0]);
    let first = s.expect("for render 0")?;
    deliver(b, &first, &trees[0], "render 0")?;
    for (i, two) in trees.windows(2).enumerate() {
        let was = b.call(json!({"op": "type"}));
        fine(&was)?;
        s.process.send(Input::Show(two[1].clone()));
        let m = s.expect(&format!("for render {}", i + 1))?;
        deliver(b, &m, &two[1], &format!("render {}", i + 1))?;
        let is = b.call(json!({"op": "look"}));
        stays(case, &two[0], &two[1], &was["page"][0], &is["page"][0], "").map_err(|e| format!("render {}: {e}", i + 1))?;
        case.count("updates", 1);
    }
    finish(&mut s)
}

pub fn c28(ctx: &mut Ctx, script: &str) {
    ctx.rule = "An execution is a sequence of renders, between which something is typed into every field; two are distinct when their trees differ.".into();
    ctx.section("one change at a time", 400, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let trees = grow(case, &mut g, 4, 1);
            stay_through(case, b, &trees)
        })
    });
    ctx.section("several changes at a time", 200, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let trees = grow(case, &mut g, 3, 5);
            stay_through(case, b, &trees)
        })
    });
    ctx.section("lists with keys", 400, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.keys = Keys::All;
            let mut t = g.tree();
            let mut trees = vec![];
            t.children = (0..g.rng.range(1, 6)).map(|_| g.leaf()).collect();
            for _ in 0..g.rng.range(2, 5) {
                g.number(&mut t);
                trees.push(t.clone());
                // some leave, some come, and one of them changes
                t.children.retain(|_| !g.rng.chance(4));
                for _ in 0..g.rng.below(3) {
                    t.children.push(g.leaf());
                }
                for c in &mut t.children {
                    if g.rng.chance(3) && !["input", "img", "br"].contains(&c.name.as_str()) {
                        c.text = Some(g.rng.text(5));
                    }
                }
            }
            stay_through(case, b, &trees)
        })
    });
    ctx.section("large pages", 10, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.most = 400;
            g.keys = *g.rng.pick(&[Keys::None, Keys::All]);
            let mut t = g.tree();
            let mut trees = vec![t.clone()];
            for _ in 0..2 {
                // from little to everything
                let n = *g.rng.pick(&[1, 2, 10]);
                g.shake(&mut t, n);
                if g.rng.chance(2) {
                    g.change(&mut t);
                }
                g.number(&mut t);
                trees.push(t.clone());
            }
            stay_through(case, b, &trees)
        })
    });
    ctx.section("a page which does not change", 100, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let t = g.tree();
            let mut trees = vec![t.clone()];
            for _ in 0..g.rng.range(1, 3) {
                let mut t = t.clone();
                g.number(&mut t);
                trees.push(t);
            }
            stay_through(case, b, &trees)
        })
    });
}

pub fn c24(ctx: &mut Ctx, script: &str) {
    ctx.rule = "An execution is a sequence of renders, browser events and client messages; two are distinct when their trees and events differ.".into();
    ctx.section("events", 500, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            b.open("/app/")?;
            let mut g = Gen::new(case.rng.clone());
            let n = g.rng.range(2, 7);
            let trees = grow(case, &mut g, n, 2);
            let mut rng = g.rng.clone();
            case.input = json!(trees);
            let mut s = Session::start(
                Start { id: 0, tree: trees[0].clone(), queue: trees[1..].to_vec(), tell: false, slow_start: 0 },
                rng.chance(3).then(|| rng.range(1, 7)),
                true,
            );
            let first = s.expect("for the first render")?;
            deliver(b, &first, &trees[0], "the first render")?;
            let mut at = 0;
            for step in 0..rng.range(1, 8) {
                let tree = &trees[at];
                let Some((path, event)) = target(&mut rng, tree) else { break };
                let value = rng.text(12);
                let mut want = expected(tree, &path, event);
                // a name says nothing if it comes to mean another event before the message with it has arrived
                if (at..=at + want.len()).any(|i| trees[i.min(trees.len() - 1)].all_listeners().iter().any(|l| l.1 != event && want.contains(&l.0))) {
                    case.count("events left out, as a name changes its meaning", 1);
                    break;
                }
                // which of two calls of the same listener comes after an update is not told apart here
                if (1..want.len()).any(|i| want[..i].contains(&want[i])) {
                    case.count("events left out, as they call a listener twice", 1);
                    break;
                }
                let v = b.call(json!({"op": "fire", "path": path, "type": event, "value": (event == "input").then_some(&value)}));
                fine(&v)?;
                case.key(format!("{path:?}{event}{value}{}", json!(tree)).as_bytes());
                case.count("events triggered", 1);
                case.count("listeners called", want.len() as u64);
                let before = entries(s.id).len();
                let sent = strings(&v["sent"]);
                let m = mask(&mut rng);
                for text in &sent {
                    s.tell(text, m);
                }
                // what is called after the first change is called on the page as it was
                let mut calls = 0;
                while calls < want.len() {
                    at = (at + 1).min(trees.len() - 1);
                    calls += 1;
                    let m = s.expect(&format!("after step {step}, call {calls} of the listeners {want:?} of {event} at {path:?}"))?;
                    deliver(b, &m, &trees[at], "after an event")?;
                    // a listener which the new render does not have any more is not called
                    let names = trees[at].all_listeners();
                    let done: Vec<String> = called(&s, before)?.into_iter().map(|c| c.0).collect();
                    want.retain(|w| done.contains(w) || names.iter().any(|n| n.0 == *w && n.1 == event));
                }
                let got = called(&s, before)?;
                let mut names: Vec<_> = got.iter().map(|c| c.0.clone()).collect();
                names.sort();
                want.sort();
                ensure!(names == want, "step {step}: {event} at {path:?} calls {names:?} instead of {want:?}");
                for (name, kind, got) in got {
                    ensure!(kind == event, "the {kind} listener {name} is called for {event}");
                    if event == "input" {
                        ensure!(got.as_deref() == Some(&value), "the listener {name} gets the value {got:?} instead of {value:?}");
                    }
                }
            }
            finish(&mut s)
        })
    });
    ctx.section("every event everywhere", 200, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            let renders = g.rng.range(1, 3);
            let trees = grow(case, &mut g, renders, 3);
            history(case, b, &trees, true)
        })
    });
    ctx.section("every event on a large page", 4, |case| {
        browser::with(script, |b| {
            let mut g = Gen::new(case.rng.clone());
            g.most = 300;
            let mut t = g.tree();
            let mut trees = vec![t.clone()];
            let n = g.rng.range(1, 4);
            g.shake(&mut t, n);
            g.number(&mut t);
            trees.push(t);
            history(case, b, &trees, true)
        })
    });
    ctx.section("hostile messages", 400, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            b.open("/app/")?;
            let mut g = Gen::new(case.rng.clone());
            let mut tree = g.tree();
            tree.children.push(Tree { name: "input".into(), listeners: vec![("val".into(), "input".into())], ..g.leaf() });
            tree.children.push(Tree { name: "button".into(), listeners: vec![("go".into(), "click".into())], ..g.leaf() });
            g.number(&mut tree);
            let mut rng = g.rng.clone();
            let mut s = Session::show(&tree);
            let first = s.expect("for the first render")?;
            deliver(b, &first, &tree, "the first render")?;
            let mut sample = None;
            let mut whys = vec![];
            for _ in 0..rng.range(1, 6) {
                let before = entries(s.id).len();
                for _ in 0..rng.below(6) {
                    match rng.below(6) {
                        0 => s.raw(&Frame::new(2, mask(&mut rng), json!({"listener": "go"}).to_string().into_bytes()).encode()),
                        1 => s.raw(&Frame::new(9, mask(&mut rng), b"ping".to_vec()).encode()),
                        2 => s.raw(&Frame::new(10, mask(&mut rng), b"pong".to_vec()).encode()),
                        _ => {
                            let (text, why) = hostile(&mut rng, &tree, sample.as_deref());
                            s.tell(&text, mask(&mut rng));
                            whys.push(why);
                            case.key(text.as_bytes());
                        }
                    }
                    case.count("hostile messages", 1);
                }
                case.input = json!({"tree": tree, "messages": whys});
                let path = vec![0, tree.children.len() - if rng.chance(2) { 1 } else { 2 }];
                let (event, name) = if path[1] == tree.children.len() - 1 { ("click", "go") } else { ("input", "val") };
                let v = b.call(json!({"op": "fire", "path": path, "type": event, "value": "v", "bubbles": false}));
                fine(&v)?;
                for text in strings(&v["sent"]) {
                    s.tell(&text, mask(&mut rng));
                    sample = Some(text);
                }
                let m = s.expect(&format!("after {event} behind hostile messages ({whys:?})"))?;
                deliver(b, &m, &tree, "after hostile messages")?;
                let got: Vec<_> = called(&s, before)?.into_iter().map(|c| c.0).collect();
                ensure!(got == [name], "the listeners {got:?} are called instead of {name} behind hostile messages ({whys:?})");
            }
            finish(&mut s)
        })
    });
    ctx.section("events on an old page", 300, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            b.open("/")?;
            let mut g = Gen::new(case.rng.clone());
            let n = g.rng.range(2, 5);
            let trees = grow(case, &mut g, n, 4);
            let mut rng = g.rng.clone();
            let mut s = Session::show(&trees[0]);
            let first = s.expect("for the first render")?;
            deliver(b, &first, &trees[0], "the first render")?;
            // the component has gone on before the client knows
            for (i, t) in trees.iter().enumerate().skip(1) {
                s.process.send(Input::Show(t.clone()));
                s.wait_entries(i)?;
            }
            let mut waiting = vec![];
            for i in 1..trees.len() {
                waiting.push(s.expect(&format!("for render {i}"))?);
            }
            let now = trees.last().unwrap();
            let mut want = vec![];
            for _ in 0..rng.range(1, 4) {
                let Some((path, event)) = target(&mut rng, &trees[0]) else { break };
                let v = b.call(json!({"op": "fire", "path": path, "type": event, "value": "v"}));
                fine(&v)?;
                for text in strings(&v["sent"]) {
                    s.tell(&text, mask(&mut rng));
                    case.count("messages from an old page", 1);
                }
                let mut these: Vec<String> = expected(&trees[0], &path, event);
                // one which is there no longer is not called; one of another kind may be, it has the same name
                these.retain(|n| now.all_listeners().iter().any(|l| l.0 == *n && l.1 == event));
                want.extend(these);
                case.key(format!("{path:?}{event}{}", json!(trees)).as_bytes());
            }
            let changed: Vec<String> = trees[0]
                .all_listeners()
                .into_iter()
                .filter(|l| now.all_listeners().iter().any(|m| m.0 == l.0 && m.1 != l.1))
                .map(|l| l.0)
                .collect();
            let before = trees.len() - 1;
            for i in 0..want.len() {
                waiting.push(s.expect(&format!("after call {i} of {want:?} on an old page"))?);
            }
            finish(&mut s).or_else(|e| if changed.is_empty() { Err(e) } else { Ok(()) })?;
            let _ = before;
            for (i, m) in waiting.iter().enumerate() {
                deliver(b, m, trees.get(i + 1).unwrap_or(now), "later")?;
            }
            case.input = json!(trees);
            Ok(())
        })
    });
}

/// How a client ends.
const ENDS: [&str; 6] = ["a close frame", "the end of the stream", "an unmasked frame", "a reserved opcode", "half a frame", "text which is not UTF-8"];

fn end(s: &Session, how: usize) {
    match how {
        0 => s.raw(&Frame::new(8, [1, 2, 3, 4], vec![3, 232]).encode()),
        1 => {}
        2 => s.raw(&[0x81, 1, b'x']),
        3 => s.raw(&[0x83, 0x80, 0, 0, 0, 0]),
        4 => s.raw(&[0x81, 0x85, 0, 0]),
        _ => s.raw(&[0x81, 0x82, 0, 0, 0, 0, 0xff, 0xfe]),
    }
    if how == 1 || how == 4 {
        s.near.finish_writing();
    }
}

fn start_telling(cut: Option<usize>) -> Session {
    Session::start(Start { id: 0, tree: telling(0, None), queue: vec![], tell: true, slow_start: 0 }, cut, true)
}

/// Each source's inputs, in the order in which they were sent.
fn in_order(s: &Session, sources: &[usize]) -> Result<(), String> {
    for (source, &n) in sources.iter().enumerate() {
        let got: Vec<usize> = entries(s.id)
            .iter()
            .filter_map(|e| match e {
                Entry::Update(Input::Say { source: x, n }) if *x == source => Some(*n),
                _ => None,
            })
            .collect();
        let want: Vec<usize> = (0..n).collect();
        ensure!(got == want, "the inputs of source {source} are applied as {got:?} instead of 0 to {n}");
    }
    Ok(())
}

pub fn c25(ctx: &mut Ctx, script: &str) {
    ctx.rule = "An execution is a component with its sources of inputs and its end; two are distinct when inputs, order of application or end differ.".into();
    ctx.section("inputs from many sources", 150, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            b.open("/")?;
            let mut rng = case.rng.clone();
            // pongs are written by another process than messages, see "a pong inside a message"
            let pings = rng.chance(2);
            let mut s = start_telling((!pings).then(|| rng.range(1, 9)));
            let senders = rng.range(1, 5);
            let each = rng.range(1, 8);
            let echo = rng.below(4);
            let mut sources = vec![each; senders];
            let threads: Vec<_> = (0..senders)
                .map(|source| {
                    let h = s.handle();
                    let mut rng = Rng::new(rng.next());
                    std::thread::spawn(move || {
                        let h = h;
                        for n in 0..each {
                            if rng.chance(3) {
                                std::thread::sleep(Duration::from_micros(rng.below(300) as u64));
                            }
                            h.0.send(Input::Say { source, n });
                        }
                    })
                })
                .collect();
            let mut total = senders * each;
            if echo > 0 {
                s.process.send(Input::Echo { source: senders, n: echo });
                sources.push(echo);
                total += 1 + echo;
            }
            let first = s.expect("for the first render")?;
            deliver(b, &first, &telling(0, None), "the first render")?;
            let mut events = vec![];
            for i in 0..rng.below(6) {
                let (path, event) = (vec![0], "click");
                let _ = (path, event);
                let value = format!("value {i}");
                // the listeners are those of a page which the component has shown; the names do not change
                let (text, name) = if rng.chance(2) {
                    let v = b.call(json!({"op": "fire", "path": vec![0, 1], "type": "input", "value": value}));
                    (strings(&v["sent"]), ("value".to_string(), Some(value)))
                } else {
                    let v = b.call(json!({"op": "fire", "path": vec![0, 0], "type": "click"}));
                    (strings(&v["sent"]), ("tell".to_string(), None))
                };
                let before = text.len();
                for t in text {
                    s.tell(&t, mask(&mut rng));
                }
                ensure!(before > 0, "an event sends nothing");
                events.push(name);
                total += 1;
                if pings && rng.chance(2) {
                    s.raw(&Frame::new(9, mask(&mut rng), b"x".to_vec()).encode());
                }
            }
            for t in threads {
                t.join().unwrap();
            }
            let mut messages = vec![];
            for i in 0..total {
                messages.push(s.expect(&format!("for input {} of {total}", i + 1))?);
            }
            let log = entries(s.id);
            ensure!(log.len() == total, "{} inputs are applied instead of {total}", log.len());
            in_order(&s, &sources)?;
            let got: Vec<_> = called(&s, 0)?.into_iter().map(|(n, _, v)| (n, v)).collect();
            ensure!(got == events, "the events {got:?} are applied instead of {events:?}");
            case.key(format!("{log:?}").as_bytes());
            case.count("inputs", total as u64);
            for (i, m) in messages.iter().enumerate() {
                let Entry::Update(input) = &log[i] else { return Err("dropped".into()) };
                deliver(b, m, &telling(i + 1, Some(input)), &format!("the message for input {}", i + 1))?;
            }
            case.input = json!({"senders": senders, "each": each, "echo": echo, "events": events.len()});
            finish(&mut s)
        })
    });
    ctx.section("the end of a client", 200, |case| {
        let _ = testkit::take_traps();
        let mut rng = case.rng.clone();
        let live = testkit::live_processes();
        let how = rng.below(ENDS.len());
        let mut s = Session::start(
            Start { id: 0, tree: telling(0, None), queue: vec![], tell: true, slow_start: if rng.chance(4) { 1 + rng.below(5) as u64 } else { 0 } },
            None,
            true,
        );
        let (before, during, after) = (rng.below(4), rng.below(5), rng.below(4));
        let wait = rng.chance(2);
        if wait {
            s.expect("for the first render")?;
        }
        for n in 0..before {
            s.process.send(Input::Say { source: 0, n });
            if wait {
                s.expect("for an input")?;
            }
        }
        let stop = Arc::new(AtomicBool::new(false));
        let thread = (during > 0).then(|| {
            let h = s.handle();
            let stop = stop.clone();
            let pause = rng.below(200) as u64;
            std::thread::spawn(move || {
                let h = h;
                let mut n = before;
                while !stop.load(Ordering::SeqCst) {
                    h.0.send(Input::Say { source: 0, n });
                    n += 1;
                    std::thread::sleep(Duration::from_micros(100 + pause));
                }
                n
            })
        });
        if rng.chance(2) {
            std::thread::sleep(Duration::from_micros(rng.below(800) as u64));
        }
        end(&s, how);
        case.input = json!({"end": ENDS[how], "before": before, "during": during, "after": after, "waits": wait});
        case.key(format!("{how} {before} {during} {after} {wait}").as_bytes());
        case.count("clients which left", 1);
        let ended = eventually(|| s.dropped());
        stop.store(true, Ordering::SeqCst);
        if let Some(t) = thread {
            t.join().unwrap();
        }
        ensure!(ended, "the component is still there after {}", ENDS[how]);
        for n in 0..after {
            s.process.send(Input::Say { source: 1, n });
        }
        // only the one which passes on inputs may be left, and waits
        let quiet = eventually(|| testkit::live_processes() <= live + 1 && testkit::queued_messages() == 0);
        ensure!(
            quiet,
            "{} processes are left of a component which has ended ({}), {} messages wait for them",
            testkit::live_processes() - live,
            ENDS[how],
            testkit::queued_messages()
        );
        ensure!(eventually(|| s.near.other_closed()), "the connection is still held after {}", ENDS[how]);
        let log = entries(s.id);
        let at = log.iter().position(|e| *e == Entry::Dropped).unwrap();
        ensure!(at + 1 == log.len(), "{:?} is applied after the component was dropped", log[at + 1]);
        let got: Vec<usize> = log.iter().filter_map(|e| match e { Entry::Update(Input::Say { source: 0, n }) => Some(*n), _ => None }).collect();
        ensure!(got.iter().enumerate().all(|(i, n)| i == *n), "inputs are applied as {got:?}");
        ensure!(!wait || got.len() >= before, "{} inputs are applied of {before} sent before", got.len());
        let traps = testkit::take_traps();
        ensure!(traps.is_empty(), "a process panicked after {}: {}", ENDS[how], traps[0]);
        let dead = testkit::dead_letters();
        std::thread::sleep(Duration::from_millis(2));
        ensure!(
            testkit::dead_letters() <= dead + after as u64 + 1,
            "a process goes on sending messages to a component which has ended ({})",
            ENDS[how]
        );
        forget(s.id);
        Ok(())
    });
    ctx.section("a client which is gone at once", 40, |case| {
        let _ = testkit::take_traps();
        let mut rng = case.rng.clone();
        let live = testkit::live_processes();
        let s = Session::start(
            Start { id: 0, tree: telling(0, None), queue: vec![], tell: true, slow_start: rng.below(3) as u64 },
            None,
            false,
        );
        let n = rng.below(3);
        for n in 0..n {
            s.process.send(Input::Say { source: 0, n });
        }
        let late = rng.chance(2);
        if late {
            std::thread::sleep(Duration::from_millis(2));
        }
        s.near.finish_writing();
        case.key(format!("{n} {late}").as_bytes());
        case.input = json!({"inputs": n, "late": late});
        ensure!(eventually(|| s.dropped()), "the component is still there though its client is gone");
        ensure!(eventually(|| testkit::live_processes() <= live + 1), "processes are left of a component whose client is gone");
        let traps = testkit::take_traps();
        ensure!(traps.is_empty(), "a process panicked because the client was gone: {}", traps[0]);
        forget(s.id);
        Ok(())
    });
    ctx.section("components beside each other", 60, |case| {
        let _ = testkit::take_traps();
        let mut rng = case.rng.clone();
        let n = rng.range(2, 6);
        let mut all: Vec<Session> = (0..n).map(|_| start_telling(None)).collect();
        for s in all.iter_mut() {
            s.expect("for the first render")?;
        }
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        let mut sent = vec![0; n];
        for (k, &gone) in order.iter().enumerate() {
            let how = rng.below(ENDS.len());
            if rng.chance(2) {
                all[gone].process.send(Input::Wait(rng.below(3) as u64));
            }
            end(&all[gone], how);
            for &other in &order[k + 1..] {
                for _ in 0..rng.range(1, 3) {
                    all[other].process.send(Input::Say { source: 0, n: sent[other] });
                    sent[other] += 1;
                    all[other].expect(&format!("for an input, after another client ended with {}", ENDS[how]))?;
                }
                in_order(&all[other], &[sent[other]])?;
                ensure!(!all[other].dropped(), "a component ended with another's client");
            }
            ensure!(eventually(|| all[gone].dropped()), "the component is still there after {}", ENDS[how]);
            case.key(format!("{n} {k} {how}").as_bytes());
            case.count("clients which left", 1);
        }
        case.input = json!({"components": n});
        let traps = testkit::take_traps();
        ensure!(traps.is_empty(), "a process panicked: {}", traps[0]);
        for s in &all {
            forget(s.id);
        }
        Ok(())
    });
    ctx.section("long histories", 6, |case| {
        browser::with(script, |b| {
            b.open("/")?;
            let mut s = start_telling(None);
            let n = 300;
            let m = s.expect("for the first render")?;
            deliver(b, &m, &telling(0, None), "the first render")?;
            for i in 0..n {
                s.process.send(Input::Say { source: 0, n: i });
            }
            for i in 0..n {
                let m = s.expect("for an input")?;
                deliver(b, &m, &telling(i + 1, Some(&Input::Say { source: 0, n: i })), &format!("input {i}"))?;
            }
            in_order(&s, &[n])?;
            case.key(&case.index.to_le_bytes());
            case.count("inputs", n as u64);
            finish(&mut s)
        })
    });
    ctx.all("a pong inside a message", 1, |case| {
        let (mut s, transport) =
            Session::halting(Start { id: 0, tree: telling(0, None), queue: vec![], tell: true, slow_start: 0 });
        ensure!(eventually(|| transport.halted.load(Ordering::SeqCst)), "nothing is written");
        s.raw(&Frame::new(9, [1, 2, 3, 4], b"x".to_vec()).encode());
        case.key(b"halted");
        let got = s.message(Duration::from_secs(6).min(patience()));
        ensure!(
            matches!(got, Ok(Some(ref m)) if serde_json::from_str::<Value>(m).is_ok()),
            "[[pong-inside-message]] when a message cannot be written at once, a pong is written into the midst of it"
        );
        s.leave();
        Ok(())
    });
    ctx.all("what is left of a component", 1, |case| {
        // those of earlier cases have to be gone
        let mut live = testkit::live_processes();
        let mut same = 0;
        while same < 50 {
            std::thread::sleep(Duration::from_millis(2));
            let now = testkit::live_processes();
            same = if now == live { same + 1 } else { 0 };
            live = now;
        }
        let s = start_telling(None);
        s.leave();
        ensure!(eventually(|| s.dropped()), "the component is still there");
        case.key(b"left");
        let start = std::time::Instant::now();
        while testkit::live_processes() > live && start.elapsed() < Duration::from_secs(2).min(patience()) {
            std::thread::sleep(Duration::from_millis(5));
        }
        ensure!(
            testkit::live_processes() == live,
            "[[forwarder]] the process which passes on inputs waits for more after its component has ended"
        );
        Ok(())
    });
}
