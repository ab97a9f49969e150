//! Live components for the real lunatic runtime: what a page shows is told by its client, so that a driver
//! outside can have it show any sequence of trees, and knows what to expect.

use std::collections::{BTreeMap, HashMap};

use lunatic::{Mailbox, Process};
use puck::{
    core::{
        router::{
            match_url::{any_integer, anything, Match, Segment},
            Route, Router,
        },
        Core, Stream, UsedStream,
    },
    Request,
};
use puck_liveview::{
    component::{manage, Component, Context},
    dom::{
        element::Element,
        event::{ClickEvent, InputEvent, SubmitEvent},
        listener::{Listener, ListenerRef},
    },
    init,
};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Tree {
    id: usize,
    name: String,
    attrs: BTreeMap<String, String>,
    listeners: Vec<(String, String)>,
    children: Vec<Tree>,
    text: Option<String>,
    key: Option<String>,
}

impl Tree {
    fn listeners(&self, out: &mut Vec<(String, String)>) {
        out.extend(self.listeners.iter().cloned());
        for c in &self.children {
            c.listeners(out);
        }
    }

    fn element(&self) -> Element {
        Element {
            // after the ones of the frame
            id: self.id + 10,
            name: self.name.clone().into(),
            attributes: self.attrs.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
            listeners: self.listeners.iter().map(|(n, e)| ListenerRef::new(n, e)).collect(),
            children: self.children.iter().map(|c| c.element()).collect(),
            text: self.text.clone().map(|t| t.into()),
            key: self.key.clone(),
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Input {
    /// What to do next: the number of sources, and of the inputs of each, or a tree to show.
    Tell(String),
    Event { name: String, kind: String, value: Option<String>, render: u64 },
    Say { source: u64, n: u64, junk: String },
}

struct Show {
    id: String,
    tree: Option<Tree>,
    renders: u64,
    last: String,
}

impl Drop for Show {
    fn drop(&mut self) {
        println!("DROPPED {}", self.id);
    }
}

impl Component<String, Input> for Show {
    fn new(id: String, _: &Context<Input>) -> Self {
        Show { id, tree: None, renders: 0, last: String::new() }
    }

    fn update(&mut self, input: Input, context: &Context<Input>) {
        self.renders += 1;
        match input {
            Input::Tell(what) => {
                if let Some(id) = what.strip_prefix("name ") {
                    self.id = id.to_string();
                    self.last = what;
                } else if let Some(numbers) = what.strip_prefix("spawn ") {
                    let mut numbers = numbers.split(' ').map(|n| n.parse::<u64>().unwrap());
                    let (sources, each) = (numbers.next().unwrap(), numbers.next().unwrap());
                    for source in 0..sources {
                        let _ = Process::spawn((context.process(), source, each), |(to, source, each): (Process<Input>, u64, u64), _: Mailbox<()>| {
                            for n in 0..each {
                                to.send(Input::Say { source, n, junk: "x".repeat((n * 37 % 300) as usize) });
                            }
                        });
                    }
                    self.last = what;
                } else {
                    self.tree = serde_json::from_str(&what).unwrap();
                    self.last = "tree".into();
                }
            }
            Input::Event { name, kind, value, render } => {
                self.last = serde_json::to_string(&(kind, name, value, render)).unwrap();
            }
            Input::Say { source, n, junk } => {
                self.last = format!("say {source} {n} {}", junk.len());
            }
        }
    }

    fn render(&self) -> (Element, HashMap<String, Listener<Input>>) {
        let mut listeners: HashMap<String, Listener<Input>> = HashMap::new();
        let render = self.renders;
        let event = move |name: &str, kind: &str, value: Option<String>| Input::Event { name: name.into(), kind: kind.into(), value, render };
        let mut all = vec![];
        if let Some(t) = &self.tree {
            t.listeners(&mut all);
        }
        for (name, kind) in all {
            let n = name.clone();
            let listener = match kind.as_str() {
                "click" => Listener::Click { call: Box::new(move |_: ClickEvent| event(&n, "click", None)) },
                "submit" => Listener::Submit { call: Box::new(move |_: SubmitEvent| event(&n, "submit", None)) },
                _ => Listener::Input { call: Box::new(move |e: InputEvent| event(&n, "input", Some(e.value))) },
            };
            listeners.insert(name, listener);
        }
        listeners.insert("tell".into(), Listener::Input { call: Box::new(|e: InputEvent| Input::Tell(e.value)) });
        let plain = |id: usize, name: &str, text: String, listeners: Vec<ListenerRef>, children: Vec<Element>| Element {
            id,
            name: name.to_string().into(),
            attributes: HashMap::new(),
            listeners,
            children,
            text: (!text.is_empty()).then(|| text.into()),
            key: None,
        };
        let mut children = vec![
            plain(1, "input", String::new(), vec![ListenerRef::new("tell", "input")], vec![]),
            plain(2, "p", format!("{} {}", self.renders, self.last), vec![], vec![]),
        ];
        children.extend(self.tree.as_ref().map(|t| t.element()));
        (plain(0, "div", String::new(), vec![], children), listeners)
    }
}

/// Where the pages are: `/`, `/app`, `/x/y/` and below `/any` with something and a number.
fn mounts(end: Option<&'static str>) -> [Match; 4] {
    let m = |segments: Vec<Segment>, slash: bool| {
        let m = segments.into_iter().fold(Match::new(), |m, s| m.at(s));
        match end {
            Some(e) => m.at(Segment::Static(e)),
            None if slash => m.at(Segment::Static("")),
            None => m,
        }
    };
    let text = Segment::Static;
    [
        m(vec![], true),
        m(vec![text("app")], false),
        m(vec![text("x"), text("y")], true),
        m(vec![text("any"), anything(), any_integer()], false),
    ]
}

fn at(r: &Request, end: Option<&'static str>) -> bool {
    mounts(end).iter().any(|m| m.does_match(r.url()))
}

fn index(_: Request, stream: Stream, _: ()) -> UsedStream {
    stream.respond(init::index()).unwrap_or_else(|_| UsedStream::empty())
}

fn js(_: Request, stream: Stream, _: ()) -> UsedStream {
    stream.respond(init::js()).unwrap_or_else(|_| UsedStream::empty())
}

fn ws(request: Request, stream: Stream, _: ()) -> UsedStream {
    match stream.upgrade(&request) {
        Ok(socket) => {
            manage::<Show, String, Input>("nameless".to_string(), socket);
            UsedStream::empty()
        }
        Err(used) => used,
    }
}

fn server(spec: String, _: Mailbox<()>) {
    let (port, way) = spec.split_once('/').unwrap();
    let router = Router::<()>::new()
        .route(Route::new(|r| at(r, None), index))
        .route(Route::new(|r| at(r, Some("js")), js))
        .route(Route::new(|r| at(r, Some("ws")), ws));
    let address = (std::net::Ipv4Addr::LOCALHOST, port.parse().unwrap());
    match way {
        "run" => router.run(lunatic::net::TcpListener::bind(address).expect("bind"), ()),
        _ => Core::bind(address, ()).expect("bind").serve_router(router),
    }
}

#[lunatic::main]
fn main(_: Mailbox<()>) {
    for spec in std::env::args().skip(1) {
        if spec.contains('/') && spec.as_bytes()[0].is_ascii_digit() {
            let _ = Process::spawn(spec, server);
        }
    }
    println!("STARTED");
    loop {
        lunatic::sleep(std::time::Duration::from_secs(3600));
    }
}
