//! The browser: a process which runs the client script.

use std::{
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    sync::{Mutex, OnceLock},
};

use serde::Deserialize;
use serde_json::{json, Value};

pub struct Browser {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

/// What cannot be blamed on the code under test.
fn broken(what: impl std::fmt::Display) -> ! {
    println!("the model of the browser is broken: {what}");
    std::process::exit(5);
}

impl Browser {
    fn spawn(script: &str) -> Self {
        let mut child = Command::new("node")
            .arg("--max-old-space-size=2048")
            .arg(script)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| broken(e));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Browser { _child: child, to, from }
    }

    pub fn call(&mut self, what: Value) -> Value {
        self.call_with(what, |url| broken(format!("{url} is asked for")))
    }

    /// `fetch` gives what the browser asks for.
    pub fn call_with(&mut self, what: Value, mut fetch: impl FnMut(&str) -> Value) -> Value {
        let mut say = what;
        loop {
            let mut line = say.to_string();
            line.push('\n');
            self.to.write_all(line.as_bytes()).unwrap_or_else(|e| broken(e));
            let mut answer = String::new();
            self.from.read_line(&mut answer).unwrap_or_else(|e| broken(e));
            // as deep as the page is
            let mut json = serde_json::Deserializer::from_str(&answer);
            json.disable_recursion_limit();
            let v = Value::deserialize(&mut json).unwrap_or_else(|e| broken(format!("{e}: {answer}")));
            if let Some(text) = v["broken"].as_str() {
                broken(text);
            }
            match v["fetch"].as_str() {
                Some(url) => say = fetch(url),
                None => return v,
            }
        }
    }

    /// Loads the page.
    pub fn open(&mut self, path: &str) -> Result<Value, String> {
        let v = self.call(json!({"op": "start", "js": script(), "path": path, "host": "example.org:3000"}));
        fine(&v)?;
        Ok(v)
    }
}

pub fn fine(v: &Value) -> Result<(), String> {
    let errors = v["errors"].as_array().unwrap();
    if !errors.is_empty() {
        return Err(format!("the client script fails: {}", errors[0]));
    }
    if v["left"] == true {
        return Err("the page was left".into());
    }
    Ok(())
}

fn response_body(mut r: puck::Response) -> String {
    r.take_body().into_string().expect("the body is text")
}

/// The client script as it is served.
pub fn script() -> &'static str {
    static SCRIPT: OnceLock<String> = OnceLock::new();
    SCRIPT.get_or_init(|| response_body(puck_liveview::init::js()))
}

pub fn with<T>(script: &str, f: impl FnOnce(&mut Browser) -> T) -> T {
    static BROWSER: Mutex<Option<Browser>> = Mutex::new(None);
    let mut b = BROWSER.lock().unwrap_or_else(|e| e.into_inner());
    f(b.get_or_insert_with(|| Browser::spawn(script)))
}
