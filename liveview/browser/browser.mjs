// A page which runs the client script of puck_liveview, driven by lines of JSON on standard input.
import vm from "node:vm";
import readline from "node:readline";
import { createHash } from "node:crypto";
import { makeWindow } from "./dom.mjs";

let page = null;

// Sets up a page without content.
function prepare(href) {
  const made = makeWindow();
  const { window } = made;
  const sockets = [];
  const errors = [];
  class Socket extends window.EventTarget {
    constructor(url) {
      super();
      const u = new URL(String(url), window.document.baseURI);
      if (u.protocol === "http:") u.protocol = "ws:";
      if (u.protocol === "https:") u.protocol = "wss:";
      if (!page.policy("connect-src", u)) throw new Error(`the policy of the page forbids the socket ${u.href}`);
      if (!/^wss?:$/.test(u.protocol) || u.hash !== "") throw new Error(`'${url}' is not the address of a WebSocket`);
      this.url = u.href;
      this.readyState = 0;
      this.bufferedAmount = 0;
      this.binaryType = "blob";
      this.sent = [];
      sockets.push(this);
    }
    send(data) {
      if (this.readyState !== 1) throw new Error("the socket is not open");
      this.sent.push(typeof data === "string" ? data : { binary: true });
    }
    close() { this.readyState = 3; }
  }
  Object.assign(Socket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  let left = false;
  const url = new URL(href);
  const location = {
    host: url.host, hostname: url.hostname, port: url.port, protocol: url.protocol, pathname: url.pathname, search: url.search, hash: url.hash,
    origin: url.origin, get href() { return url.href; }, set href(_) { left = true; }, toString() { return url.href; }, reload() { left = true; }, assign() { left = true; }, replace() { left = true; },
  };
  const quiet = () => undefined;
  const globals = {
    WebSocket: Socket, location, navigator: { userAgent: "model" }, console: { log: quiet, warn: quiet, error: quiet, info: quiet, debug: quiet, trace: quiet, group: quiet, groupEnd: quiet, table: quiet, dir: quiet, assert: quiet, time: quiet, timeEnd: quiet },
    setTimeout: (f, t, ...a) => setTimeout(() => guard(() => f(...a)), Math.min(t ?? 0, 5)), clearTimeout, setInterval: () => 0, clearInterval: quiet,
    queueMicrotask, requestAnimationFrame: (f) => setTimeout(() => guard(() => f(0)), 0), structuredClone, URL, URLSearchParams, TextEncoder, TextDecoder, performance,
    AbortController, AbortSignal, alert: quiet,
  };
  const guard = (f) => { try { return f(); } catch (e) { errors.push(String(e)); } };
  Object.assign(window, globals);
  const context = vm.createContext(window);
  context.window = context.self = context.globalThis = window;
  page = { ...made, policy: () => true, sockets, errors, guard, get left() { return left; } };
  page.context = context;
  return made;
}

function start({ js, path, host }) {
  const { window } = prepare("http://" + host + path);
  run(js, "client.js");
  loaded(window);
  return { urls: page.sockets.map((s) => s.url) };
}

function run(js, filename) {
  page.guard(() => vm.runInContext(js, page.context, { filename }));
}

function loaded(window) {
  page.guard(() => window.document.dispatchEvent(new window.Event("DOMContentLoaded")));
  page.guard(() => window.dispatchEvent(new window.Event("load")));
  opened();
}

function opened() {
  for (const s of page.sockets) {
    s.readyState = 1;
    page.guard(() => s.dispatchEvent(new page.Event("open")));
  }
}

const JAVASCRIPT = /^(application\/(x-)?(java|ecma)script|text\/((x-)?(java|ecma)script|javascript1\.[0-5]|jscript|livescript))$/i;
const essence = (type) => String(type ?? "").split(";")[0].trim();

// What the Content-Security-Policy allows: for each directive and address, or script without one.
function policies(headers, page) {
  const all = headers.flatMap((h) => h.split(",")).map((p) => {
    const m = new Map();
    for (const d of p.split(";")) {
      const [name, ...sources] = d.trim().split(/\s+/);
      if (name !== "" && !m.has(name.toLowerCase())) m.set(name.toLowerCase(), sources);
    }
    return m;
  });
  const port = (u) => u.port || { "http:": "80", "ws:": "80", "https:": "443", "wss:": "443" }[u.protocol];
  const web = (p) => p.replace(/^ws/, "http");
  const matches = (s, u) => {
    if (s === "*") return /^(http|ws)s?:$/.test(u.protocol);
    if (/^'self'$/i.test(s)) return u.hostname === page.hostname && port(u) === port(page) && web(u.protocol) === web(page.protocol);
    if (/^[a-z][a-z0-9+.-]*:$/i.test(s)) return u.protocol === s.toLowerCase() || web(u.protocol) === s.toLowerCase();
    const m = /^(?:([a-z][a-z0-9+.-]*:)\/\/)?(\*\.)?([^/:']+|\[[^\]]*\])(?::(\d+|\*))?(\/.*)?$/i.exec(s);
    if (!m) return false;
    const scheme = (m[1] ?? page.protocol).toLowerCase();
    if (u.protocol !== scheme && web(u.protocol) !== scheme) return false;
    if (m[2] ? !u.hostname.endsWith("." + m[3]) : u.hostname !== m[3]) return false;
    if (m[4] !== "*" && (m[4] ?? port({ port: "", protocol: u.protocol })) !== port(u)) return false;
    return m[5] === undefined || m[5] === u.pathname || (m[5].endsWith("/") && u.pathname.startsWith(m[5]));
  };
  return (directive, u, script, inserted) => all.every((m) => {
    const sources = (directive === "script-src" ? m.get("script-src-elem") : undefined) ?? m.get(directive) ?? m.get("default-src");
    if (sources === undefined) return true;
    const nonce = script?.getAttribute("nonce");
    if (nonce && sources.includes(`'nonce-${nonce}'`)) return true;
    if (u) return sources.some((s) => matches(s, u)) || (inserted && sources.some((s) => /^'strict-dynamic'$/i.test(s)));
    const hashes = sources.map((s) => /^'(sha256|sha384|sha512)-(.*)'$/i.exec(s)).filter((h) => h);
    if (hashes.some(([, kind, h]) => createHash(kind.toLowerCase()).update(script.textContent).digest("base64") === h)) return true;
    return hashes.length === 0 && !sources.some((s) => /^'nonce-/i.test(s)) && sources.some((s) => /^'unsafe-inline'$/i.test(s));
  });
}

// Loads a page and its scripts, by asking for each resource.
async function visit({ url }) {
  const { window, document, parts } = prepare(url);
  const { guard, errors } = page;
  const answer = await ask({ fetch: url });
  if (!/^text\/html$/i.test(essence(answer.type))) errors.push(`the page is not shown as one, its type is ${answer.type}`);
  const fields = (name) => (answer.fields ?? []).filter(([k]) => k.toLowerCase() === name).map(([, v]) => v);
  page.policy = policies(fields("content-security-policy"), new URL(url));
  if (fields("content-disposition").some((d) => /^\s*attachment/i.test(d))) errors.push("the page is not shown but saved");
  if (fields("refresh").length > 0) errors.push("the page is left at once");
  if (fields("content-encoding").some((e) => !/^identity$/i.test(e))) errors.push("the page cannot be decoded");
  const { inHead, inBody } = parts(answer.body ?? "");
  const body = document.body;
  for (const c of [...body.childNodes]) body.removeChild(c);
  document.documentElement.removeChild(body);
  document.readyState = "loading";
  const later = [], waiting = [];
  waiting.done = new Set();
  const execute = async (s) => {
    const type = essence(s.getAttribute("type"));
    const module = /^module$/i.test(type);
    if (type !== "" && !module && !JAVASCRIPT.test(type)) return;
    let text = s.textContent;
    if (!page.policy("script-src", s.hasAttribute("src") ? new URL(s.src) : null, s, waiting.done?.has(s))) {
      errors.push(`the policy of the page forbids the script ${s.src ?? ""}`);
      return;
    }
    if (s.hasAttribute("src")) {
      const r = await ask({ fetch: s.src, script: true });
      if (!(r.status >= 200 && r.status < 300)) {
        errors.push(`the script ${s.src} cannot be loaded, the status is ${r.status}`);
        return;
      }
      if ((r.fields ?? []).some(([k, v]) => /^content-encoding$/i.test(k) && !/^identity$/i.test(v))) {
        errors.push(`the script ${s.src} cannot be decoded`);
        return;
      }
      const sniffed = /^nosniff$/i.test(r.nosniff ?? "");
      if ((module || sniffed) ? !JAVASCRIPT.test(essence(r.type)) : /^(image|audio|video)\/|^text\/csv$/i.test(essence(r.type))) {
        errors.push(`the script ${s.src} is refused, its type is ${r.type}`);
        return;
      }
      text = r.body;
    }
    if (text.trim() === "") return;
    document.currentScript = module ? null : s;
    run(module ? `{ ${text}\n}` : text, s.getAttribute("src") ?? "inline");
    document.currentScript = null;
    guard(() => s.dispatchEvent(new window.Event("load")));
  };
  // scripts which other scripts put into the page
  window._inserted = (n) => {
    if (n.localName !== "script" || n._started || (!n.hasAttribute("src") && n.textContent.trim() === "")) return;
    n._started = true;
    waiting.done.add(n);
    waiting.push(n);
  };
  const place = async (nodes, parent) => {
    for (const n of nodes) {
      parent.appendChild(n);
      for (const w of [...page.walk(n)]) {
        if (w.localName !== "script") continue;
        w._started = true;
        const module = /^module$/i.test(essence(w.getAttribute("type")));
        if (module || (w.hasAttribute("src") && w.hasAttribute("defer") && !w.hasAttribute("async"))) later.push(w);
        else await execute(w);
      }
    }
  };
  await place(inHead, document.head);
  document.documentElement.appendChild(body);
  await place(inBody, body);
  document.readyState = "interactive";
  for (const s of later) await execute(s);
  guard(() => document.dispatchEvent(new window.Event("DOMContentLoaded")));
  while (waiting.length) await execute(waiting.shift());
  await settle();
  while (waiting.length) await execute(waiting.shift());
  document.readyState = "complete";
  guard(() => window.dispatchEvent(new window.Event("load")));
  await settle();
  while (waiting.length) await execute(waiting.shift());
  return { urls: page.sockets.map((s) => s.url) };
}

function describe(node) {
  const attrs = {};
  for (const a of node.attributes) attrs[a.name] = a.value;
  const content = [];
  for (const c of node.childNodes) {
    if (c.nodeType === 1) content.push(describe(c));
    else if (c.nodeType === 3 && c.data !== "") {
      if (typeof content[content.length - 1] === "string") content[content.length - 1] += c.data;
      else content.push(c.data);
    }
  }
  const out = { tag: node.localName, attrs, content, placed: node._placed };
  if (node.value !== undefined) out.value = node.value;
  return out;
}

const at = (path) => path.reduce((n, i) => n?.children[i], page.document.body);
const takeSent = () => page.sockets.flatMap((s) => s.sent.splice(0));

function fire({ path, type, value, bubbles = true }) {
  const node = at(path);
  if (!node) return { missing: true, sent: [] };
  if (value !== undefined && value !== null) node.value = value;
  const event = new page.Event(type, { bubbles, cancelable: type !== "input" });
  page.guard(() => node.dispatchEvent(event));
  return { prevented: event.defaultPrevented };
}

const settle = async () => {
  for (let i = 0; i < 2; i++) await new Promise((r) => setImmediate(r));
};

async function handle(m) {
  let answer = {};
  if (m.op === "start") answer = start(m);
  else if (m.op === "visit") answer = await visit(m);
  else if (m.op === "opened") {
    opened();
    await settle();
  } else if (m.op === "type") {
    // the user types into every field
    answer.fields = 0;
    for (const n of page.walk(page.document.body)) {
      if (n.localName !== "input") continue;
      n.value = `typed ${answer.fields++}`;
    }
    answer.page = [...page.document.body.children].map(describe);
  }
  else if (m.op === "message") {
    for (const s of page.sockets) {
      page.guard(() => s.dispatchEvent(new page.Event("message", { _more: { data: m.data } })));
    }
    await settle();
    answer.page = [...page.document.body.children].map(describe);
  } else if (m.op === "look") {
    answer.page = [...page.document.body.children].map(describe);
  } else if (m.op === "fire") {
    answer = fire(m);
    await settle();
  } else if (m.op === "probe") {
    // what each element answers to each event
    answer.found = [];
    answer.before = takeSent();
    const go = (node, path) => {
      for (const type of m.types) {
        if (type === "input" && node.localName !== "input") continue;
        const { prevented } = fire({ path, type, value: type === "input" ? m.value : null });
        answer.found.push({ path, type, sent: takeSent(), prevented });
      }
      [...node.children].forEach((c, i) => go(c, [...path, i]));
    };
    [...page.document.body.children].forEach((c, i) => go(c, [i]));
    await settle();
  }
  answer.sent = takeSent();
  answer.errors = page.errors.splice(0);
  answer.left = page.left;
  return answer;
}

const lines = readline.createInterface({ input: process.stdin })[Symbol.asyncIterator]();
const say = (what) => process.stdout.write(JSON.stringify(what) + "\n");

// Asks for a resource.
async function ask(what) {
  say(what);
  return JSON.parse((await lines.next()).value);
}

for (;;) {
  const { value: line, done } = await lines.next();
  if (done) break;
  let answer;
  try {
    answer = await handle(JSON.parse(line));
  } catch (e) {
    answer = { broken: String(e.stack ?? e) };
  }
  say(answer);
}
