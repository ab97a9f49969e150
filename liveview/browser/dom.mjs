// A small model of a browser's document: what DOM scripts ordinarily use, following the DOM standard.

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);

// elements whose content is text, and whether it has character references
const RAW = new Map([["script", false], ["style", false], ["textarea", true], ["title", true]]);

const VALUED = new Set(["input", "textarea", "select", "button", "option"]);

export function makeWindow() {
  let places = 0;

  class EventTarget {
    #listeners = [];
    addEventListener(type, listener, options) {
      if (listener === null || listener === undefined) return;
      const o = typeof options === "object" && options !== null ? options : { capture: !!options };
      const capture = !!o.capture;
      if (o.signal && o.signal.aborted) return;
      if (this.#listeners.some((l) => l.type === String(type) && l.listener === listener && l.capture === capture)) return;
      const entry = { type: String(type), listener, capture, once: !!o.once, removed: false };
      this.#listeners.push(entry);
      if (o.signal) o.signal.addEventListener("abort", () => this.removeEventListener(type, listener, capture));
    }
    removeEventListener(type, listener, options) {
      const capture = typeof options === "object" && options !== null ? !!options.capture : !!options;
      const at = this.#listeners.findIndex((l) => l.type === String(type) && l.listener === listener && l.capture === capture);
      if (at >= 0) this.#listeners.splice(at, 1)[0].removed = true;
    }
    _call(event, phase) {
      event.currentTarget = this;
      for (const l of [...this.#listeners]) {
        if (l.removed || l.type !== event.type) continue;
        if ((phase === 1 && !l.capture) || (phase === 3 && l.capture)) continue;
        if (l.once) this.removeEventListener(l.type, l.listener, l.capture);
        if (typeof l.listener === "function") {
          l.listener.call(this, event);
        } else if (typeof l.listener.handleEvent === "function") l.listener.handleEvent(event);
        if (event._stopNow) return;
      }
      const handler = phase === 1 ? null : this["on" + event.type];
      if (typeof handler === "function" && handler.call(this, event) === false) event.preventDefault();
    }
    dispatchEvent(event) {
      event.target = this;
      const path = [];
      for (let n = this._eventParent(); n; n = n._eventParent()) path.push(n);
      for (const n of [...path].reverse()) {
        if (event._stop) break;
        event.eventPhase = 1;
        n._call(event, 1);
      }
      if (!event._stop) {
        event.eventPhase = 2;
        this._call(event, 2);
      }
      if (event.bubbles) {
        for (const n of path) {
          if (event._stop) break;
          event.eventPhase = 3;
          n._call(event, 3);
        }
      }
      event.eventPhase = 0;
      event.currentTarget = null;
      return !event.defaultPrevented;
    }
    _eventParent() { return null; }
  }

  class Event {
    constructor(type, init = {}) {
      this.type = String(type);
      this.bubbles = !!init.bubbles;
      this.cancelable = !!init.cancelable;
      this.defaultPrevented = false;
      this.isTrusted = true;
      this.timeStamp = 0;
      Object.assign(this, init._more || {});
    }
    preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = true; this._stopNow = true; }
    composedPath() {
      const out = [];
      for (let n = this.target; n; n = n._eventParent()) out.push(n);
      return out;
    }
    get srcElement() { return this.target; }
  }
  class CustomEvent extends Event {
    constructor(type, init = {}) { super(type, init); this.detail = init.detail ?? null; }
  }

  class DomError extends Error {
    constructor(name, message) { super(message); this.name = name; }
  }

  function list(array) {
    if (!array.item) {
      Object.defineProperty(array, "item", { value: (i) => array[i] ?? null });
      Object.defineProperty(array, "namedItem", { value: (n) => array.find((e) => e.id === n) ?? null });
    }
    return array;
  }

  class Node extends EventTarget {
    constructor(type) {
      super();
      this.nodeType = type;
      this.parentNode = null;
      this._children = list([]);
      this.ownerDocument = null;
    }
    get childNodes() { return this._children; }
    get firstChild() { return this._children[0] ?? null; }
    get lastChild() { return this._children[this._children.length - 1] ?? null; }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    get nextSibling() { return this._sibling(1); }
    get previousSibling() { return this._sibling(-1); }
    _sibling(by) {
      if (!this.parentNode) return null;
      const all = this.parentNode._children;
      return all[all.indexOf(this) + by] ?? null;
    }
    _eventParent() { return this.parentNode ?? (this === document ? window : null); }
    get isConnected() { return this.getRootNode() === document; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    hasChildNodes() { return this._children.length > 0; }
    contains(other) {
      for (let n = other; n; n = n.parentNode) if (n === this) return true;
      return false;
    }
    isSameNode(other) { return this === other; }
    isEqualNode(other) { return !!other && this.nodeType === other.nodeType && serialize(this) === serialize(other); }
    compareDocumentPosition(other) {
      if (this === other) return 0;
      if (this.contains(other)) return 20;
      if (other.contains(this)) return 10;
      const all = [...walk(this.getRootNode())];
      return all.indexOf(other) > all.indexOf(this) ? 4 : 2;
    }
    _adopt(node) {
      if (!(node instanceof Node)) throw new TypeError("parameter is not of type 'Node'");
      if (node.contains(this)) throw new DomError("HierarchyRequestError", "the new child contains the parent");
      if (this.nodeType === 3) throw new DomError("HierarchyRequestError", "text has no children");
      const nodes = node.nodeType === 11 ? [...node._children] : [node];
      for (const n of nodes) n._detach();
      return nodes;
    }
    _detach() {
      if (!this.parentNode) return;
      const all = this.parentNode._children;
      all.splice(all.indexOf(this), 1);
      this.parentNode = null;
    }
    appendChild(node) { return this.insertBefore(node, null); }
    insertBefore(node, before) {
      if (before === undefined) throw new TypeError("2 arguments required");
      if (before && before.parentNode !== this) throw new DomError("NotFoundError", "the node before which the new node is to be inserted is not a child of this node");
      if (before === node) before = node.nextSibling;
      const nodes = this._adopt(node);
      const at = before ? this._children.indexOf(before) : this._children.length;
      this._children.splice(at, 0, ...nodes);
      for (const n of nodes) n.parentNode = this;
      for (const n of nodes) {
        // tells an element which has stayed where it is from one which was put there
        n._placed = ++places;
        if (window._inserted && n.isConnected) for (const w of walk(n)) window._inserted(w);
      }
      return node;
    }
    removeChild(node) {
      if (!(node instanceof Node)) throw new TypeError("parameter 1 is not of type 'Node'");
      if (node.parentNode !== this) throw new DomError("NotFoundError", "the node to be removed is not a child of this node");
      node._detach();
      return node;
    }
    replaceChild(node, old) {
      if (!(old instanceof Node) || old.parentNode !== this) throw new DomError("NotFoundError", "the node to be replaced is not a child of this node");
      if (node === old) return old;
      const before = old.nextSibling === node ? node.nextSibling : old.nextSibling;
      old._detach();
      this.insertBefore(node, before);
      return old;
    }
    normalize() {
      for (const n of [...this._children]) {
        if (n.nodeType === 3) {
          if (n.data === "") { n._detach(); continue; }
          const p = n.previousSibling;
          if (p && p.nodeType === 3) { p.data += n.data; n._detach(); }
        } else n.normalize();
      }
    }
    cloneNode(deep = false) {
      const copy = this._clone();
      if (deep) for (const c of this._children) copy.appendChild(c.cloneNode(true));
      return copy;
    }
    get textContent() {
      let s = "";
      for (const n of walk(this)) if (n.nodeType === 3) s += n.data;
      return s;
    }
    set textContent(value) {
      for (const c of [...this._children]) c._detach();
      const s = value === null || value === undefined ? "" : String(value);
      if (s !== "") this.appendChild(document.createTextNode(s));
    }
    get nodeValue() { return null; }
    set nodeValue(_) { }
  }
  Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
  Object.assign(Node.prototype, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });

  const childNode = {
    remove() { this._detach(); },
    before(...nodes) { for (const n of nodes.map(toNode)) this.parentNode?.insertBefore(n, this); },
    after(...nodes) {
      const parent = this.parentNode, before = this.nextSibling;
      for (const n of nodes.map(toNode)) parent?.insertBefore(n, before);
    },
    replaceWith(...nodes) {
      const parent = this.parentNode;
      if (!parent) return;
      const mark = document.createTextNode("");
      parent.replaceChild(mark, this);
      for (const n of nodes.map(toNode)) parent.insertBefore(n, mark);
      mark._detach();
    },
  };
  const toNode = (n) => (n instanceof Node ? n : document.createTextNode(String(n)));

  class CharacterData extends Node {
    constructor(type, data) { super(type); this.data = data; }
    get nodeValue() { return this.data; }
    set nodeValue(v) { this.data = v === null ? "" : String(v); }
    get textContent() { return this.data; }
    set textContent(v) { this.data = v === null || v === undefined ? "" : String(v); }
    get length() { return this.data.length; }
    appendData(s) { this.data += s; }
    replaceData(at, n, s) { this.data = this.data.slice(0, at) + s + this.data.slice(at + n); }
    get wholeText() { return this.data; }
    get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
  }
  class Text extends CharacterData {
    constructor(data = "") { super(3, String(data)); }
    get nodeName() { return "#text"; }
    _clone() { return document.createTextNode(this.data); }
    splitText(at) { const t = document.createTextNode(this.data.slice(at)); this.data = this.data.slice(0, at); this.parentNode?.insertBefore(t, this.nextSibling); return t; }
  }
  class Comment extends CharacterData {
    constructor(data = "") { super(8, String(data)); }
    get nodeName() { return "#comment"; }
    _clone() { return new Comment(this.data); }
  }
  Object.defineProperties(CharacterData.prototype, Object.getOwnPropertyDescriptors(childNode));

  class Attr {
    constructor(name, value) { this.name = name; this.value = value; }
    get nodeName() { return this.name; }
    get localName() { return this.name; }
    get nodeValue() { return this.value; }
    set nodeValue(v) { this.value = String(v); }
    get textContent() { return this.value; }
  }

  const parentNode = {
    get children() { return list(this._children.filter((c) => c.nodeType === 1)); },
    get firstElementChild() { return this.children[0] ?? null; },
    get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; },
    get childElementCount() { return this.children.length; },
    append(...nodes) { for (const n of nodes.map(toNode)) this.appendChild(n); },
    prepend(...nodes) { const first = this.firstChild; for (const n of nodes.map(toNode)) this.insertBefore(n, first); },
    replaceChildren(...nodes) {
      for (const c of [...this._children]) c._detach();
      this.append(...nodes);
    },
    querySelectorAll(selector) {
      const test = compile(selector);
      const out = [];
      for (const n of walk(this)) if (n !== this && n.nodeType === 1 && test(n)) out.push(n);
      return list(out);
    },
    querySelector(selector) { return this.querySelectorAll(selector)[0] ?? null; },
    getElementsByTagName(name) {
      const out = [];
      for (const n of walk(this)) if (n !== this && n.nodeType === 1 && (name === "*" || n.localName === name.toLowerCase())) out.push(n);
      return list(out);
    },
    getElementsByClassName(name) {
      const out = [];
      for (const n of walk(this)) if (n !== this && n.nodeType === 1 && n.classList.contains(name)) out.push(n);
      return list(out);
    },
  };

  class Element extends Node {
    constructor(name) {
      super(1);
      this.localName = name;
      this.style = {};
      const element = this;
      this._attributes = [];
      Object.defineProperties(this._attributes, {
        item: { value: (i) => this._attributes[i] ?? null },
        getNamedItem: { value: (n) => this._attributes.find((a) => a.name === String(n).toLowerCase()) ?? null },
        setNamedItem: { value: (a) => { this.setAttribute(a.name, a.value); return null; } },
        removeNamedItem: { value: (n) => this.removeAttribute(n) },
      });
      this.dataset = new Proxy({}, {
        get: (_, k) => (typeof k === "string" ? element.getAttribute("data-" + kebab(k)) ?? undefined : undefined),
        set: (_, k, v) => { element.setAttribute("data-" + kebab(k), v); return true; },
        has: (_, k) => element.hasAttribute("data-" + kebab(k)),
        deleteProperty: (_, k) => { element.removeAttribute("data-" + kebab(k)); return true; },
      });
      this.classList = {
        _all: () => (element.getAttribute("class") ?? "").split(/\s+/).filter(Boolean),
        contains(c) { return this._all().includes(c); },
        add(...cs) { element.setAttribute("class", [...new Set([...this._all(), ...cs])].join(" ")); },
        remove(...cs) { element.setAttribute("class", this._all().filter((c) => !cs.includes(c)).join(" ")); },
        toggle(c) { this.contains(c) ? this.remove(c) : this.add(c); },
      };
    }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get namespaceURI() { return "http://www.w3.org/1999/xhtml"; }
    get attributes() { return this._attributes; }
    get id() { return this.getAttribute("id") ?? ""; }
    set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") ?? ""; }
    set className(v) { this.setAttribute("class", v); }
    getAttribute(name) { return this._attributes.find((a) => a.name === String(name).toLowerCase())?.value ?? null; }
    getAttributeNode(name) { return this._attributes.find((a) => a.name === String(name).toLowerCase()) ?? null; }
    getAttributeNames() { return this._attributes.map((a) => a.name); }
    hasAttribute(name) { return this.getAttribute(name) !== null; }
    hasAttributes() { return this._attributes.length > 0; }
    setAttribute(name, value) {
      if (arguments.length < 2) throw new TypeError("2 arguments required");
      name = String(name).toLowerCase();
      if (!/^[A-Za-z_:\u00c0-\uffff][-A-Za-z0-9._:\u00b7-\uffff]*$/.test(name)) throw new DomError("InvalidCharacterError", `'${name}' is not a valid attribute name`);
      const attr = this._attributes.find((a) => a.name === name);
      if (attr) attr.value = String(value);
      else this._attributes.push(new Attr(name, String(value)));
    }
    setAttributeNode(a) { this.setAttribute(a.name, a.value); return null; }
    removeAttribute(name) {
      const at = this._attributes.findIndex((a) => a.name === String(name).toLowerCase());
      if (at >= 0) this._attributes.splice(at, 1);
    }
    toggleAttribute(name, force) {
      const has = this.hasAttribute(name);
      if (force ?? !has) { if (!has) this.setAttribute(name, ""); return true; }
      this.removeAttribute(name);
      return false;
    }
    get src() { return this.hasAttribute("src") ? resolve(this.getAttribute("src")) : ""; }
    set src(v) { this.setAttribute("src", v); }
    get href() { return this.hasAttribute("href") ? resolve(this.getAttribute("href")) : ""; }
    set href(v) { this.setAttribute("href", v); }
    get type() { return this.getAttribute("type") ?? ""; }
    set type(v) { this.setAttribute("type", v); }
    get text() { return this.textContent; }
    set text(v) { this.textContent = v; }
    get async() { return this.hasAttribute("async"); }
    set async(v) { this.toggleAttribute("async", !!v); }
    get defer() { return this.hasAttribute("defer"); }
    set defer(v) { this.toggleAttribute("defer", !!v); }
    get value() { return VALUED.has(this.localName) ? this._value ?? this.getAttribute("value") ?? "" : undefined; }
    set value(v) { this._value = String(v); }
    get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this._children.map(serialize).join(""); }
    set innerHTML(html) {
      for (const c of [...this._children]) c._detach();
      for (const n of parse(String(html))) this.appendChild(n);
    }
    get outerHTML() { return serialize(this); }
    set outerHTML(html) { this.replaceWith(...parse(String(html))); }
    insertAdjacentElement(where, node) {
      if (where === "beforebegin") this.before(node);
      else if (where === "afterbegin") this.prepend(node);
      else if (where === "beforeend") this.append(node);
      else this.after(node);
      return node;
    }
    insertAdjacentText(where, text) { this.insertAdjacentElement(where, document.createTextNode(text)); }
    insertAdjacentHTML(where, html) {
      const nodes = parse(String(html));
      if (where === "beforebegin") this.before(...nodes);
      else if (where === "afterbegin") this.prepend(...nodes);
      else if (where === "beforeend") this.append(...nodes);
      else this.after(...nodes);
    }
    matches(selector) { return compile(selector)(this); }
    closest(selector) {
      const test = compile(selector);
      for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (test(n)) return n;
      return null;
    }
    focus() { document.activeElement = this; }
    blur() { document.activeElement = document.body; }
    click() { this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })); }
    _clone() {
      const copy = document.createElement(this.localName);
      for (const a of this._attributes) copy.setAttribute(a.name, a.value);
      return copy;
    }
  }
  Object.defineProperties(Element.prototype, Object.getOwnPropertyDescriptors(childNode));
  Object.defineProperties(Element.prototype, Object.getOwnPropertyDescriptors(parentNode));

  class DocumentFragment extends Node {
    constructor() { super(11); }
    get nodeName() { return "#document-fragment"; }
    _clone() { return new DocumentFragment(); }
    getElementById(id) { return byId(this, id); }
  }
  Object.defineProperties(DocumentFragment.prototype, Object.getOwnPropertyDescriptors(parentNode));

  class Document extends Node {
    constructor() { super(9); }
    get nodeName() { return "#document"; }
    createElement(name) {
      name = String(name);
      if (!/^[A-Za-z_:\u00c0-\uffff][^\0\t\n\f\r \/>]*$/.test(name) || name === "") throw new DomError("InvalidCharacterError", `'${name}' is not a valid name`);
      const e = new Element(name.toLowerCase());
      e.ownerDocument = this;
      return e;
    }
    createElementNS(_, name) { return this.createElement(name); }
    createTextNode(data) { const t = new Text(data); t.ownerDocument = this; return t; }
    createComment(data) { return new Comment(data); }
    createDocumentFragment() { return new DocumentFragment(); }
    createEvent() { return new Event(""); }
    getElementById(id) { return byId(this, id); }
    get documentElement() { return this.children[0] ?? null; }
    get head() { return this.documentElement.children[0] ?? null; }
    get body() { return this.documentElement.children[1] ?? null; }
    readyState = "complete";
    currentScript = null;
    get baseURI() { return base(); }
    get URL() { return window.location.href; }
    get scripts() { return this.getElementsByTagName("script"); }
    write(html) {
      const nodes = parse(String(html));
      for (const n of nodes) for (const w of walk(n)) w._started = false;
      const at = this.currentScript;
      const parent = at?.parentNode ?? this.body ?? this.head;
      const before = at?.parentNode ? at.nextSibling : null;
      for (const n of nodes) parent.insertBefore(n, before);
    }
    writeln(html) { this.write(html + "\n"); }
    get defaultView() { return window; }
    get location() { return window.location; }
    importNode(node, deep) { return node.cloneNode(deep); }
    adoptNode(node) { node._detach(); return node; }
    _clone() { throw new DomError("NotSupportedError", "documents are not cloned"); }
  }
  Object.defineProperties(Document.prototype, Object.getOwnPropertyDescriptors(parentNode));

  function* walk(node) {
    yield node;
    for (const c of [...node._children]) yield* walk(c);
  }
  function byId(root, id) {
    id = String(id);
    if (id === "") return null;
    for (const n of walk(root)) if (n.nodeType === 1 && n.getAttribute("id") === id) return n;
    return null;
  }
  const kebab = (s) => s.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
  const unescapeCss = (s) => s.replace(/\\([0-9a-fA-F]{1,6}) ?|\\(.)/g, (_, hex, c) => (hex ? String.fromCodePoint(parseInt(hex, 16)) : c));

  // Compound selectors with descendant and child combinators.
  function compile(selector) {
    const alternatives = selector.split(",").map((s) => s.trim()).map((s) => {
      const parts = s.match(/(?:\[[^\]]*\]|\\.|[^\s>\[])+|>/g) ?? [];
      if (!parts.length) throw new DomError("SyntaxError", `'${selector}' is not a valid selector`);
      return parts.map((p) => (p === ">" ? ">" : simple(p)));
    });
    const holds = (parts, node) => {
      let i = parts.length - 1;
      if (!parts[i](node)) return false;
      let n = node;
      for (i--; i >= 0; i--) {
        if (parts[i] === ">") {
          n = n.parentNode;
          i--;
          if (!n || n.nodeType !== 1 || !parts[i](n)) return false;
        } else {
          do n = n.parentNode; while (n && n.nodeType === 1 && !parts[i](n));
          if (!n || n.nodeType !== 1) return false;
        }
      }
      return true;
    };
    return (node) => alternatives.some((parts) => holds(parts, node));
  }
  function simple(text) {
    const tests = [];
    const re = /\[\s*([-\w:]+)\s*(?:([~^$*|]?=)\s*(?:"((?:[^"\\]|\\.)*)"|'((?:[^'\\]|\\.)*)'|([^\]\s]+)))?\s*\]|([#.]?)((?:[-\w\u0080-\uffff]|\\[0-9a-fA-F]{1,6} ?|\\.)+)|(\*)|(:scope)/gy;
    while (re.lastIndex < text.length) {
      const m = re.exec(text);
      if (!m) throw new DomError("SyntaxError", `'${text}' is not a valid selector`);
      if (m[1]) {
        const name = m[1], op = m[2], raw = m[3] ?? m[4] ?? m[5], value = raw === undefined ? undefined : unescapeCss(raw);
        tests.push((e) => {
          const has = e.getAttribute(name);
          if (has === null) return false;
          if (!op) return true;
          if (op === "=") return has === value;
          if (op === "^=") return has.startsWith(value);
          if (op === "$=") return has.endsWith(value);
          if (op === "*=") return has.includes(value);
          if (op === "~=") return has.split(/\s+/).includes(value);
          return has === value || has.startsWith(value + "-");
        });
      } else if (m[8] || m[9]) {
        tests.push(() => true);
      } else {
        const what = unescapeCss(m[7]);
        if (m[6] === "#") {
          if (/^\d/.test(m[7])) throw new DomError("SyntaxError", `'${text}' is not a valid selector`);
          tests.push((e) => e.getAttribute("id") === what);
        } else if (m[6] === ".") tests.push((e) => e.classList.contains(what));
        else tests.push((e) => e.localName === what.toLowerCase());
      }
    }
    return (e) => tests.every((t) => t(e));
  }

  const escapeText = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
  const escapeAttr = (s) => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;");
  function serialize(node) {
    if (node.nodeType === 3) return escapeText(node.data);
    if (node.nodeType === 8) return `<!--${node.data}-->`;
    const inner = node._children.map(serialize).join("");
    if (node.nodeType !== 1) return inner;
    const attrs = node._attributes.map((a) => ` ${a.name}="${escapeAttr(a.value)}"`).join("");
    return VOID.has(node.localName) ? `<${node.localName}${attrs}>` : `<${node.localName}${attrs}>${inner}</${node.localName}>`;
  }
  const entity = (s) => s.replace(/&(?:#x([0-9a-fA-F]+)|#(\d+)|(amp|lt|gt|quot|apos|nbsp));/g, (_, h, d, n) =>
    n ? { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" }[n] : String.fromCodePoint(parseInt(h ?? d, h ? 16 : 10)));
  const base = () => {
    const b = document.querySelector("base[href]");
    return b ? new URL(b.getAttribute("href"), window.location.href).href : window.location.href;
  };
  const resolve = (url) => { try { return new URL(url, base()).href; } catch { return url; } };

  // The parts of a page: what is in its head, and what is in its body.
  function parts(html) {
    const nodes = parse(html.replace(/^\s*(<!--[\s\S]*?-->\s*)*<!doctype[^>]*>/i, ""));
    const all = nodes.flatMap((n) => (n.localName === "html" ? [...n._children] : [n]));
    const inHead = [], inBody = [];
    const of = new Set(["script", "meta", "title", "link", "base", "style", "noscript"]);
    for (const n of all) {
      const space = n.nodeType === 8 || (n.nodeType === 3 && n.data.trim() === "");
      if (n.localName === "head" && !inBody.length) inHead.push(...n._children);
      else if (n.localName === "body") inBody.push(...n._children);
      else if (!inBody.length && (space || of.has(n.localName))) inHead.push(n);
      else inBody.push(n);
    }
    for (const n of [...inHead, ...inBody]) n._detach();
    return { inHead, inBody };
  }
  function parse(html) {
    const root = new DocumentFragment();
    let at = root, i = 0;
    while (i < html.length) {
      if (html[i] !== "<" || !/^<(?:\/?[A-Za-z]|!)/.test(html.slice(i, i + 3))) {
        let end = html.indexOf("<", i + 1);
        if (end < 0) end = html.length;
        const data = entity(html.slice(i, end));
        if (at.lastChild && at.lastChild.nodeType === 3) at.lastChild.data += data;
        else at.appendChild(document.createTextNode(data));
        i = end;
        continue;
      }
      if (html.startsWith("<!--", i)) {
        const end = html.indexOf("-->", i + 4);
        at.appendChild(new Comment(html.slice(i + 4, end < 0 ? html.length : end)));
        i = end < 0 ? html.length : end + 3;
        continue;
      }
      const m = /^<(\/?)([A-Za-z][^\s\/>]*)((?:\s*(?:"[^"]*"|'[^']*'|[^>"'])*?))(\/?)>/.exec(html.slice(i));
      if (!m) { i = html.length; break; }
      i += m[0].length;
      const name = m[2].toLowerCase();
      if (m[1]) {
        for (let n = at; n !== root; n = n.parentNode) if (n.localName === name) { at = n.parentNode; break; }
        continue;
      }
      const e = document.createElement(name);
      for (const a of m[3].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"']+)))?/g)) {
        try { e.setAttribute(a[1], entity(a[2] ?? a[3] ?? a[4] ?? "")); } catch { /* dropped */ }
      }
      if (name === "script") e._started = true;
      at.appendChild(e);
      if (VOID.has(name)) continue;
      if (RAW.has(name)) {
        const close = new RegExp(`</${name}[\\s/>]`, "i").exec(html.slice(i));
        const end = close ? i + close.index : html.length;
        const data = html.slice(i, end);
        if (data !== "") e.appendChild(document.createTextNode(RAW.get(name) ? entity(data) : data));
        const after = html.indexOf(">", end);
        i = after < 0 ? html.length : after + 1;
        continue;
      }
      at = e;
    }
    return [...root._children];
  }

  const window = new EventTarget();
  const document = new Document();
  const html = document.createElement("html");
  document.appendChild(html);
  html.appendChild(document.createElement("head"));
  const body = html.appendChild(document.createElement("body"));
  body.appendChild(document.createTextNode("\n            \n        "));
  document.activeElement = body;
  Object.assign(window, {
    window, document, EventTarget, Event, CustomEvent, Node, Element, HTMLElement: Element, Text, Comment, Document, DocumentFragment,
    InputEvent: Event, MouseEvent: Event, SubmitEvent: Event, DOMException: DomError, CSS: { escape: (s) => String(s).replace(/^(\d)/, "\\3$1 ").replace(/([^-\w\u0080-\uffff\\ ])/g, "\\$1") },
  });
  for (const m of ["addEventListener", "removeEventListener", "dispatchEvent"]) window[m] = EventTarget.prototype[m].bind(window);
  return { window, document, Event, walk, parts };
}
