// A small model of the browser: elements, selectors, events, focus, visibility.  It knows nothing of the scripts under test.

const VOID = new Set(["br", "img", "meta", "link", "hr", "input", "path", "circle", "rect", "stop"]);

export class Event {
  constructor(type, init = {}) {
    this.type = type; this.cancelable = true; this.composed = true; this.isTrusted = true; this.detail = null; this.timeStamp = 0; this.eventPhase = 0;
    Object.assign(this, init); this.stopped = false; this.defaultPrevented = false; this.bubbles = init.bubbles ?? false;
  }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.now = true; }
  preventDefault() { this.defaultPrevented = true; }
  composedPath() { return [...(this.path ?? [])]; }
  getModifierState(k) { return !!this[k.toLowerCase() + "Key"]; }
  get cancelBubble() { return this.stopped; }
  set cancelBubble(v) { if (v) this.stopped = true; }
  get srcElement() { return this.target; }
}
export class KeyboardEvent extends Event { }
export class MouseEvent extends Event { }
export class CustomEvent extends Event { }

export class EventTarget {
  constructor() { this.listeners = []; }
  addEventListener(type, fn, opts) {
    const capture = opts === true || !!(opts && opts.capture);
    if (fn && !this.listeners.some(l => l.type === type && l.fn === fn && l.capture === capture)) this.listeners.push({ type, fn, once: !!(opts && opts.once), capture });
    if (opts && opts.signal) opts.signal.addEventListener("abort", () => this.removeEventListener(type, fn, opts));
  }
  removeEventListener(type, fn, opts) {
    const capture = opts === true || !!(opts && opts.capture);
    this.listeners = this.listeners.filter(l => !(l.type === type && l.fn === fn && l.capture === capture));
  }
  dispatchEvent(ev) {
    ev.target ??= this;
    const path = [this];
    for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
    const last = path[path.length - 1];
    if (last instanceof Document && last.win) path.push(last.win);
    ev.path = path;
    const at = (n, capture, own) => {
      ev.currentTarget = n;
      const todo = n.listeners.filter(l => l.type === ev.type && (own || l.capture === capture));
      const handler = n["on" + ev.type];
      if (typeof handler === "function" && (own || !capture)) todo.push({ fn: handler });
      for (const l of todo) {
        if (l.once) n.removeEventListener(l.type, l.fn, l.capture);
        try { const r = typeof l.fn === "function" ? l.fn.call(n, ev) : l.fn.handleEvent(ev); if (r === false && l.fn === handler) ev.preventDefault(); }
        catch (err) { Env.errors.push(String(err && err.message || err)); }
        if (ev.now) break;
      }
    };
    for (const n of path.slice(1).reverse()) { if (ev.stopped) break; ev.eventPhase = 1; at(n, true, false); }
    if (!ev.stopped) { ev.eventPhase = 2; at(this, false, true); }
    if (ev.bubbles) for (const n of path.slice(1)) { if (ev.stopped) break; ev.eventPhase = 3; at(n, false, false); }
    ev.eventPhase = 0; ev.currentTarget = null;
    return !ev.defaultPrevented;
  }
}

// what scripts leave behind outside of the document
export const Env = { errors: [], copied: [], scrolls: [], timers: [], toasts: [] };

// counts the changes of the structure
const tree = { version: 0 };

class TokenList {
  constructor(el) { this.el = el; }
  get split() { const s = this.el.attrs.get("class") || ""; if (s !== this.s) { this.s = s; this.l = s.split(/\s+/).filter(Boolean); } return this.l; }
  get list() { return [...this.split]; }
  set list(l) { this.el.attrs.set("class", l.join(" ")); }
  contains(c) { return this.split.includes(c); }
  check(cs) { for (const c of cs) if (c === "" || /\s/.test(c)) throw new SyntaxError(`The token provided ('${c}') is not valid.`); }
  add(...cs) { cs = cs.map(String); this.check(cs); const l = this.list; for (const c of cs) if (!l.includes(c)) l.push(c); this.list = l; }
  remove(...cs) { cs = cs.map(String); this.check(cs); this.list = this.list.filter(c => !cs.includes(c)); }
  toggle(c, force) {
    const want = force === undefined ? !this.contains(c) : !!force;
    want ? this.add(c) : this.remove(c); return want;
  }
  replace(a, b) { if (!this.contains(a)) return false; this.list = [...new Set(this.list.map(c => c === a ? b : c))]; return true; }
  item(i) { return this.list[i] ?? null; }
  get length() { return this.list.length; }
  get value() { return this.el.attrs.get("class") || ""; }
  forEach(f, t) { this.list.forEach((c, i) => f.call(t, c, i, this)); }
  keys() { return this.list.keys(); }
  values() { return this.list.values(); }
  entries() { return this.list.entries(); }
  set value(v) { this.el.attrs.set("class", String(v)); }
  [Symbol.iterator]() { return this.list[Symbol.iterator](); }
  toString() { return this.value; }
}

export class Node extends EventTarget {
  constructor() { super(); this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get ownerDocument() { let n = this; while (n.parentNode) n = n.parentNode; return n instanceof Document ? n : null; }
  get isConnected() { return !!this.ownerDocument; }
  get children() { return new HTMLCollection(this.kids); }
  get kids() { return this.childNodes.filter(c => c instanceof Element); }
  get childElementCount() { return this.kids.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get firstElementChild() { return this.kids[0] ?? null; }
  get lastElementChild() { return this.kids.at(-1) ?? null; }
  sib(d, elements) {
    if (!this.parentNode) return null;
    const l = elements ? this.parentNode.kids : this.parentNode.childNodes;
    return l[l.indexOf(this) + d] ?? null;
  }
  get nextElementSibling() { return this.sib(1, true); }
  get previousElementSibling() { return this.sib(-1, true); }
  get nextSibling() { return this.sib(1, false); }
  get previousSibling() { return this.sib(-1, false); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  insertBefore(n, ref) {
    if (n instanceof Fragment) { [...n.childNodes].forEach(c => this.insertBefore(c, ref)); return n; }
    n.remove?.();
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, n); n.parentNode = this; tree.version++;
    this.ownerDocument?.inserted(n);
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  append(...ns) { ns.forEach(n => this.appendChild(typeof n === "string" ? new Text(n) : n)); }
  prepend(...ns) { ns.reverse().forEach(n => this.insertBefore(typeof n === "string" ? new Text(n) : n, this.firstChild)); }
  removeChild(n) { n.remove(); return n; }
  remove() { const p = this.parentNode; if (p) { tree.version++; p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null; } }
  replaceChildren(...ns) { [...this.childNodes].forEach(c => c.remove()); this.append(...ns); }
  replaceWith(...ns) { const p = this.parentNode, r = this.nextSibling; this.remove(); ns.forEach(n => p.insertBefore(typeof n === "string" ? new Text(n) : n, r)); }
  before(...ns) { ns.forEach(n => this.parentNode.insertBefore(typeof n === "string" ? new Text(n) : n, this)); }
  after(...ns) { const r = this.nextSibling; ns.forEach(n => this.parentNode.insertBefore(typeof n === "string" ? new Text(n) : n, r)); }
  walk() {
    if (this.walked && this.walkedAt === tree.version) return this.walked;
    const out = [];
    (function go(n) { for (const c of n.childNodes) if (c instanceof Element) { out.push(c); go(c); } })(this);
    this.walkedAt = tree.version; return this.walked = out;
  }
  querySelectorAll(sel) { const s = parseSelector(sel), r = []; for (const e of this.walk()) if (matchAny(e, s, this)) r.push(e); return new NodeList(r); }
  querySelector(sel) { const s = parseSelector(sel); for (const e of this.walk()) if (matchAny(e, s, this)) return e; return null; }
  getElementsByClassName(c) { return new HTMLCollection([...this.querySelectorAll(c.trim().split(/\s+/).map(x => "." + x).join(""))]); }
  getElementsByTagName(t) { return new HTMLCollection([...this.querySelectorAll(t)]); }
  hasChildNodes() { return this.childNodes.length > 0; }
  isSameNode(n) { return n === this; }
  isEqualNode(n) { return serialise(this) === serialise(n); }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  replaceChild(n, old) { this.insertBefore(n, old); old.remove(); return old; }
  normalize() { }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    if (this.getRootNode() !== o.getRootNode?.()) return 1;
    if (this.contains(o)) return 20;
    if (o.contains(this)) return 10;
    const l = this.getRootNode().walk();
    return l.indexOf(this) < l.indexOf(o) ? 4 : 2;
  }
  get textContent() { return this.childNodes.map(c => c.textContent).join(""); }
  set textContent(t) { this.replaceChildren(); if (t !== "") this.appendChild(new Text(String(t))); }
}

Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });

// NodeLists are lists without map and filter, as in a browser
export class NodeList {
  constructor(a) { this.a = a; a.forEach((e, i) => { this[i] = e; }); }
  get length() { return this.a.length; }
  item(i) { return this.a[i] ?? null; }
  forEach(f, t) { this.a.forEach((e, i) => f.call(t, e, i, this)); }
  entries() { return this.a.entries(); }
  keys() { return this.a.keys(); }
  values() { return this.a.values(); }
  [Symbol.iterator]() { return this.a[Symbol.iterator](); }
}

// and HTMLCollections have no forEach either (here they are not live)
export class HTMLCollection {
  constructor(a) { this.a = a; a.forEach((e, i) => { this[i] = e; }); }
  get length() { return this.a.length; }
  item(i) { return this.a[i] ?? null; }
  namedItem(n) { return this.a.find(e => e.id === n) ?? null; }
  [Symbol.iterator]() { return this.a[Symbol.iterator](); }
}

export class Text extends Node {
  constructor(t) { super(); this.data = t; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = t; }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get nodeValue() { return this.data; }
  cloneNode() { return new Text(this.data); }
}

export class Fragment extends Node { }

export class Element extends Node {
  constructor(tag) {
    super(); this.localName = tag.toLowerCase(); this.attrs = new Map();
    this.classList = new TokenList(this);
    const el = this;
    this.style = new Proxy({}, {
      deleteProperty(o, k) { delete o[k]; return true; },
      get(o, k) { return k === "cssText" ? Object.entries(o).map(([a, b]) => `${a}: ${b};`).join(" ") : k === "setProperty" ? (a, v) => { o[a] = String(v); } : k === "removeProperty" ? a => { delete o[a]; } : k === "getPropertyValue" ? a => o[a] ?? "" : o[k] ?? ""; },
      set(o, k, v) { if (k === "cssText") { for (const q in o) delete o[q]; for (const d of String(v).split(";")) { const [a, b] = d.split(":"); if (b) o[a.trim()] = b.trim(); } return true; } o[k] = v == null ? "" : String(v); return true; },
    });
    this.rect = null;
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get id() { return this.attrs.get("id") ?? ""; }
  set id(v) { this.attrs.set("id", v); }
  get className() { return this.attrs.get("class") ?? ""; }
  set className(v) { this.attrs.set("class", v); }
  get tabIndex() { return this.attrs.has("tabindex") ? +this.attrs.get("tabindex") : this.nativelyFocusable ? 0 : -1; }
  get nativelyFocusable() { return this.localName === "a" && this.attrs.has("href") || ["button", "input", "select", "textarea"].includes(this.localName) && !this.attrs.has("disabled"); }
  get dataset() {
    const el = this, name = k => "data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
    return new Proxy({}, { get: (_, k) => el.attrs.get(name(k)), set: (_, k, v) => { el.attrs.set(name(k), String(v)); return true; }, has: (_, k) => el.attrs.has(name(k)), deleteProperty: (_, k) => { el.attrs.delete(name(k)); return true; } });
  }
  get href() { return this.attrs.get("href") ?? ""; }
  set href(v) { this.attrs.set("href", v); }
  get src() { return this.attrs.get("src") ?? ""; }
  set src(v) { this.attrs.set("src", v); }
  get type() { return this.attrs.get("type") ?? ""; }
  set type(v) { this.attrs.set("type", v); }
  getAttribute(k) { return this.attrs.get(k) ?? null; }
  setAttribute(k, v) { this.attrs.set(k, String(v)); }
  getAttributeNames() { return [...this.attrs.keys()]; }
  get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
  hasAttributes() { return this.attrs.size > 0; }
  get hidden() { return this.attrs.has("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get title() { return this.attrs.get("title") ?? ""; }
  set title(v) { this.attrs.set("title", v); }
  set tabIndex(v) { this.attrs.set("tabindex", String(v)); }
  get disabled() { return this.attrs.has("disabled"); }
  set disabled(v) { this.toggleAttribute("disabled", !!v); }
  get clientHeight() { return this.localName === "html" || this.localName === "body" ? 100 : this.getBoundingClientRect().height; }
  get clientWidth() { return 100; }
  get offsetTop() { return this.getBoundingClientRect().top; }
  get offsetLeft() { return 0; }
  get scrollTop() { return 0; }
  set scrollTop(v) { Env.scrolls.push("top"); }
  get scrollHeight() { return this.getBoundingClientRect().height; }
  scrollTo() { Env.scrolls.push("to"); }
  scrollBy() { Env.scrolls.push("by"); }
  scroll() { Env.scrolls.push("to"); }
  animate() { return { finished: Promise.resolve(), cancel() { } }; }
  getAnimations() { return []; }
  insertAdjacentText(where, t) { this.insertAdjacentElement(where, new Text(t)); }
  webkitMatchesSelector(s) { return this.matches(s); }
  get classes() { return this.classList.list; }
  hasAttribute(k) { return this.attrs.has(k); }
  removeAttribute(k) { this.attrs.delete(k); }
  toggleAttribute(k, f) { const w = f === undefined ? !this.attrs.has(k) : f; w ? this.attrs.set(k, "") : this.attrs.delete(k); return w; }
  matches(sel) { return matchAny(this, parseSelector(sel), this); }
  closest(sel) { const s = parseSelector(sel); for (let e = this; e instanceof Element; e = e.parentNode) if (matchAny(e, s, this)) return e; return null; }
  get innerHTML() { return this.childNodes.map(serialise).join(""); }
  set innerHTML(h) { this.replaceChildren(...parse(h)); }
  get outerHTML() { return serialise(this); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  insertAdjacentHTML(where, h) {
    const ns = parse(h);
    ({ beforebegin: () => this.before(...ns), afterend: () => this.after(...ns), beforeend: () => this.append(...ns), afterbegin: () => this.prepend(...ns) })[where]();
  }
  insertAdjacentElement(where, e) {
    ({ beforebegin: () => this.before(e), afterend: () => this.after(e), beforeend: () => this.append(e), afterbegin: () => this.prepend(e) })[where]();
  }
  cloneNode(deep) { const c = new Element(this.localName); c.attrs = new Map(this.attrs); if (deep) c.append(...this.childNodes.map(n => n instanceof Text ? new Text(n.data) : n.cloneNode(true))); return c; }
  get display() {
    if (this.classList.contains("hide") || this.attrs.has("hidden")) return "none";
    if (this.style.display) return this.style.display;
    return this.classList.contains("hr-menu-zone") ? "none" : ["span", "a", "em", "strong", "code"].includes(this.localName) ? "inline" : "block";
  }
  get rendered() { for (let e = this; e instanceof Element; e = e.parentNode) if (e.display === "none") return false; return this.isConnected; }
  get offsetParent() { return this.rendered ? this.parentElement : null; }
  get offsetHeight() { return this.getBoundingClientRect().height; }
  get offsetWidth() { return this.getBoundingClientRect().width; }
  checkVisibility() { return this.rendered; }
  getClientRects() { return this.rendered ? [this.getBoundingClientRect()] : []; }
  getBoundingClientRect() {
    const r = !this.rendered ? { top: 0, height: 0 } : this.rect ?? { top: 0, height: 10 };
    return { top: r.top, y: r.top, height: r.height, bottom: r.top + r.height, left: 0, x: 0, right: 100, width: 100 };
  }
  scrollIntoView() { Env.scrolls.push("into view"); }
  focus() {
    const d = this.ownerDocument;
    if (!d || !this.rendered || !(this.nativelyFocusable || this.attrs.has("tabindex"))) return;
    if (d.active === this) return;
    const old = d.active; d.active = this;
    if (old) { old.dispatchEvent(new Event("blur", { relatedTarget: this })); old.dispatchEvent(new Event("focusout", { bubbles: true, relatedTarget: this })); }
    this.dispatchEvent(new Event("focus", { relatedTarget: old })); this.dispatchEvent(new Event("focusin", { bubbles: true, relatedTarget: old }));
  }
  blur() { const d = this.ownerDocument; if (d && d.active === this) { d.active = null; this.dispatchEvent(new Event("blur")); this.dispatchEvent(new Event("focusout", { bubbles: true })); } }
  click() { this.dispatchEvent(new Event("click", { bubbles: true })); }
}

export class Document extends Node {
  constructor() { super(); this.active = null; this.at("http://localhost/index.html#old"); this.offline = new Set(); this.hanging = new Set(); this.loads = []; }
  get nodeType() { return 9; }
  get nodeName() { return "#document"; }
  get defaultView() { return this.win ?? null; }
  get readyState() { return "complete"; }
  get visibilityState() { return "visible"; }
  get scrollingElement() { return this.documentElement; }
  get URL() { return this.location.href; }
  get title() { return this.querySelector("title")?.textContent ?? ""; }
  at(address) { const noop = () => { }; this.location = Object.assign(new URL(address), { assign: noop, replace: noop, reload: noop }); }
  hasFocus() { return true; }
  getElementsByName(n) { return this.querySelectorAll(`[name="${n}"]`); }
  get documentElement() { return this.kids[0] ?? null; }
  get body() { return this.querySelector("body"); }
  get head() { return this.querySelector("head"); }
  get activeElement() { const a = this.active; if (a && !(a.isConnected && a.rendered)) this.active = null; return this.active ?? this.body; }
  getElementById(id) { for (const e of this.walk()) if (e.id === id) return e; return null; }
  createElement(t) { return new Element(t); }
  createElementNS(_, t) { return new Element(t); }
  createTextNode(t) { return new Text(t); }
  createDocumentFragment() { return new Fragment(); }
  // a script that is inserted is loaded, or not
  inserted(n) {
    if (n instanceof Element && n.localName === "script" && n.src) {
      const bad = [...this.offline].some(s => n.src.includes(s));
      this.loads.push(n.src);
      if ([...this.hanging].some(s => n.src.includes(s))) return;      // neither arrives nor fails
      Promise.resolve().then(() => Promise.resolve()).then(() => n.dispatchEvent(new Event(bad ? "error" : "load")));
    }
  }
}

// ------------------------------------------------------------------ selectors
const cache = new Map();
export function parseSelector(s) {
  if (typeof s !== "string") throw new SyntaxError(`'${s}' is not a valid selector`);
  let r = cache.get(s);
  if (!r) { r = new SelectorParser(s).list(); cache.set(s, r); }
  return r;
}

class SelectorParser {
  constructor(s) { this.s = s; this.i = 0; }
  fail() { throw new SyntaxError(`'${this.s}' is not a valid selector`); }
  ws() { const j = this.i; while (/\s/.test(this.s[this.i] ?? "")) this.i++; return this.i > j; }
  list(end = "", relative = false) {
    const r = [];
    do { r.push(this.complex(end, relative)); } while (this.s[this.i] === "," && ++this.i);
    if (end ? this.s[this.i] !== end : this.i < this.s.length) this.fail();
    return r;
  }
  complex(end, relative) {          // [{comb, simple: [...]}, ...]
    const parts = []; let comb = null;
    this.ws();
    if (relative && /[>+~]/.test(this.s[this.i])) { comb = this.s[this.i++]; this.ws(); } else if (relative) comb = " ";
    for (; ;) {
      const simple = this.compound();
      parts.push({ comb, simple });
      const sp = this.ws(), c = this.s[this.i];
      if (c === undefined || c === "," || c === end) return parts;
      if (/[>+~]/.test(c)) { comb = c; this.i++; this.ws(); } else if (sp) comb = " "; else this.fail();
    }
  }
  ident() {
    let r = "", raw = true;
    for (; ;) {
      const c = this.s[this.i];
      const hex = c === "\\" && /^\\([0-9a-fA-F]{1,6})\s?/.exec(this.s.slice(this.i));
      if (hex) { r += String.fromCodePoint(parseInt(hex[1], 16)); this.i += hex[0].length; raw = false; }
      else if (c === "\\") { if (this.s[this.i + 1] === undefined) this.fail(); r += this.s[this.i + 1]; this.i += 2; raw = false; }
      else if (c !== undefined && /[\w\u0080-\uffff-]/.test(c)) { r += c; this.i++; }
      else break;
    }
    if (!r || raw && /^(\d|-\d|-$)/.test(r)) this.fail();
    return r;
  }
  compound() {
    const r = [];
    for (; ;) {
      const c = this.s[this.i];
      if (c === "&") { this.i++; r.push({ k: "scope" }); }
      else if (c === "*") { this.i++; r.push({ k: "any" }); }
      else if (c === ".") { this.i++; r.push({ k: "class", v: this.ident() }); }
      else if (c === "#") { this.i++; r.push({ k: "id", v: this.ident() }); }
      else if (c === "[") {
        const m = /^\[\s*([\w-]+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\s*[is]?\s*)?\]/.exec(this.s.slice(this.i));
        if (!m) this.fail();
        this.i += m[0].length;
        r.push({ k: "attr", a: m[1], op: m[2], v: m[3] ?? m[4] ?? m[5] });
      } else if (c === ":") {
        this.i++; const name = this.ident();
        if (["not", "is", "where", "has"].includes(name)) {
          if (this.s[this.i] !== "(") this.fail();
          this.i++;
          const l = this.list(")", name === "has"); this.i++;
          r.push({ k: name === "where" ? "is" : name, v: l });
        } else if (["nth-child", "nth-of-type", "nth-last-child", "nth-last-of-type"].includes(name)) {
          const m = /^\(\s*(?:(odd)|(even)|([+-]?\d*)n\s*(?:([+-])\s*(\d+))?|([+-]?\d+))\s*\)/.exec(this.s.slice(this.i)); if (!m) this.fail();
          this.i += m[0].length;
          const A = m[1] || m[2] ? 2 : m[3] !== undefined ? (/^[+-]?$/.test(m[3]) ? +(m[3] + "1") : +m[3]) : 0;
          const B = m[1] ? 1 : m[2] ? 0 : m[6] !== undefined ? +m[6] : m[5] ? +(m[4] + m[5]) : 0;
          r.push({ k: name, A, B });
        } else if (["hover", "active", "focus", "first-child", "last-child", "only-child", "scope", "root", "empty", "focus-within", "focus-visible", "first-of-type", "last-of-type", "only-of-type", "disabled", "enabled", "checked", "link", "any-link", "target", "visited"].includes(name)) r.push({ k: name });
        else this.fail();
      } else if (c !== undefined && /[a-zA-Z]/.test(c)) r.push({ k: "tag", v: this.ident().toLowerCase() });
      else break;
    }
    if (!r.length) this.fail();
    return r;
  }
}

function matchSimple(e, s, scope) {
  switch (s.k) {
    case "any": return true;
    case "scope": return scope instanceof Document ? e === scope.documentElement : e === scope;
    case "root": return e === e.ownerDocument?.documentElement;
    case "tag": return e.localName === s.v;
    case "class": return e.classList.contains(s.v);
    case "id": return e.id === s.v;
    case "attr": {
      const v = e.getAttribute(s.a);
      if (v === null) return false;
      switch (s.op) {
        case undefined: return true;
        case "=": return v === s.v;
        case "~=": return v.split(/\s+/).includes(s.v);
        case "^=": return s.v !== "" && v.startsWith(s.v);
        case "$=": return s.v !== "" && v.endsWith(s.v);
        case "*=": return s.v !== "" && v.includes(s.v);
        case "|=": return v === s.v || v.startsWith(s.v + "-");
      } return false;
    }
    case "not": return !matchAny(e, s.v, scope);
    case "is": return matchAny(e, s.v, scope);
    case "has": return s.v.some(c => hasRelative(e, c, 0, scope));
    case "focus": case "focus-visible": return e.ownerDocument?.activeElement === e && e.ownerDocument?.active === e;
    case "focus-within": { const a = e.ownerDocument?.active; return !!a && e.contains(a); }
    case "hover": case "active": return false;
    case "first-child": return e.previousElementSibling === null;
    case "last-child": return e.nextElementSibling === null;
    case "only-child": return e.previousElementSibling === null && e.nextElementSibling === null;
    case "empty": return e.childNodes.length === 0;
    case "first-of-type": return e.parentNode.kids.find(c => c.localName === e.localName) === e;
    case "last-of-type": return e.parentNode.kids.findLast(c => c.localName === e.localName) === e;
    case "only-of-type": return e.parentNode.kids.filter(c => c.localName === e.localName).length === 1;
    case "disabled": return e.attrs.has("disabled");
    case "enabled": return ["button", "input", "select", "textarea"].includes(e.localName) && !e.attrs.has("disabled");
    case "checked": case "visited": case "target": return false;
    case "link": case "any-link": return e.localName === "a" && e.attrs.has("href");
    case "nth-child": case "nth-of-type": case "nth-last-child": case "nth-last-of-type": {
      let l = e.parentNode?.kids ?? [e];
      if (s.k.endsWith("type")) l = l.filter(c => c.localName === e.localName);
      const n = s.k.includes("last") ? l.length - l.indexOf(e) : l.indexOf(e) + 1;
      return s.A === 0 ? n === s.B : (n - s.B) % s.A === 0 && (n - s.B) / s.A >= 0;
    }
  }
}
const matchCompound = (e, l, scope) => l.every(s => matchSimple(e, s, scope));

function hasRelative(e, parts, i, scope) {
  if (i === parts.length) return true;
  const { comb, simple } = parts[i];
  let cand = [];
  if (comb === ">") cand = e.kids;
  else if (comb === " ") cand = [...e.walk()];
  else if (comb === "+") cand = e.nextElementSibling ? [e.nextElementSibling] : [];
  else for (let n = e.nextElementSibling; n; n = n.nextElementSibling) cand.push(n);
  return cand.some(c => matchCompound(c, simple, scope) && hasRelative(c, parts, i + 1, scope));
}

function matchComplex(e, parts, i, scope) {
  if (!matchCompound(e, parts[i].simple, scope)) return false;
  if (i === 0) return true;
  switch (parts[i].comb) {
    case ">": return e.parentNode instanceof Element && matchComplex(e.parentNode, parts, i - 1, scope);
    case " ": for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (matchComplex(p, parts, i - 1, scope)) return true; return false;
    case "+": return !!e.previousElementSibling && matchComplex(e.previousElementSibling, parts, i - 1, scope);
    case "~": for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (matchComplex(p, parts, i - 1, scope)) return true; return false;
  }
}
function matchAny(e, list, scope) { return list.some(parts => matchComplex(e, parts, parts.length - 1, scope)); }

// ------------------------------------------------------------------ HTML
export function parse(html) {
  const top = new Fragment(), stack = [top];
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>/gi;
  let m, at = 0;
  const text = s => { if (s) { const t = new Text(s); t.parentNode = stack.at(-1); stack.at(-1).childNodes.push(t); } };
  while ((m = re.exec(html))) {
    text(html.slice(at, m.index)); at = re.lastIndex;
    if (!m[2]) continue;
    const tag = m[2].toLowerCase();
    if (m[1]) {
      const k = stack.findLastIndex(e => e.localName === tag);
      if (k > 0) stack.length = k;
      continue;
    }
    const el = new Element(tag);
    for (const a of m[3].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) el.attrs.set(a[1].toLowerCase(), a[2] ?? a[3] ?? a[4] ?? "");
    const st = el.attrs.get("style");
    if (st) for (const d of st.split(";")) { const [k, v] = d.split(":"); if (v) el.style[k.trim()] = v.trim(); }
    tree.version++; el.parentNode = stack.at(-1); stack.at(-1).childNodes.push(el);
    if (!VOID.has(tag) && !m[4]) stack.push(el);
  }
  text(html.slice(at));
  return [...top.childNodes];
}
function serialise(n) {
  if (n instanceof Text) return n.data;
  const a = [...n.attrs].map(([k, v]) => ` ${k}="${v}"`).join("");
  return `<${n.localName}${a}>` + (VOID.has(n.localName) ? "" : n.innerHTML + `</${n.localName}>`);
}

export function documentOf(html) {
  const d = new Document(), h = new Element("html");
  h.parentNode = d; d.childNodes.push(h);
  for (const n of parse(html)) { tree.version++; n.parentNode = h; h.childNodes.push(n); }
  return d;
}
