// Drives the scripts of a page: node --preserve-symlinks page.mjs DIR-OF-SCRIPTS SCRATCH < jobs (a JSON object per line) > records
// job: {id, html, mode: "arena" | "run", offline: [...], broken: [...], tops: [...], actions: [[...], ...]}
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
import crypto from "node:crypto";
import * as dom from "./dom.mjs";

const [scripts, scratch] = process.argv.slice(2);
const { Env } = dom;
const out = fs.createWriteStream(null, { fd: 1 });
const say = x => process.stdout.write(JSON.stringify(x) + "\n");
const noop = () => { };
const logged = [];
for (const k of ["log", "warn", "info", "debug"]) console[k] = noop;
console.error = (...a) => logged.push(a.map(x => String(x && x.message || x)).join(" "));
const later = setImmediate;
async function tick() {
  for (let k = 0; k < 5; k++) {
    await new Promise(r => later(r));
    const todo = Env.timers.filter(t => !t.late);
    if (!todo.length) return;
    Env.timers = Env.timers.filter(t => t.late);
    runTimers(todo);
  }
}
function runTimers(todo) { for (const t of todo) { try { t.f(); } catch (e) { Env.errors.push(String(e && e.message || e)); } } }
let timer = 0;
const soon = f => { Env.timers.push({ id: ++timer, f, late: false }); return timer; };
const clear = i => { Env.timers = Env.timers.filter(t => t.id !== i); };

const ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone"];
const FOCUSABLE = 'a[href]:not([tabindex="-1"]), button:not([disabled]):not([tabindex="-1"]), textarea:not([disabled]):not([tabindex="-1"]), input:not([disabled]):not([tabindex="-1"]), select:not([disabled]):not([tabindex="-1"]), [tabindex]:not([tabindex="-1"])';

const kid = (e, c) => e.kids.find(k => k.classList.contains(c)) ?? null;
function itemsOf(hr) { const z = kid(hr, "hr-menu-zone"), m = z && kid(z, "hr-menu"); return m ? m.kids.filter(c => c.classList.contains("hr-menu-item")) : []; }
function ownButton(hr) { const z = kid(hr, "hr-collapse-zone"); return z && kid(z, "hr-collapse"); }
function dotsOf(hr) { const z = kid(hr, "hr-border-zone"); return z && kid(z, "hr-border-dots"); }
function deepest(e) { while (e.firstElementChild) e = e.firstElementChild; return e; }

function arenaOf(doc) {
  const els = [], par = [];
  (function go(n, p) {
    for (const c of n.kids) {
      if (ZONES.some(z => c.classList.contains(z)) || c.localName === "svg" || c.classList.contains("minimap")) continue;
      els.push(c); par.push(p); c.__id = els.length;
      go(c, els.length);
    }
  })(doc.documentElement, 0);
  return { els, par };
}
// the text of an element, without white space and what handrails add to it
const ink = e => (e instanceof dom.Text ? e.data : ZONES.some(z => e.classList?.contains(z)) || e.classList?.contains("hr-info-zone") || e.classList?.contains("minimap") ? "" : e.childNodes.map(ink).join(""))
  .replace(/\s+/g, "");
function describe(doc, { els, par }) {
  const stray = doc.querySelectorAll(FOCUSABLE);
  const toc = [...doc.querySelectorAll("ul.contents li.item")];
  return {
    toc: toc.map(e => e.__id), marks: circlesOf(doc, ".toc-wrapper > .minimap").length, floating: circlesOf(doc, ".float-minimap-wrapper > .minimap").length,
    maps: [".toc-wrapper > .minimap", ".float-minimap-wrapper > .minimap"].map(q => doc.querySelector(q) !== null),
    algos: doc.querySelectorAll("pre.pseudocode").length,
    stray: [...stray].filter(e => !e.__id).length,
    nodes: els.map((e, i) => ({
      par: par[i], tag: e.localName, cls: e.classList.list, id: e.id, foc: e.matches(FOCUSABLE), href: e.getAttribute("href") ?? "",
      ink: ink(e), hid: e.display === "none", hr: e.classList.contains("hr"), coll: !!(e.classList.contains("hr") && ownButton(e)),
      dots: !!(e.classList.contains("hr") && dotsOf(e)),
      items: e.classList.contains("hr") ? itemsOf(e).map(it => ({ k: ["collapse-subproof", "collapse-steps", "link"].find(c => it.classList.contains(c)) ?? "other", dis: it.classList.contains("disabled") })) : [],
    })),
  };
}

// the marks of a minimap, by their heights
function circlesOf(doc, which) {
  const m = doc.querySelector(which);
  return m ? [...new Set([...m.querySelectorAll("circle")].map(c => +c.getAttribute("cy")))].sort((a, b) => a - b) : [];
}
const heightOf = m => +(m.querySelector("svg")?.getAttribute("viewbox") ?? "0 0 0 0").split(/\s+/)[3];
// how many of its marks have the colour of what is above its gradient's stop (-1: not a position)
function lit(doc, name, which) {
  const m = doc.querySelector(which);
  if (!m) return 0;
  const at = [1, 2].map(i => /^(-?[\d.]+)%$/.exec(doc.getElementById(`stop-follow-${name}-${i}`)?.getAttribute("offset") ?? "")?.[1]);
  if (at[0] === undefined || Math.abs(at[0] - at[1]) > 1e-9) return -1;
  return circlesOf(doc, which).filter(cy => cy < at[0] / 100 * heightOf(m)).length;
}

const drawing = e => crypto.createHash("sha1").update([...e.querySelectorAll("path")].map(p => p.getAttribute("d")).filter(d => d !== "M0 0h24v24H0z").join("|")).digest("hex").slice(0, 8);
const kinds = ["collapse", "expand", "collapse-all", "expand-all"];
const kindOf = icon => { const l = kinds.filter(k => icon.classList.contains(k)); return l.length === 1 ? l[0] : "(" + l.join(" ") + ")"; };

function snapshot(doc, { els }) {
  const menus = [], active = [], drawn = new Set(), shows = { one: new Map(), all: new Map() };
  const note = (m, id, ic, text, a, b) => {
    const k = ic ? kindOf(ic) : "";
    if (ic) drawn.add(k + " " + drawing(ic));
    const v = k === a && (text === null || text === "Collapse" + (m === shows.all ? " all" : "")) ? a : k === b && (text === null || text === "Expand" + (m === shows.all ? " all" : "")) ? b : "odd";
    m.set(id, !m.has(id) || m.get(id) === v ? v : "odd");
  };
  for (const e of els) {
    if (!e.classList.contains("hr")) continue;
    const b = ownButton(e);
    if (b) note(shows.one, e.__id, kid(b, "icon"), null, "collapse", "expand");
    const z = kid(e, "hr-menu-zone");
    if (z && z.display !== "none") menus.push(e.__id);
    itemsOf(e).forEach((it, i) => {
      if (it.classList.contains("active")) active.push([e.__id, i + 1]);
      const ic = kid(it, "icon"), t = kid(it, "hr-menu-item-text")?.textContent ?? "";
      if (it.classList.contains("collapse-subproof")) note(shows.one, e.__id, ic, t, "collapse", "expand");
      if (it.classList.contains("collapse-steps")) note(shows.all, e.__id, ic, t, "collapse-all", "expand-all");
    });
  }
  const a = doc.activeElement, of = (m, v) => [...m].filter(x => x[1] === v).map(x => x[0]);
  const strange = [...doc.querySelectorAll(".hide")].filter(e => !e.__id && !e.classList.contains("minimap")).length;
  return {
    coll: els.filter(e => e.classList.contains("hr-collapsed")).map(e => e.__id),
    hid: els.filter(e => e.display === "none").map(e => e.__id).concat(strange ? [-1] : []),
    one: of(shows.one, "expand"), all: of(shows.all, "expand-all"), odd: of(shows.one, "odd").concat(of(shows.all, "odd")),
    tip: els.filter(e => e.__tip?.open).map(e => e.__id),
    menus, active, drawn: [...drawn].sort().map(x => x.split(" ")), foc: !a || a === doc.body ? 0 : a.__id ?? -1,
    gone: els.filter(e => !e.isConnected).length,
  };
}

class MiniQ {       // the few functions of jQuery that the scripts use
  constructor(x) {
    const quick = typeof x === "string" && /^#([\w-]+)$/.exec(x);
    const l = quick ? [document.getElementById(quick[1])].filter(Boolean) : typeof x === "string" ? (x.trim().startsWith("<") ? dom.parse(x.trim()).filter(n => n instanceof dom.Element) : [...document.querySelectorAll(x)]) : x instanceof MiniQ ? x.l : Array.isArray(x) ? x : x ? [x] : [];
    this.l = l; l.forEach((e, i) => { this[i] = e; }); this.length = l.length;
  }
  static mk(l) { return new MiniQ([...new Set(l)]); }
  attr(k, v) { if (v === undefined) return this.l[0]?.getAttribute(k) ?? undefined; this.l.forEach(e => e.setAttribute(k, v)); return this; }
  prop(k, v) { if (v === undefined) return this.l[0]?.[k]; this.l.forEach(e => { e[k] = v; }); return this; }
  html(v) { if (v === undefined) return this.l[0]?.innerHTML; this.l.forEach(e => { e.innerHTML = v; }); return this; }
  text(v) { if (v === undefined) return this.l.map(e => e.textContent).join(""); this.l.forEach(e => { e.textContent = v; }); return this; }
  parent() { return MiniQ.mk(this.l.map(e => e.parentElement).filter(Boolean)); }
  next(s) { return MiniQ.mk(this.l.map(e => e.nextElementSibling).filter(e => e && (!s || e.matches(s)))); }
  prev() { return MiniQ.mk(this.l.map(e => e.previousElementSibling).filter(Boolean)); }
  children(s) { return MiniQ.mk(this.l.flatMap(e => e.kids).filter(e => !s || e.matches(s))); }
  find(s) { return MiniQ.mk(this.l.flatMap(e => [...e.querySelectorAll(MiniQ.rel(s))])); }
  closest(s) { return MiniQ.mk(this.l.map(e => e.closest(s)).filter(Boolean)); }
  filter(f) { return MiniQ.mk(this.l.filter((e, i) => typeof f === "string" ? e.matches(f) : f.call(e, i, e))); }
  not(f) { return MiniQ.mk(this.l.filter(e => !e.matches(f))); }
  is(s) { return this.l.some(e => e.matches(s)); }
  first() { return this.eq(0); }
  last() { return this.eq(-1); }
  eq(i) { const e = this.l.at(i); return MiniQ.mk(e ? [e] : []); }
  get(i) { return i === undefined ? [...this.l] : this.l.at(i); }
  slice(a, b) { return MiniQ.mk(this.l.slice(a, b)); }
  clone() { return new MiniQ(this.l.map(e => e.cloneNode(true))); }
  remove() { this.l.forEach(e => e.remove()); return this; }
  css(k, v) { if (v === undefined && typeof k === "string") return this.l[0]?.style[k]; typeof k === "string" ? this.l.forEach(e => { e.style[k] = v; }) : Object.entries(k).forEach(([a, b]) => this.css(a, b)); return this; }
  addClass(c) { this.l.forEach(e => c.split(/\s+/).filter(Boolean).forEach(x => e.classList.add(x))); return this; }
  removeClass(c) { this.l.forEach(e => c === undefined ? e.removeAttribute("class") : c.split(/\s+/).filter(Boolean).forEach(x => e.classList.remove(x))); return this; }
  hasClass(c) { return this.l.some(e => e.classList.contains(c)); }
  each(f) { this.l.every((e, i) => f.call(e, i, e) !== false); return this; }
  map(f) { return new MiniQ(this.l.map((e, i) => f.call(e, i, e))); }
  toArray() { return [...this.l]; }
  ready(f) { f(document); return this; }
  static rel(s) { return /^\s*[>+~]/.test(s) ? ":scope " + s : s; }
  [Symbol.iterator]() { return this.l[Symbol.iterator](); }
  removeAttr(k) { this.l.forEach(e => e.removeAttribute(k)); return this; }
  toggleClass(c, f) { this.l.forEach(e => c.split(/\s+/).forEach(x => e.classList.toggle(x, f))); return this; }
  siblings(s) { return MiniQ.mk(this.l.flatMap(e => (e.parentNode?.kids ?? []).filter(k => k !== e && (!s || k.matches(s))))); }
  parents(s) { const r = []; for (const e of this.l) for (let p = e.parentElement; p; p = p.parentElement) if (!s || p.matches(s)) r.push(p); return MiniQ.mk(r); }
  nextAll(s) { const r = []; for (const e of this.l) for (let p = e.nextElementSibling; p; p = p.nextElementSibling) if (!s || p.matches(s)) r.push(p); return MiniQ.mk(r); }
  prevAll(s) { const r = []; for (const e of this.l) for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (!s || p.matches(s)) r.push(p); return MiniQ.mk(r); }
  contents() { return MiniQ.mk(this.l.flatMap(e => e.childNodes)); }
  has(s) { return MiniQ.mk(this.l.filter(e => e.querySelector(MiniQ.rel(s)))); }
  add(x) { return MiniQ.mk([...this.l, ...new MiniQ(x).l]); }
  index(x) { return x === undefined ? this.l[0]?.parentNode?.kids.indexOf(this.l[0]) ?? -1 : this.l.indexOf(x instanceof MiniQ ? x.l[0] : x); }
  empty() { this.l.forEach(e => e.replaceChildren()); return this; }
  detach() { return this.remove(); }
  append(...xs) { this.l.slice(0, 1).forEach(e => xs.flat().forEach(x => e.append(...(typeof x === "string" ? dom.parse(x) : x instanceof MiniQ ? x.l : [x])))); return this; }
  prepend(...xs) { this.l.slice(0, 1).forEach(e => xs.flat().forEach(x => e.prepend(...(typeof x === "string" ? dom.parse(x) : x instanceof MiniQ ? x.l : [x])))); return this; }
  appendTo(x) { new MiniQ(x).append(this); return this; }
  wrap(h) { this.l.forEach(e => { const w = dom.parse(h)[0]; e.replaceWith(w); w.append(e); }); return this; }
  wrapInner(h) { this.l.forEach(e => { const w = dom.parse(h)[0]; w.append(...e.childNodes.slice()); e.append(w); }); return this; }
  unwrap() { this.l.forEach(e => e.parentNode?.replaceWith(...e.parentNode.childNodes)); return this; }
  replaceWith(x) { this.l.forEach(e => e.replaceWith(...(typeof x === "string" ? dom.parse(x) : x instanceof MiniQ ? x.l : [x]))); return this; }
  data(k) { return this.l[0]?.getAttribute("data-" + k) ?? undefined; }
  on(t, f) { this.l.forEach(e => t.split(/\s+/).forEach(x => e.addEventListener(x.split(".")[0], f))); return this; }
  off(t, f) { this.l.forEach(e => e.removeEventListener(t, f)); return this; }
  show() { this.l.forEach(e => { e.style.display = ""; }); return this; }
  hide() { this.l.forEach(e => { e.style.display = "none"; }); return this; }
  end() { return this; }
  tooltipster(a, b) {
    if (a === undefined || typeof a === "object") {
      this.l.forEach(e => {
        e.classList.add("tooltipstered");
        e.__tip = { open: false, content: undefined, set: 0 };
        const inst = { content(c) { if (c === undefined) return e.__tip.content; e.__tip.content = c; e.__tip.set++; return inst; } };
        if (a && a.functionInit) a.functionInit.call(inst, inst, { origin: e, tooltip: null });
      });
      return this;
    }
    const t = this.l[0]?.__tip;
    if (!t) throw new Error("tooltipster: not initialised");
    switch (a) {
      case "status": return { open: t.open, state: t.open ? "stable" : "closed" };
      case "open": t.open = true; return this;
      case "close": t.open = false; return this;
      case "content": if (b === undefined) return t.content; t.content = b; t.set++; return this;
    }
    throw new Error("tooltipster: " + a);
  }
}

function world(job, doc) {
  Env.errors.length = Env.copied.length = Env.scrolls.length = logged.length = 0; Env.timers = [];
  const win = new dom.EventTarget();
  if (job.address) doc.at(job.address);
  Object.assign(win, {
    innerHeight: 100, innerWidth: 100, scrollBy: () => { Env.scrolls.push("by"); }, scrollTo: noop, document: doc, location: doc.location,
    getComputedStyle: e => { if (!(e instanceof dom.Element)) throw new TypeError("parameter 1 is not of type 'Element'."); return { get display() { return e.display; }, getPropertyValue: k => k === "display" ? e.display : "" }; },
  });
  doc.win = win;
  doc.offline = new Set(job.offline ?? []); doc.hanging = new Set(job.hanging ?? []);
  const bad = new Set((job.badalgos ?? []).map(i => [...doc.querySelectorAll("pre.pseudocode")][i - 1]));
  const g = globalThis, set = (k, v) => Object.defineProperty(g, k, { value: v, configurable: true, writable: true });
  set("document", doc); set("window", win); set("getComputedStyle", win.getComputedStyle);
  set("navigator", { clipboard: { writeText: async t => { if (job.noclip) throw new Error("denied"); Env.copied.push(t); } } });
  set("ResizeObserver", class { constructor(f) { this.f = f; } observe(e) { if (!(e instanceof dom.Element)) throw new TypeError("not an element"); win.observed.push([this.f, e]); } unobserve() { } disconnect() { } });
  set("IntersectionObserver", class { observe() { } unobserve() { } disconnect() { } });
  win.observed = [];
  // what comes soon is done after each action, what comes later when somebody waits for it
  set("setTimeout", (f, d, ...xs) => { Env.timers.push({ id: ++timer, f: () => f(...xs), late: (d ?? 0) >= 1000 }); return timer; }); set("clearTimeout", clear);
  set("setInterval", () => 0); set("clearInterval", noop);
  set("requestAnimationFrame", f => soon(() => f(0))); set("cancelAnimationFrame", clear);
  set("requestIdleCallback", f => soon(() => f({ didTimeout: false, timeRemaining: () => 10 }))); set("queueMicrotask", f => Promise.resolve().then(f));
  for (const k of ["Event", "KeyboardEvent", "MouseEvent", "CustomEvent", "Node", "Text", "Element", "NodeList", "HTMLCollection"]) set(k, dom[k]);
  set("HTMLElement", dom.Element); set("SVGElement", dom.Element); set("Document", dom.Document); set("DocumentFragment", dom.Fragment);
  set("CSS", { escape: x => String(x).replace(/^(-?)(\d)/, (_, a, b) => a + "\\3" + b + " ").replace(/[^\w\u0080-\uffff\\ -]/g, c => "\\" + c), supports: () => true });
  set("MutationObserver", class { observe() { } disconnect() { } takeRecords() { return []; } });
  set("location", doc.location); set("innerHeight", 100); set("innerWidth", 100); set("scrollBy", win.scrollBy); set("scrollTo", noop);
  for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) set(k, win[k].bind(win));
  for (const k of ["setTimeout", "clearTimeout", "requestAnimationFrame", "navigator", "CSS", "ResizeObserver", "IntersectionObserver", "MutationObserver"]) win[k] = g[k];
  win.matchMedia = () => ({ matches: false, addEventListener: noop }); win.scrollY = win.scrollX = win.pageYOffset = 0; set("matchMedia", win.matchMedia);
  win.window = win.self = win; set("self", win);
  set("$", x => typeof x === "function" ? (x(), undefined) : new MiniQ(x)); set("jQuery", g.$);
  Object.assign(g.$, { escapeSelector: x => g.CSS.escape(x), fn: MiniQ.prototype, trim: x => String(x).trim(), each: (l, f) => { [...l].every((e, i) => f.call(e, i, e) !== false); return l; }, map: (l, f) => [...l].map((e, i) => f(e, i)), inArray: (x, l) => [...l].indexOf(x), contains: (a, b) => a !== b && a.contains(b) });
  win.$ = g.$;
  set("MathJax", undefined); delete g.MathJax;
  Object.defineProperty(win, "MathJax", { configurable: true, get: () => g.MathJax, set: v => { set("MathJax", v); } });
  const count = { typeset: 0, pseudo: [] };
  // what the external libraries leave behind once they are loaded
  doc.addEventListener("verif-loaded", noop);
  const inserted = doc.inserted.bind(doc);
  doc.inserted = n => {
    if (n instanceof dom.Element && n.localName === "script" && n.src && ![...doc.offline, ...doc.hanging].some(s => n.src.includes(s))) {
      if (n.src.includes("mathjax")) set("MathJax", Object.assign({}, g.MathJax, { typeset: () => { count.typeset++; }, typesetPromise: async () => { count.typeset++; } }));
      if (n.src.includes("pseudocode")) set("pseudocode", { renderElement: e => { if (!e) throw new TypeError("no element"); if (bad.has(e)) throw new Error("no algorithm"); count.pseudo.push(e); } });
    }
    inserted(n);
  };
  delete g.pseudocode;
  return { win, count };
}

const CODES = { ".": "Period", ",": "Comma", ";": "Semicolon", ArrowUp: "ArrowUp", ArrowDown: "ArrowDown", Enter: "Enter" };
const NUMBERS = { ".": 190, ",": 188, ";": 186, ArrowUp: 38, ArrowDown: 40, Enter: 13 };
function press(doc, type, key, code) {
  const t = doc.activeElement ?? doc.body;
  t.dispatchEvent(new dom.KeyboardEvent(type, { bubbles: true, key, code: CODES[key] ?? "Key" + key.toUpperCase(), keyCode: code ?? 0, which: code ?? 0, isComposing: false, ctrlKey: false, metaKey: false, altKey: false, shiftKey: key === "H", repeat: false }));
}
function clickOn(doc, el) {
  const d = deepest(el);
  let f = d;
  while (f instanceof dom.Element && !(f.nativelyFocusable || f.attrs.has("tabindex"))) f = f.parentNode;
  d.dispatchEvent(new dom.MouseEvent("pointerdown", { bubbles: true, button: 0 }));
  d.dispatchEvent(new dom.MouseEvent("mousedown", { bubbles: true, button: 0 }));
  if (f instanceof dom.Element) f.focus(); else if (doc.active) doc.active.blur();
  d.dispatchEvent(new dom.MouseEvent("pointerup", { bubbles: true, button: 0 }));
  d.dispatchEvent(new dom.MouseEvent("mouseup", { bubbles: true, button: 0 }));
  d.dispatchEvent(new dom.MouseEvent("click", { bubbles: true, button: 0, detail: 1 }));
}
// the mouse goes onto or away from an element
function goes(el, over, enter) {
  for (const k of ["pointer", "mouse"]) {
    el.dispatchEvent(new dom.MouseEvent(k + over, { bubbles: true, relatedTarget: null }));
    el.dispatchEvent(new dom.MouseEvent(k + enter, { relatedTarget: null }));
  }
}
function act(doc, els, win, a) {
  const e = typeof a[1] === "number" && a[1] > 0 ? els[a[1] - 1] : null;
  switch (a[0]) {
    case "key": {
      const n = NUMBERS[a[1]] ?? a[1].toUpperCase().charCodeAt(0);
      press(doc, "keydown", a[1], n);
      if (a[1].length === 1) press(doc, "keypress", a[1], a[1].charCodeAt(0));
      press(doc, "keyup", a[1], n);
    } break;
    case "toggle": clickOn(doc, ownButton(e)); break;
    case "dots": clickOn(doc, dotsOf(e)); break;
    case "item": clickOn(doc, itemsOf(e)[a[2] - 1]); break;
    case "leave": goes(kid(kid(e, "hr-menu-zone"), "hr-menu"), "out", "leave"); break;
    case "click": e.focus(); break;
    case "scroll": els.forEach(x => { x.rect = { top: -1000, height: 10 }; }); for (const [n, top, h] of a[1]) els[n - 1].rect = { top, height: h }; for (const m of win.document.querySelectorAll(".toc-wrapper > .minimap")) m.rect = { top: a[2], height: a[3] }; win.dispatchEvent(new dom.Event("scroll")); break;
    case "dismiss": { const c = win.document.querySelectorAll(".toast")[a[1] - 1]?.querySelector(".close"); if (c) clickOn(doc, c); } break;
    case "wait": { const todo = Env.timers; Env.timers = []; runTimers(todo); } break;
    case "hover": goes(e, "over", "enter"); break;
    default: throw new Error("unknown action " + a);
  }
}

// the layout of the minimaps: as they are drawn
function layMinimap(doc) {
  for (const m of doc.querySelectorAll(".minimap")) {
    m.rect = { top: 0, height: heightOf(m) };
    for (const c of m.querySelectorAll("circle")) { const r = +c.getAttribute("r"); c.rect = { top: c.getAttribute("cy") - r, height: 2 * r }; }
  }
}
const inkOf = c => c ? (typeof c === "string" ? dom.parse(c) : c.l).map(ink).join("") : "";
const bare = c => c ? (typeof c === "string" ? dom.parse(c) : c.l).map(e => e.textContent).join("").replace(/\s+/g, "") : "";

let n = 0;
async function run(job) {
  const doc = dom.documentOf(job.html);
  const arena = arenaOf(doc);
  if (job.mode === "arena") return { id: job.id, ...describe(doc, arena) };
  const { win, count } = world(job, doc);
  const dir = path.join(scratch, `p${process.pid}-${++n}`);
  let mods;
  if (job.broken?.length) {
    fs.mkdirSync(dir);
    for (const f of fs.readdirSync(scripts)) fs.copyFileSync(path.join(scripts, f), path.join(dir, f));
    for (const f of job.broken) fs.rmSync(path.join(dir, f));
  } else fs.symlinkSync(scripts, dir);
  const rejected = e => { Env.errors.push("rejected: " + (e && e.message || e)); };
  process.on("unhandledRejection", rejected);
  let stalled = null;
  const res = { id: job.id, load: "ok", loaded: [], steps: [] };
  try {
    const m = await import(path.join(dir, "onload.js"));
    const done = m.onload(job.root ? doc.querySelector(job.root) : null, { path: dir + "/", ...(job.keys === false ? { keys: false } : {}) });
    // nothing is left to happen and yet it has not ended
    const idle = new Promise(r => { stalled = () => setImmediate(r, "stalled"); process.once("beforeExit", stalled); });
    if (await Promise.race([done, idle]) === "stalled") res.load = "loading never ends";
  } catch (e) { res.load = String(e && e.message || e); }
  if (stalled) process.off("beforeExit", stalled);
  await tick();
  res.logged = [...logged]; res.errors = [...Env.errors];
  res.first = snapshot(doc, arena);
  layMinimap(doc);
  if (job.mm) { res.first.lit = [lit(doc, "mouse", ".toc-wrapper > .minimap"), lit(doc, "scroll", ".float-minimap-wrapper > .minimap")]; res.first.float = doc.querySelector(".float-minimap-wrapper > .minimap")?.rendered ?? false; }
  res.typeset = count.typeset; res.drawn = [...doc.querySelectorAll("pre.pseudocode")].map((e, i) => count.pseudo.includes(e) ? i + 1 : 0).filter(i => i); res.pseudos = count.pseudo.length; res.externals = [...doc.loads];
  if (job.tips) res.tips = arena.els.filter(e => e.localName === "a" && e.classList.contains("reference")).map(e => ({
    at: e.__id, n: e.__tip?.set ?? 0, ink: bare(e.__tip?.content), err: e.classList.contains("error"),
  }));
  res.icons = [...doc.querySelectorAll(".icon")].filter(e => !e.querySelector("svg")).map(e => e.classList.list.filter(c => c !== "icon").join(" "));
  res.nicons = doc.querySelectorAll(".icon").length;
  for (const a of job.actions ?? []) {
    Env.errors.length = Env.copied.length = 0;
    let bad = "";
    try { act(doc, arena.els, win, a); } catch (e) { bad = String(e && e.message || e); }
    await tick();
    const s = snapshot(doc, arena);
    res.steps.push({
      a, ...s, errors: [...Env.errors], cannot: bad, copied: [...Env.copied],
      toasts: [...doc.querySelectorAll(".toast")].map(t => t.classList.list.filter(c => c !== "toast").join(" ")),
      ...(job.mm ? { lit: [lit(doc, "mouse", ".toc-wrapper > .minimap"), lit(doc, "scroll", ".float-minimap-wrapper > .minimap")], float: doc.querySelector(".float-minimap-wrapper > .minimap")?.rendered ?? false } : {}),
    });
  }
  await tick();
  process.off("unhandledRejection", rejected);
  fs.rmSync(dir, { recursive: true, force: true });
  return res;
}

const rl = readline.createInterface({ input: process.stdin });
const lines = [];
rl.on("line", l => lines.push(l));
rl.on("close", async () => {
  for (const l of lines) { if (!l.trim()) continue; const job = JSON.parse(l); try { say(await run(job)); } catch (e) { say({ id: job.id, broken: String(e && e.stack || e) }); } }
});
