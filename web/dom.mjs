// A document object model with what the preview uses of the browser's: live child
// collections, insertion that moves, style sheets of attached <style> elements.

export const log = { moves: [] };

// Timers fire when they are told to.
const later = setImmediate;
export const clock = {
  now: 0, next: 1, timers: [],
  reset() {
    this.now = 0;
    this.timers = [];
  },
  set(f, ms) {
    this.timers.push({ id: this.next, at: this.now + Math.max(0, ms), f });
    return this.next++;
  },
  clear(id) {
    this.timers = this.timers.filter((t) => t.id !== id);
  },
  // lets everything run that waits for no timer
  idle() {
    return new Promise((ok) => later(ok));
  },
  // fires the earliest timer
  async step() {
    await this.idle();
    if (!this.timers.length) return false;
    const t = this.timers.reduce((a, b) => (b.at < a.at ? b : a));
    this.timers = this.timers.filter((x) => x !== t);
    this.now = Math.max(this.now, t.at);
    t.f();
    await this.idle();
    return true;
  },
};

class Style {
  constructor(el) {
    return new Proxy(this, {
      get: (_, name) => {
        if (name === "removeProperty") return (p) => this.write(el, p, "");
        if (name === "setProperty") return (p, v) => this.write(el, p, v);
        if (name === "getPropertyValue") return (p) => this.read(el).get(p) ?? "";
        if (typeof name !== "string") return undefined;
        return this.read(el).get(kebab(name)) ?? "";
      },
      set: (_, name, value) => {
        this.write(el, kebab(name), String(value));
        return true;
      },
    });
  }
  read(el) {
    const out = new Map();
    for (const part of (el.getAttribute("style") ?? "").split(";")) {
      const at = part.indexOf(":");
      if (at > 0) out.set(part.slice(0, at).trim(), part.slice(at + 1).trim());
    }
    return out;
  }
  write(el, name, value) {
    const all = this.read(el);
    if (value === "") all.delete(name);
    else all.set(name, value);
    if (all.size === 0) el.removeAttribute("style");
    else el.setAttribute("style", [...all].map(([k, v]) => `${k}: ${v};`).join(" "));
  }
}
const kebab = (s) => s.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());

class ClassList {
  constructor(el) {
    this.el = el;
  }
  get all() {
    return (this.el.getAttribute("class") ?? "").split(/\s+/).filter((x) => x);
  }
  contains(c) {
    return this.all.includes(c);
  }
  set(list) {
    this.el.setAttribute("class", list.join(" "));
  }
  add(...cs) {
    const all = this.all;
    for (const c of cs) if (!all.includes(c)) all.push(c);
    this.set(all);
  }
  remove(...cs) {
    if (!this.el.hasAttribute("class")) return;
    this.set(this.all.filter((c) => !cs.includes(c)));
  }
  toggle(c, force) {
    const want = force ?? !this.contains(c);
    want ? this.add(c) : this.remove(c);
    return want;
  }
  get length() {
    return this.all.length;
  }
  get value() {
    return this.el.getAttribute("class") ?? "";
  }
}

class Node {
  parentNode = null;
  get parentElement() {
    return this.parentNode instanceof Element ? this.parentNode : null;
  }
  get isConnected() {
    let at = this;
    while (at.parentNode) at = at.parentNode;
    return at instanceof Document;
  }
  get siblings() {
    return this.parentNode ? this.parentNode.nodes : [];
  }
  get nextSibling() {
    return this.siblings[this.siblings.indexOf(this) + 1] ?? null;
  }
  get previousSibling() {
    return this.siblings[this.siblings.indexOf(this) - 1] ?? null;
  }
  get nextElementSibling() {
    let at = this.nextSibling;
    while (at && !(at instanceof Element)) at = at.nextSibling;
    return at;
  }
  get previousElementSibling() {
    let at = this.previousSibling;
    while (at && !(at instanceof Element)) at = at.previousSibling;
    return at;
  }
  detach() {
    if (!this.parentNode) return;
    const list = this.parentNode.nodes;
    list.splice(list.indexOf(this), 1);
    if (this instanceof Element && this.parentNode.isConnected) log.moves.push(["out", this]);
    this.parentNode = null;
  }
  remove() {
    this.detach();
  }
  replaceWith(...nodes) {
    const parent = this.parentNode;
    if (!parent) return;
    let ref = this.nextSibling;
    while (ref && nodes.includes(ref)) ref = ref.nextSibling;
    this.detach();
    for (const n of nodes) parent.insertBefore(parent.made(n), ref);
  }
  after(...nodes) {
    const parent = this.parentNode;
    if (!parent) return;
    let ref = this.nextSibling;
    while (ref && nodes.includes(ref)) ref = ref.nextSibling;
    for (const n of nodes) parent.insertBefore(parent.made(n), ref);
  }
  before(...nodes) {
    const parent = this.parentNode;
    if (!parent) return;
    for (const n of nodes) parent.insertBefore(parent.made(n), this);
  }
}

export class Text extends Node {
  nodeType = 3;
  constructor(data) {
    super();
    this.data = data;
  }
  get textContent() {
    return this.data;
  }
  cloneNode() {
    return new Text(this.data);
  }
}

class Parent extends Node {
  nodes = [];
  constructor() {
    super();
    const live = (only) =>
      new Proxy([], {
        get: (_, name) => {
          const list = only ? this.nodes.filter((n) => n instanceof Element) : this.nodes;
          if (name === "length") return list.length;
          if (name === "item") return (i) => list[i] ?? null;
          if (name === Symbol.iterator) {
            return function* () {
              // live: what is removed meanwhile shifts the rest
              for (let i = 0; ; i++) {
                const now = only ? self.nodes.filter((n) => n instanceof Element) : self.nodes;
                if (i >= now.length) return;
                yield now[i];
              }
            };
          }
          if (typeof name === "string" && /^\d+$/.test(name)) return list[Number(name)];
          return undefined;
        },
        has: (_, name) => typeof name === "string" && /^\d+$/.test(name) && Number(name) < (only ? this.nodes.filter((n) => n instanceof Element) : this.nodes).length,
      });
    const self = this;
    this.children = live(true);
    this.childNodes = live(false);
  }
  made(n) {
    return n instanceof Node ? n : new Text(String(n));
  }
  get firstChild() {
    return this.nodes[0] ?? null;
  }
  get lastChild() {
    return this.nodes.at(-1) ?? null;
  }
  get firstElementChild() {
    return this.nodes.find((n) => n instanceof Element) ?? null;
  }
  get lastElementChild() {
    return this.nodes.findLast((n) => n instanceof Element) ?? null;
  }
  get childElementCount() {
    return this.nodes.filter((n) => n instanceof Element).length;
  }
  insertBefore(node, ref) {
    if (!(node instanceof Node)) throw new TypeError("insertBefore: parameter 1 is not a Node");
    for (let at = this; at; at = at.parentNode) if (at === node) throw new Error("HierarchyRequestError");
    if (ref != null && ref.parentNode !== this) throw new Error("NotFoundError");
    if (ref === node) ref = node.nextSibling;
    node.detach();
    this.nodes.splice(ref == null ? this.nodes.length : this.nodes.indexOf(ref), 0, node);
    node.parentNode = this;
    if (node instanceof Element && this.isConnected) log.moves.push(["in", node]);
    return node;
  }
  appendChild(node) {
    return this.insertBefore(node, null);
  }
  removeChild(node) {
    if (!node || node.parentNode !== this) throw new Error("NotFoundError");
    node.detach();
    return node;
  }
  replaceChild(node, old) {
    const ref = old.nextSibling === node ? node.nextSibling : old.nextSibling;
    this.removeChild(old);
    this.insertBefore(node, ref);
    return old;
  }
  append(...nodes) {
    for (const n of nodes) this.appendChild(this.made(n));
  }
  prepend(...nodes) {
    let ref = this.firstChild;
    while (ref && nodes.includes(ref)) ref = ref.nextSibling;
    for (const n of nodes) this.insertBefore(this.made(n), ref);
  }
  replaceChildren(...nodes) {
    while (this.firstChild) this.firstChild.remove();
    this.append(...nodes);
  }
  contains(node) {
    for (let at = node; at; at = at.parentNode) if (at === this) return true;
    return false;
  }
  *all() {
    for (const n of this.nodes) {
      if (n instanceof Element) {
        yield n;
        yield* n.all();
      }
    }
  }
  querySelectorAll(sel) {
    const one = (el, s) => {
      const m = /^([a-zA-Z]*)((?:[.#][\w-]+|\[[^\]]*\])*)$/.exec(s);
      if (!m) throw new Error("selector " + sel);
      if (m[1] && el.tagName.toLowerCase() !== m[1].toLowerCase()) return false;
      for (const part of m[2].match(/[.#][\w-]+|\[[^\]]*\]/g) ?? []) {
        if (part[0] === "." && !el.classList.contains(part.slice(1))) return false;
        if (part[0] === "#" && el.id !== part.slice(1)) return false;
        if (part[0] === "[") {
          const a = /^\[([\w-]+)(?:="?([^"]*)"?)?\]$/.exec(part);
          if (!el.hasAttribute(a[1]) || (a[2] !== undefined && el.getAttribute(a[1]) !== a[2])) return false;
        }
      }
      return true;
    };
    const steps = sel.trim().split(/\s+/);
    return [...this.all()].filter((el) => {
      if (!one(el, steps.at(-1))) return false;
      let at = el.parentNode;
      for (const s of steps.slice(0, -1).reverse()) {
        while (at instanceof Element && !one(at, s)) at = at.parentNode;
        if (!(at instanceof Element)) return false;
        at = at.parentNode;
      }
      return true;
    });
  }
  querySelector(sel) {
    return this.querySelectorAll(sel)[0] ?? null;
  }
  getElementsByClassName(c) {
    return [...this.all()].filter((el) => c.split(/\s+/).every((x) => el.classList.contains(x)));
  }
  getElementsByTagName(t) {
    return [...this.all()].filter((el) => el.tagName.toLowerCase() === t.toLowerCase());
  }
  get textContent() {
    return this.nodes.map((n) => n.textContent).join("");
  }
  set textContent(s) {
    this.replaceChildren(...(s === "" || s == null ? [] : [new Text(String(s))]));
  }
}

class Sheet {
  cssRules = [];
  constructor(text) {
    for (const r of text.split("}")) if (r.trim()) this.cssRules.push({ cssText: r.trim().replace(/\s+/g, " ") + " }" });
  }
  insertRule(text, at = 0) {
    if (at > this.cssRules.length) throw new Error("IndexSizeError");
    this.cssRules.splice(at, 0, { cssText: text });
    return at;
  }
  deleteRule(at) {
    if (at >= this.cssRules.length) throw new Error("IndexSizeError");
    this.cssRules.splice(at, 1);
  }
}

export class Element extends Parent {
  nodeType = 1;
  attrs = new Map();
  listeners = [];
  constructor(tagName) {
    super();
    this.tagName = tagName;
    this.style = new Style(this);
    this.classList = new ClassList(this);
    const self = this;
    this.attributes = new Proxy([], {
      get: (_, name) => {
        const list = [...self.attrs].map(([name, value]) => ({ name, value }));
        if (name === "length") return list.length;
        if (name === "getNamedItem") return (n) => list.find((a) => a.name === n) ?? null;
        if (name === "item") return (i) => list[i] ?? null;
        if (name === Symbol.iterator) return () => list[Symbol.iterator]();
        if (typeof name === "string" && /^\d+$/.test(name)) return list[Number(name)];
        return undefined;
      },
    });
  }
  get nodeName() {
    return this.tagName;
  }
  get localName() {
    return this.tagName;
  }
  getAttribute(n) {
    return this.attrs.get(n) ?? null;
  }
  setAttribute(n, v) {
    this.attrs.set(n, String(v));
  }
  hasAttribute(n) {
    return this.attrs.has(n);
  }
  removeAttribute(n) {
    this.attrs.delete(n);
  }
  getAttributeNames() {
    return [...this.attrs.keys()];
  }
  get id() {
    return this.getAttribute("id") ?? "";
  }
  set id(v) {
    this.setAttribute("id", v);
  }
  get className() {
    return this.getAttribute("class") ?? "";
  }
  set className(v) {
    this.setAttribute("class", v);
  }
  addEventListener(name, f) {
    this.listeners.push([name, f]);
  }
  removeEventListener(name, f) {
    this.listeners = this.listeners.filter((l) => l[0] !== name || l[1] !== f);
  }
  // events go up to the document
  dispatch(name, more = {}) {
    const event = { type: name, target: this, preventDefault() {}, ...more };
    for (let at = this; at instanceof Element; at = at.parentNode) {
      for (const [n, f] of [...at.listeners]) if (n === name) f(event);
    }
  }
  getBoundingClientRect() {
    return { left: 0, top: 0, width: 0, height: 0 };
  }
  get sheet() {
    if (this.tagName.toLowerCase() !== "style" || !this.isConnected) return null;
    return (this.ownSheet ??= new Sheet(this.textContent));
  }
  matches(sel) {
    const holder = new Element("holder");
    holder.nodes = [this];
    return holder.querySelectorAll(sel).includes(this);
  }
  closest(sel) {
    for (let at = this; at instanceof Element; at = at.parentNode) if (at.matches(sel)) return at;
    return null;
  }
  cloneNode(deep) {
    const out = new Element(this.tagName);
    for (const [k, v] of this.attrs) out.attrs.set(k, v);
    if (deep) for (const n of this.nodes) out.appendChild(n.cloneNode(true));
    return out;
  }
  get innerHTML() {
    return this.nodes.map(write).join("");
  }
  set innerHTML(text) {
    this.replaceChildren();
    for (const n of parse(text)) this.appendChild(n);
  }
  get outerHTML() {
    return write(this);
  }
}

// setting its size clears a canvas
export class Canvas extends Element {
  size = { width: 300, height: 150 };
  drawn = "";
  get width() {
    return this.size.width;
  }
  set width(v) {
    this.size.width = Math.trunc(v);
    this.drawn = "";
  }
  get height() {
    return this.size.height;
  }
  set height(v) {
    this.size.height = Math.trunc(v);
    this.drawn = "";
  }
  getContext() {
    return { canvas: this };
  }
}

const esc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
const unesc = (s) => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&amp;/g, "&");
export function write(n) {
  if (n instanceof Text) return esc(n.data);
  const attrs = [...n.attrs].map(([k, v]) => ` ${k}="${esc(v)}"`).join("");
  return `<${n.tagName}${attrs}>${n.nodes.map(write).join("")}</${n.tagName}>`;
}
function parse(text) {
  const top = new Element("top");
  let at = top;
  const re = /<\/([\w-]+)>|<([\w-]+)((?:\s+[\w:-]+="[^"]*")*)\s*(\/?)>|([^<]+)/gy;
  let pos = 0;
  while (pos < text.length) {
    re.lastIndex = pos;
    const m = re.exec(text);
    if (!m) throw new Error("no markup: " + text.slice(pos, pos + 40));
    pos = re.lastIndex;
    if (m[1]) {
      if (at.tagName !== m[1]) throw new Error("closing " + m[1] + " in " + at.tagName);
      at = at.parentNode;
    } else if (m[2]) {
      const el = new Element(m[2]);
      for (const a of m[3].matchAll(/([\w:-]+)="([^"]*)"/g)) el.setAttribute(a[1], unesc(a[2]));
      at.appendChild(el);
      if (!m[4]) at = el;
    } else {
      at.appendChild(new Text(unesc(m[5])));
    }
  }
  if (at !== top) throw new Error("unclosed " + at.tagName);
  const out = [...top.nodes];
  for (const n of out) n.detach();
  return out;
}

export class Document extends Parent {
  constructor() {
    super();
    this.documentElement = new Element("html");
    this.body = new Element("body");
    this.head = new Element("head");
    this.documentElement.append(this.head, this.body);
    this.appendChild(this.documentElement);
    this.implementation = { createHTMLDocument: () => new Document() };
  }
  createElement(tag) {
    return tag === "canvas" ? new Canvas(tag) : new Element(tag);
  }
  createElementNS(_, tag) {
    return new Element(tag);
  }
  createTextNode(s) {
    return new Text(s);
  }
  getElementById(id) {
    for (const el of this.all()) if (el.id === id) return el;
    return null;
  }
  addEventListener() {}
  removeEventListener() {}
}

export function install() {
  const document = new Document();
  log.moves = [];
  globalThis.document = document;
  globalThis.Element = Element;
  globalThis.Node = Node;
  globalThis.HTMLElement = Element;
  globalThis.SVGElement = Element;
  globalThis.getComputedStyle = () => ({ getPropertyValue: () => "white" });
  clock.reset();
  globalThis.setTimeout = (f, ms = 0) => clock.set(f, ms);
  globalThis.clearTimeout = (id) => clock.clear(id);
  globalThis.requestAnimationFrame = (f) => clock.set(f, 16);
  globalThis.window = {
    screenLeft: 0, screenTop: 0, innerWidth: 800, innerHeight: 600, onresize: null,
    scrollBy() {}, addEventListener() {}, removeEventListener() {},
    typstWebsocket: { sent: [], send(s) { this.sent.push(s); } },
    initTypstSvg() {},
  };
  return document;
}
