// C24: what the preview shows after an update is the new document.
import { install, log, clock, write, Element, Canvas } from "./dom.mjs";
import { hash } from "./kit.mjs";

export default (code) => [
  { name: "views", quick: 60000, thorough: 1500000, run: (s, o) => views(code, s, o) },
  { name: "svg", quick: 12000, thorough: 300000, run: (s, o) => svg(code, s, o) },
  { name: "preview", quick: 9000, thorough: 100000, run: (s, o) => preview(code, s, o) },
  { name: "slides", quick: 6000, thorough: 150000, run: (s, o) => slides(code, s, o) },
  { name: "canvas", quick: 4000, thorough: 100000, run: (s, o) => canvas(code, s, o, false) },
  { name: "outline", quick: 4000, thorough: 100000, run: (s, o) => canvas(code, s, o, true) },
];

// ---------------------------------------------------------------- sequences

class Item {
  tagName = "g";
  constructor(name, attrs) {
    this.name = name;
    this.attrs = attrs;
  }
  getAttribute(n) {
    return this.attrs[n] ?? null;
  }
  cloneNode() {
    return Object.assign(new Item("clone of " + this.name, { ...this.attrs }), { from: this });
  }
}

// The instructions that are computed for two sequences, carried out.
async function views(code, s, o) {
  const svg = !s.chance(1, 3);
  const origin = [], target = [];
  const tids = s.range(1, 6);
  // elements that are not to be patched have no key at all
  const foreign = s.chance(1, 3);
  for (let i = 0, n = s.range(0, 9); i < n; i++) {
    const f = foreign && s.chance(1, 4);
    origin.push(new Item("o" + i, f ? { plain: "1" } : { "data-tid": "k" + s.below(tids) }));
  }
  for (let i = 0, n = s.range(0, 9); i < n; i++) {
    const from = s.below(tids + 1);
    const attrs = {};
    if (from < tids) attrs["data-reuse-from"] = "k" + from;
    attrs["data-tid"] = from < tids && !s.chance(1, 3) ? "k" + from : "t" + i;
    target.push(new Item("t" + i, attrs));
  }
  const isElem = foreign ? (x) => x.getAttribute("data-tid") !== null : undefined;
  const tell = (x) => `${x.name}${JSON.stringify(x.attrs)}`;
  o.show(`origin ${origin.map(tell).join(" ")}`);
  o.show(`target ${target.map(tell).join(" ")}${svg ? "" : " (outline)"}`);

  // what is to be there afterwards
  const free = new Map();
  for (const x of origin) if (x.attrs["data-tid"]) (free.get(x.attrs["data-tid"]) ?? free.set(x.attrs["data-tid"], []).get(x.attrs["data-tid"])).push(x);
  const firsts = new Map([...free].map(([k, v]) => [k, v[0]]));
  let reused = 0;
  const want = target.map((t) => {
    const from = t.attrs["data-reuse-from"];
    const got = from && free.get(from)?.shift();
    if (got) {
      reused++;
      return { is: got, patch: t };
    }
    if (from && firsts.has(from) && svg && t.attrs["data-tid"] === from) return { clone: firsts.get(from), patch: t };
    return { is: t };
  });
  o.nontrivial = reused >= 2;
  if (reused < target.length) o.label("not all from the origin");
  if (free.size && [...free.values()].some((l) => l.length)) o.label("some unused");

  const args = isElem ? [origin, target, svg, isElem] : [origin, target, svg];
  const [view, pairs] = code.interpretTargetView(...args);
  const steps = isElem ? code.changeViewPerspective(origin, view, isElem) : code.changeViewPerspective(origin, view);
  const tellStep = (i) => "<" + i.map((x) => (x instanceof Item ? x.name : x)).join(" ") + ">";

  // the instructions for building the target from nothing
  const built = [], removed = [];
  for (const [op, x] of view) {
    if (op === "append") built.push(x);
    else if (op === "reuse") built.push(origin[x]);
    else if (op === "remove") removed.push(origin[x]);
    else return "unknown instruction " + op;
  }
  const isIt = (x, w) => (w.is ? x === w.is : x instanceof Item && x.from === w.clone);
  const tellWant = () => want.map((w) => (w.is ? w.is.name : "clone of " + w.clone.name)).join(" ");
  if (built.length !== want.length || !built.every((x, i) => isIt(x, want[i]))) {
    return `the view ${view.map(tellStep).join(" ")} builds ${built.map((x) => x?.name).join(" ")}, not ${tellWant()}`;
  }
  const unused = origin.filter((x) => x.attrs["data-tid"] && !built.includes(x));
  if (new Set(removed).size !== removed.length || removed.length !== unused.length || !unused.every((x) => removed.includes(x))) {
    return `the view ${view.map(tellStep).join(" ")} removes ${removed.map((x) => x?.name).join(" ")}, not ${unused.map((x) => x.name).join(" ")}`;
  }
  // what is to be patched
  const wantPairs = want.map((w, i) => [built[i], w.patch]).filter((p) => p[1]);
  if (pairs.length !== wantPairs.length || !wantPairs.every(([a, b]) => pairs.some((p) => p[0] === a && p[1] === b))) {
    return `to be patched are ${pairs.map((p) => p.map((x) => x.name).join("->")).join(" ")}, not ${wantPairs.map((p) => p.map((x) => x.name).join("->")).join(" ")}`;
  }
  // and the instructions for changing the origin to it, as they are run on a document
  const now = [...origin];
  for (const step of steps) {
    const [op, at, x] = step;
    const inside = (i, end) => Number.isInteger(i) && i >= 0 && i < end;
    if (op === "insert") {
      if (!inside(at, now.length + 1)) return `${tellStep(step)} is out of range`;
      if (now.includes(x)) return `${tellStep(step)} inserts what is there`;
      now.splice(at, 0, x);
    } else if (op === "swap_in") {
      if (!inside(at, now.length) || !inside(x, now.length)) return `${tellStep(step)} is out of range`;
      const moved = now[x], before = now[at];
      if (moved === before) continue;
      now.splice(x, 1);
      now.splice(now.indexOf(before), 0, moved);
    } else if (op === "remove") {
      if (!inside(at, now.length)) return `${tellStep(step)} is out of range`;
      now.splice(at, 1);
    } else return "unknown instruction " + op;
  }
  const result = `${steps.map(tellStep).join(" ")} give ${now.map((x) => x.name).join(" ")}`;
  const mine = now.filter((x) => !x.attrs.plain), others = now.filter((x) => x.attrs.plain);
  if (mine.length !== built.length || !mine.every((x, i) => x === built[i])) return `${result}, not ${tellWant()}`;
  const wantOthers = origin.filter((x) => x.attrs.plain);
  if (others.length !== wantOthers.length || !others.every((x, i) => x === wantOthers[i])) return `${result}: what is not to be patched has changed`;
  if (steps.length && !foreign && built.length === origin.length && built.every((x, i) => x === origin[i])) return `${result}: nothing was to be done`;
  return null;
}

// ---------------------------------------------------------------- documents

let fresh = 0;
const leaf = (s) => {
  const tag = s.of(["path", "use", "rect", "text"]);
  const attrs = { d: "v" + s.below(9) };
  if (s.chance(1, 3)) attrs.fill = "#" + s.below(3);
  return { tag, attrs, kids: [], text: tag === "text" ? "w" + s.below(9) : "" };
};
const own = (s, g) => {
  if (s.chance(1, 2)) g.attrs.transform = `translate(${s.below(20)}, ${s.below(20)})`;
  else delete g.attrs.transform;
  if (s.chance(1, 6)) g.attrs["data-span"] = "s" + s.below(5);
};
// `untagged`: without a key, as in a document that was not made for patching
function group(s, depth, cls) {
  const g = { tag: "g", attrs: { class: cls ?? (s.chance(1, 8) ? "wrap" : "typst-" + s.of(["group", "text", "shape", "image"])) }, kids: [], text: "" };
  own(s, g);
  if (s.chance(1, 12)) g.bad = "bad" + ++fresh;
  for (let i = 0, n = s.small(depth > 0 ? 5 : 3); i < n; i++) g.kids.push(depth > 0 && !s.chance(1, 3) ? group(s, depth - 1) : leaf(s));
  return g;
}
const isG = (n) => n.tag === "g";
// the key of an element: its content, without its own place
function key(g) {
  if (g.tid) return g.tid;
  if (g.bad) return g.bad;
  return "p" + hash(g.attrs.class + full(g.kids));
}
const esc = (x) => String(x).replace(/&/g, "&amp;").replace(/"/g, "&quot;").replace(/</g, "&lt;");
const tagOf = (n, extra = {}) =>
  `<${n.tag}${Object.entries({ ...n.attrs, ...extra }).map(([k, v]) => ` ${k}="${esc(v)}"`).join("")}>`;
const keyAttrs = (g) => (g.untagged ? {} : { "data-tid": key(g), ...(g.bad ? { "data-bad-equality": "1" } : {}) });
function full(kids) {
  return kids.map((n) => `${tagOf(n, isG(n) ? keyAttrs(n) : {})}${n.text}${full(n.kids)}</${n.tag}>`).join("");
}
const copy = (n) => ({ tag: n.tag, attrs: { ...n.attrs }, kids: n.kids.map(copy), text: n.text, ...(n.bad ? { bad: n.bad } : {}) });
// copies are other elements: those that are not equal to anything keep their own keys
const rename = (n) => {
  if (n.bad) n.bad = "bad" + ++fresh;
  n.kids.forEach(rename);
  return n;
};

// What the renderer sends for `next` where `prev` is shown: each element by the key
// of the shown one it is equal to, by its difference to a shown one, or as a whole.
// Notes in each element how it was sent.
function difference(s, prev, next, stats) {
  const free = new Map();
  for (const p of prev.filter(isG)) {
    if (p.untagged) continue;
    const k = key(p);
    if (!free.has(k)) free.set(k, { all: [], next: 0 });
    free.get(k).all.push(p);
  }
  return next.map((n) => {
    if (!isG(n)) return `${tagOf(n)}${n.text}</${n.tag}>`;
    const k = key(n);
    const same = free.get(k);
    if (same && !s.chance(1, 20)) {
      const slot = same.all[same.next];
      if (slot) same.next++;
      n.sent = slot ? { how: n.bad ? "differs" : "same", among: same.all } : { how: "copied" };
      stats[n.sent.how] = (stats[n.sent.how] ?? 0) + 1;
      const inner = n.bad ? difference(s, (slot ?? same.all[0]).kids, n.kids, stats) : "";
      return `${tagOf(n, { ...keyAttrs(n), "data-reuse-from": k })}${inner}</g>`;
    }
    const others = [...free].filter(([name, v]) => name !== k && v.next < v.all.length);
    if (others.length && !s.chance(1, 3)) {
      const [from, v] = s.of(others);
      const slot = v.all[v.next++];
      n.sent = { how: "differs", among: v.all };
      stats.differs = (stats.differs ?? 0) + 1;
      return `${tagOf(n, { ...keyAttrs(n), "data-reuse-from": from })}${difference(s, slot.kids, n.kids, stats)}</g>`;
    }
    n.sent = { how: "whole" };
    stats.whole = (stats.whole ?? 0) + 1;
    const extra = s.chance(1, 8) ? { "data-reuse-from": "gone" + s.below(3) } : {};
    return `${tagOf(n, { ...keyAttrs(n), ...extra })}${full(n.kids)}</g>`;
  }).join("");
}

// Changes somewhere in a list of elements.
function edit(s, kids, depth) {
  const groups = kids.filter(isG);
  if (depth > 0 && groups.length && s.chance(1, 2)) {
    const g = s.of(groups);
    edit(s, g.kids, depth - 1);
    return;
  }
  const at = s.below(kids.length + 1);
  const some = kids.length ? s.below(kids.length) : 0;
  switch (s.below(8)) {
    case 0: kids.splice(at, 0, group(s, s.small(2))); break;
    case 1: if (kids.length) kids.splice(some, 1); break;
    case 2: if (kids.length) { const [x] = kids.splice(some, 1); kids.splice(s.below(kids.length + 1), 0, x); } break;
    case 3: if (kids.length) kids.splice(at, 0, rename(copy(kids[some]))); break;
    case 4: if (kids.length && isG(kids[some])) own(s, kids[some]); break;
    case 5: kids.splice(at, 0, leaf(s)); break;
    case 6: if (kids.length) kids[some] = isG(kids[some]) ? group(s, s.small(2)) : leaf(s); break;
    case 7: if (kids.length && isG(kids[some])) kids[some].kids = kids[some].kids.reverse(); break;
  }
}

// compares what is shown with the document; returns the place of a difference
function differs(n, el, where) {
  if (!(el instanceof Element)) return `${where}: ${n.tag} is not there`;
  if (el.tagName !== n.tag) return `${where}: ${el.tagName} instead of ${n.tag}`;
  const want = { ...n.attrs, ...(isG(n) ? keyAttrs(n) : {}) };
  const got = Object.fromEntries(el.attrs);
  delete got["data-reuse-from"];
  const names = [...new Set([...Object.keys(want), ...Object.keys(got)])];
  for (const a of names) if (want[a] !== got[a]) return `${where}: ${n.tag} has ${a}=${got[a]} instead of ${want[a]}`;
  const kids = [...el.children];
  for (let i = 0; i < Math.max(kids.length, n.kids.length); i++) {
    if (!n.kids[i]) return `${where}/${i}: ${write(kids[i])} is too much`;
    const d = differs(n.kids[i], kids[i], where + "/" + i);
    if (d) return d;
  }
  if (!kids.length && el.textContent !== n.text) return `${where}: text ${el.textContent} instead of ${n.text}`;
  return null;
}
const shownAt = (n, el) => {
  n.el = el;
  n.kids.forEach((k, i) => shownAt(k, el.children[i]));
};
// what was to be reused is the same element as before
function rebuilt(n, el, where) {
  if (n.sent?.how === "same" || n.sent?.how === "differs") {
    const p = n.sent.among.find((p) => p.el === el);
    if (!p) return `${where}: ${n.attrs.class} was not reused`;
    if (n.sent.how === "same") return inside(p, el, where);
  }
  if (n.sent?.how === "copied") return null;
  for (let i = 0; i < n.kids.length; i++) {
    const r = rebuilt(n.kids[i], el.children[i], where + "/" + i);
    if (r) return r;
  }
  return null;
}
function inside(p, el, where) {
  for (let i = 0; i < p.kids.length; i++) {
    if (p.kids[i].el !== el.children[i]) return `${where}/${i}: was rebuilt`;
    const r = inside(p.kids[i], el.children[i], where + "/" + i);
    if (r) return r;
  }
  return null;
}
const forget = (n) => {
  delete n.sent;
  n.kids.forEach(forget);
};
const untag = (s, n) => {
  if (isG(n) && s.chance(1, 4)) n.untagged = true;
  n.kids.forEach((k) => untag(s, k));
};

// Histories of documents, each sent as its difference to the one before, in one or
// two containers of a page.
async function svg(code, s, o) {
  fresh = 0;
  const document = install();
  const res = { glyphs: [], clips: [], rules: new Set() };
  let glyphs = 0;
  const parts = [];
  for (let i = 0, n = s.chance(1, 6) ? 2 : 1; i < n; i++) {
    const el = document.createElement("div");
    document.body.append(el);
    parts.push({ el, doc: null, old: [] });
  }
  let reusing = false, changing = false;
  for (let step = 0, steps = s.range(2, 5); step < steps; step++) {
    const part = s.of(parts);
    const first = !part.doc;
    // the next document
    let next, kind = 0;
    if (first) {
      next = { tag: "svg", attrs: {}, kids: [], text: "" };
      for (let i = 0, n = s.range(1, 3); i < n; i++) next.kids.push(group(s, 2, "typst-page"));
      if (s.chance(1, 6)) next.kids.forEach((k) => untag(s, k));
    } else {
      kind = s.below(8);
      next = kind === 7 && part.old.length ? copy(s.of(part.old)) : copy(part.doc);
      if (kind === 0) o.label("unchanged");
      else for (let i = 0, n = s.range(1, 5); i < n && kind < 7; i++) edit(s, next.kids, 3);
    }
    next.attrs = { class: "typst-doc", viewBox: `0 0 ${s.below(4)} 9` };
    if (s.chance(1, 3)) next.attrs["data-height"] = "h" + s.below(3);
    const stats = {};
    const header = () => {
      const some = (name) => Array.from({ length: s.small(2) }, () => name + ++glyphs);
      const g = some("g"), c = some("c");
      const keep = s.chance(1, 3);
      const rules = Array.from({ length: s.small(3) }, () => `.r${s.below(8)} { fill: red; }`);
      res.glyphs.push(...g);
      res.clips.push(...c);
      if (!keep || !document.getElementById("typst-svg-resources")) rules.forEach((r) => res.rules.add(r));
      return `<style type="text/css"${keep ? ' data-reuse="1"' : ""}>${rules.join(" ")}</style>` +
        `<defs class="glyph">${g.map((x) => `<symbol id="${x}"></symbol>`).join("")}</defs>` +
        `<defs class="clip-path">${c.map((x) => `<clipPath id="${x}"></clipPath>`).join("")}</defs>`;
    };
    const body = first ? full(next.kids) : difference(s, part.doc.kids, next.kids, stats);
    const sent = `<svg${Object.entries(next.attrs).map(([k, v]) => ` ${k}="${esc(v)}"`).join("")}>${header()}${body}</svg>`;
    o.show(`${parts.length > 1 ? "container " + parts.indexOf(part) + " " : ""}update ${step}: ${sent}`);
    if (stats.same || stats.differs) reusing = true;
    if (!first && kind > 0) changing = true;
    Object.keys(stats).forEach((k) => o.label(k));
    // the caller may add to the new document
    const decorated = s.chance(1, 3);
    let calls = 0;
    const decorate = (svg) => {
      calls++;
      if (!decorated) return;
      svg.setAttribute("data-extra", "x" + step);
      const rect = document.createElementNS("", "rect");
      rect.setAttribute("class", "outer");
      svg.insertBefore(rect, svg.firstElementChild);
      for (const c of svg.children) if (c.classList.contains("typst-page")) c.setAttribute("data-place", "p" + step);
    };
    log.moves = [];
    code.patchSvgToContainer(part.el, sent, decorate);
    if (calls !== 1) return `update ${step}: the new document was handed on ${calls} times`;
    if (decorated) {
      next.attrs["data-extra"] = "x" + step;
      next.kids.forEach((k) => k.attrs.class === "typst-page" && isG(k) && (k.attrs["data-place"] = "p" + step));
      next.kids.unshift({ tag: "rect", attrs: { class: "outer" }, kids: [], text: "" });
    }
    if (part.el.children.length !== 1) return `update ${step}: the container has ${part.el.children.length} elements`;
    const d = differs(next, part.el.firstElementChild, "svg");
    if (d) return `update ${step}: ${d}\n${write(part.el)}`;
    if (!first) {
      const r = rebuilt(next, part.el.firstElementChild, "svg");
      if (r) return `update ${step}: ${r}`;
      if (kind === 0 && next.kids.filter(isG).every((k) => k.sent.how === "same")) {
        o.label("all reused");
        const moved = log.moves.filter(([, el]) => el.tagName === "g");
        if (moved.length) return `update ${step}: ${moved[0][1].outerHTML} of an unchanged document was moved`;
      }
    }
    // the parts shared by all containers
    const headers = [...document.all()].filter((e) => e.id === "typst-svg-resources");
    if (headers.length !== 1) return `update ${step}: ${headers.length} resource headers`;
    const [style, glyph, clip, ...more] = headers[0].children;
    if (more.length || !clip || style.tagName !== "style") return `update ${step}: header ${write(headers[0])}`;
    const ids = (el) => [...el.children].map((c) => c.id).sort().join();
    if (ids(glyph) !== [...res.glyphs].sort().join()) return `update ${step}: glyphs ${ids(glyph)} instead of ${res.glyphs}`;
    if (ids(clip) !== [...res.clips].sort().join()) return `update ${step}: clip paths ${ids(clip)} instead of ${res.clips}`;
    const rules = style.sheet.cssRules.map((r) => r.cssText);
    const wantRules = [...res.rules].sort().join();
    if ([...new Set(rules)].sort().join() !== wantRules) return `update ${step}: rules ${rules} instead of ${wantRules}`;
    if (part.doc) part.old.push(copy(part.doc));
    forget(next);
    shownAt(next, part.el.firstElementChild);
    // (what was added by the caller is not part of the document)
    if (decorated) {
      next.kids.shift();
      next.kids.forEach((k) => delete k.attrs["data-place"]);
    }
    part.doc = next;
  }
  o.nontrivial = reusing && changing;
  return null;
}

// ---------------------------------------------------------------- the preview

// The renderer as the preview uses it.
class Renderer {
  pages = [];
  draws = 0;
  docWidth = 100;
  reset() {
    this.pages = [];
  }
  merge_delta(pages) {
    this.pages = pages;
    this.docWidth = Math.max(1, ...pages.map((p) => p.width));
  }
  retrievePagesInfo() {
    return this.pages.map((p, i) => ({ pageOffset: i, width: p.width, height: p.height }));
  }
  async renderCanvas({ canvas, pageOffset, cacheKey }) {
    const page = this.pages[pageOffset];
    const key = "c" + hash(page.content);
    if (cacheKey !== key) {
      this.draws++;
      canvas.canvas.drawn = page.content;
    }
    return { cacheKey: key };
  }
}

const pagesOf = (s, before) => {
  const one = () => ({ width: s.of([100, 100, 80, 120.5]), height: s.of([200, 200, 90, 150.25]), content: "page " + s.below(6) });
  if (!before || s.chance(1, 6)) return Array.from({ length: s.range(1, s.chance(1, 12) ? 30 : 6) }, one);
  const out = before.map((p) => ({ ...p }));
  for (let i = 0, n = s.range(0, 3); i < n; i++) {
    const at = s.below(out.length + 1);
    switch (s.below(4)) {
      case 0: out.splice(at, 0, one()); break;
      case 1: if (out.length > 1) out.splice(Math.min(at, out.length - 1), s.range(1, 3)); break;
      case 2: if (at < out.length) out[at] = one(); break;
      case 3: if (at < out.length) out[at].content += "!"; break;
    }
  }
  if (!out.length) out.push(one());
  return out;
};

const outlineOf = (s, depth, max) => Array.from({ length: s.small(depth ? 4 : 2) }, () => ({
  ...(s.chance(3, 4) ? { span: "sp" + s.below(5) } : {}),
  title: s.of(["One", "Two", "Three", "A & B"]),
  ...(s.chance(7, 8) ? { position: { page_no: s.range(1, max + 1), x: 0, y: 0 } } : {}),
  children: depth ? outlineOf(s, depth - 1, max) : [],
}));
// in a document the titles come in the order of the pages
function inOrder(items) {
  const flat = [];
  const walk = (l) => l.forEach((x) => (flat.push(x), walk(x.children)));
  walk(items);
  const nos = flat.filter((x) => x.position).map((x) => x.position.page_no).sort((a, b) => a - b);
  flat.filter((x) => x.position).forEach((x, i) => (x.position.page_no = nos[i]));
  return items;
}

const errors = [];
async function settle(doc) {
  for (let i = 0; i < 2000; i++) {
    const more = await clock.step();
    if (!more && !doc.impl.isRendering) return true;
  }
  return false;
}

// what is shown, with the drawings
function shown(el) {
  if (el instanceof Canvas) return `<canvas ${el.width}x${el.height} ${el.drawn}>`;
  if (!(el instanceof Element)) return write(el);
  const attrs = [...el.attrs].filter(([k]) => k !== "data-reuse-from").sort().map(([k, v]) => ` ${k}="${esc(v)}"`).join("");
  return `<${el.tagName}${attrs}>${[...el.childNodes].map(shown).join("")}</${el.tagName}>\n`;
}

// Updates of pages (and of the outline) that arrive at any moment.
async function canvas(code, s, o, outlined) {
  const document = install();
  errors.length = 0;
  console.error = (e) => errors.push(e?.stack ?? String(e));
  const make = (renderer) => {
    const el = document.createElement("div");
    document.body.append(el);
    const doc = new code.TypstDocument(el, renderer, {
      renderMode: code.RenderMode.Canvas, previewMode: code.PreviewMode.Doc, isContentPreview: outlined, sourceMapping: false,
      retrieveDOMState: () => ({ width: 410, height: 600, boundingRect: { left: 0, top: 0 } }),
    });
    return { el, doc };
  };
  const renderer = new Renderer();
  const { el, doc } = make(renderer);
  let pages = null, outline = null, updates = 0;
  let before = null, fewest = Infinity;
  const steps = s.range(2, 5);
  for (let step = 0; step < steps; step++) {
    const what = pages === null ? 0 : s.below(outlined ? 4 : 3);
    if (what <= 1) {
      pages = pagesOf(s, pages);
      const event = step === 0 || s.chance(1, 8) ? "new" : "diff-v1";
      o.show(`${event}: ${pages.map((p) => `${p.width}x${p.height} "${p.content}"`).join(", ")}`);
      doc.addChangement([event, pages]);
      updates++;
      fewest = Math.min(fewest, pages.length);
    } else if (what === 2) {
      o.show("viewport change");
      doc.addViewportChange();
    }
    if (outlined && (what === 3 || (step === 0 && s.chance(2, 3)))) {
      outline = { items: inOrder(s.chance(1, 4) && outline ? structuredClone(outline.items).reverse() : outlineOf(s, s.range(0, 3), pages.length)) };
      o.show("outline: " + JSON.stringify(outline.items));
      doc.setOutineData(outline);
    }
    if (step + 1 < steps && s.chance(1, 2)) {
      const n = s.range(0, 8);
      o.show(`after ${n} timers:`);
      for (let i = 0; i < n; i++) await clock.step();
      o.label("in between");
    } else {
      if (!(await settle(doc))) return "the preview does not come to rest";
      o.show("at rest");
      if (errors.length) return "error: " + errors[0];
      const bad = await restsAt();
      if (bad) return bad;
    }
  }
  if (updates > 1) o.nontrivial = true;
  return null;

  async function restsAt() {
    const top = el.firstElementChild;
    const all = [...top.all()].filter((e) => e.classList.contains("typst-page"));
    if (all.length !== pages.length) return `${all.length} pages instead of ${pages.length}:\n${shown(el)}`;
    for (let i = 0; i < pages.length; i++) {
      const p = pages[i], c = all[i].querySelector("canvas");
      if (all[i].getAttribute("data-page-number") !== String(i)) return `page ${i} is page ${all[i].getAttribute("data-page-number")}:\n${shown(el)}`;
      if (c.drawn !== p.content) return `page ${i} shows "${c.drawn}" instead of "${p.content}"`;
      const ppp = outlined ? 1 : 3;
      if (c.width !== Math.trunc(p.width * ppp) || c.height !== Math.trunc(p.height * ppp)) return `page ${i} is drawn in ${c.width}x${c.height}`;
      // the box is as wide as the container, and in proportion
      const box = c.parentElement, w = outlined ? 400 : 410;
      const size = [box.style.width, box.style.height].join(" ");
      const want = [w, Math.ceil((p.height * w) / p.width)];
      const near = (a, b) => Math.abs(Number.parseFloat(a) - b) <= 1;
      if (!near(box.style.width, want[0]) || !near(box.style.height, want[1])) return `the box of page ${i} (${p.width}x${p.height}) has ${size} instead of ${want.join(" ")}`;
    }
    // what stays is not built anew
    if (before) {
      const kept = before.filter((c) => el.contains(c)).length;
      if (kept < Math.min(before.length, fewest) && !outlined) return `${kept} of ${before.length} pages were kept for ${all.length}`;
      if (kept) o.label("kept");
    }
    before = all;
    fewest = all.length;
    // everything is as in a preview that has seen nothing else
    const other = new Renderer(), scratch = make(other);
    if (outline) scratch.doc.setOutineData(structuredClone(outline));
    scratch.doc.addChangement(["new", pages]);
    if (!(await settle(scratch.doc))) return "a preview does not come to rest";
    const is = shown(el), want = shown(scratch.el);
    scratch.el.remove();
    if (is !== want) return `shown is\n${is}\ninstead of\n${want}`;
    if (outline) {
      const d = outlineDiffers(top, outline.items, pages.length);
      if (d) return `${d}:\n${shown(el)}`;
    }
    for (const e of outlined ? top.all() : []) {
      if (!e.classList.contains("typst-outline-title")) continue;
      const text = [...e.children].at(-1), holder = e.parentElement;
      const folds = [...holder.children].length > 1;
      for (const now of [folds, false]) {
        text.dispatch("click");
        if (holder.classList.contains("collapsed") !== now) return `a click on the title ${write(e)} of ${shown(holder)} leaves it ${now ? "open" : "closed"}`;
      }
      if (folds) o.label("folded");
      const jump = [...e.children].length > 1 ? e.firstElementChild : null;
      if (jump) {
        window.typstWebsocket.sent = [];
        jump.dispatch("click");
        const sent = window.typstWebsocket.sent.join();
        if (!holder.getAttribute("data-tid").startsWith(`outline:span:${sent.replace("srclocation ", "")},`)) return `a click on ${write(e)} sends ${sent}`;
      }
    }
    return null;
  }
}

// A title is shown within the one it belongs to, after the pages that come before
// the one it is on.
function outlineDiffers(top, items, count) {
  let before = 0, pages = 0, wrong = null;
  const walk = (el, list, depth) => {
    const left = [...list];
    for (const e of el.children) {
      if (e.classList.contains("typst-page")) pages++;
      if (!e.classList.contains("typst-outline")) continue;
      const item = left.shift();
      if (!item) return (wrong ??= `${write(e.firstElementChild)} is too much`);
      const title = e.firstElementChild;
      if (title.textContent.replace("↬", "").trim() !== item.title) wrong ??= `the title ${title.textContent} stands for ${item.title}`;
      if (!title.classList.contains("level-" + depth)) wrong ??= `${write(title)} is on level ${depth}`;
      before = Math.max(before, Math.min(count, (item.position?.page_no ?? 1) - 1));
      if (pages !== before) wrong ??= `the title ${item.title} is after ${pages} pages instead of ${before}`;
      walk(e, item.children, depth + 1);
    }
    if (left.length) wrong ??= `the title ${left[0].title} is not there`;
  };
  walk(top, items, 1);
  return wrong;
}

// Turns of the wheel: each changes the size by one of some fixed steps.
class Zoom {
  steps = new Map([[0, 1]]);
  at = 0;
  // what the size may be now
  turn(s, o, document) {
    // (the ends are reached in `slides`)
    const up = this.at <= -6 || (this.at < 8 && s.chance(1, 2)), ctrl = !s.chance(1, 6);
    o.show(`the wheel is turned ${up ? "up" : "down"}${ctrl ? " with Ctrl" : ""}`);
    document.body.dispatch("wheel", { ctrlKey: ctrl, deltaY: up ? -1 : 1, pageX: 10, pageY: 10 });
    if (ctrl) this.at += up ? 1 : -1;
  }
  is(ratio) {
    const near = (a, b) => Math.abs(a - b) < 0.01 * b + 0.005;
    const known = this.steps.get(this.at);
    if (known !== undefined && !near(ratio, known)) return `the scale is ${ratio} where it was ${known}`;
    if (ratio < 0.09 || ratio > 10.1) return `the scale is ${ratio}`;
    this.steps.set(this.at, ratio);
    for (const [k, r] of this.steps) {
      if (k < this.at && r >= ratio) return `the scale is ${ratio} after it was enlarged from ${r}`;
      if (k > this.at && r <= ratio) return `the scale is ${ratio} after it was reduced from ${r}`;
    }
    return null;
  }
}

// The renderer for SVG: the difference to what it sent before, where the pages that
// are not in the window have no content.
class SvgRenderer extends Renderer {
  constructor(s) {
    super();
    this.s = s;
    this.sent = [];
    this.calls = 0;
  }
  reset() {
    super.reset();
    this.sent = [];
  }
  get docHeight() {
    return this.pages.reduce((a, p) => a + p.height, 0);
  }
  get_source_loc(path) {
    return "at " + path.join();
  }
  renderSvgDiff({ window: { lo, hi } }) {
    return this.render_in_window(lo.x, lo.y, hi.x, hi.y);
  }
  render_in_window(_x0, y0, _x1, y1) {
    this.calls++;
    let top = 0;
    const stats = {};
    const now = this.pages.map((p, i) => {
      const inside = top + p.height > y0 && top < y1;
      top += p.height;
      const attrs = { class: "typst-page", "data-page-width": String(p.width), "data-page-height": String(p.height) };
      return inside ? Object.assign(copy(p.node), { attrs, real: true }) : { tag: "g", attrs: { ...attrs, "data-dummy": "1" }, kids: [], text: "", tid: `dummy${this.calls}-${i}` };
    });
    // (what is not shown with its content cannot be named)
    const body = difference(this.s, this.sent.filter((p) => p.real), now, stats);
    this.sent = now;
    return `<svg class="typst-doc" width="${this.docWidth}" height="${this.docHeight}"><style type="text/css"></style><defs class="glyph"></defs><defs class="clip-path"></defs>${body}</svg>`;
  }
}

const nodesOf = (s, before) => {
  const one = () => {
    const node = group(s, s.range(1, 3), "typst-page");
    delete node.attrs.transform;
    delete node.attrs["data-span"];
    return { width: s.of([100, 100, 80, 120.5]), height: s.of([200, 200, 90, 150.25]), node };
  };
  if (!before || s.chance(1, 8)) return Array.from({ length: s.range(1, s.chance(1, 12) ? 30 : 5) }, one);
  const out = before.map((p) => ({ ...p, node: copy(p.node) }));
  for (let i = 0, n = s.range(0, 3); i < n; i++) {
    const at = s.below(out.length + 1);
    switch (s.below(4)) {
      case 0: out.splice(at, 0, one()); break;
      case 1: if (out.length > 1) out.splice(Math.min(at, out.length - 1), s.range(1, 2)); break;
      case 2: if (at < out.length) edit(s, out[at].node.kids, 2); break;
      case 3: if (at < out.length) out[at].height = s.of([200, 90, 150.25]); break;
    }
  }
  if (!out.length) out.push(one());
  for (const p of out) p.content = full(p.node.kids);
  return out;
};

async function preview(code, s, o) {
  fresh = 0;
  const document = install();
  errors.length = 0;
  console.error = (e) => errors.push(e?.stack ?? String(e));
  const el = document.createElement("div");
  document.body.append(el);
  const renderer = new SvgRenderer(s);
  const state = { width: s.of([400, 300]), height: 600, boundingRect: { left: 0, top: 0 } };
  const doc = new code.TypstDocument(el, renderer, {
    renderMode: code.RenderMode.Svg, previewMode: code.PreviewMode.Doc, sourceMapping: true,
    retrieveDOMState: () => structuredClone(state),
  });
  const zoom = new Zoom();
  let cursor = null, paper = "white";
  const partial = s.chance(2, 3);
  if (partial) doc.setPartialRendering(true);
  o.show(partial ? "with partial rendering" : "without partial rendering");
  let pages = null, updates = 0, dummies = 0;
  for (let step = 0, steps = s.range(2, 6); step < steps; step++) {
    if (pages === null || s.chance(2, 3)) {
      pages = nodesOf(s, pages);
      for (const p of pages) p.content = full(p.node.kids);
      const event = updates === 0 || s.chance(1, 8) ? "new" : "diff-v1";
      o.show(`${event}: ${pages.map((p) => `${p.width}x${p.height} ${p.content}`).join(" | ")}`);
      doc.addChangement([event, pages]);
      updates++;
    } else if (s.chance(1, 3)) {
      for (let i = s.range(1, 3); i > 0; i--) zoom.turn(s, o, document);
      o.label("zoomed");
    } else if (s.chance(1, 4)) {
      cursor = [s.range(1, pages.length + 1), s.below(90), s.below(90)];
      o.show(`cursor at ${cursor}`);
      doc.setCursor(...cursor);
      doc.addViewportChange();
    } else if (s.chance(1, 4)) {
      paper = s.of(["", "white", "#eee"]);
      o.show(`pages are "${paper}"`);
      doc.setPageColor(paper);
    } else {
      state.boundingRect.top = -s.below(8) * 200;
      state.width = s.of([400, 400, 300]);
      o.show(`scrolled to ${-state.boundingRect.top}, width ${state.width}`);
      doc.addViewportChange();
    }
    if (step + 1 < steps && s.chance(1, 2)) {
      const n = s.range(0, 8);
      o.show(`after ${n} timers:`);
      for (let i = 0; i < n; i++) await clock.step();
      o.label("in between");
      continue;
    }
    if (!(await settle(doc))) return "the preview does not come to rest";
    o.show("at rest");
    if (errors.length) return "error: " + errors[0];
    // (the part in view is estimated from what is shown)
    const inView = partial && s.chance(1, 2);
    if (inView) {
      doc.addViewportChange();
      if (!(await settle(doc))) return "the preview does not come to rest";
    }
    const root = el.firstElementChild;
    const all = [...root.children].filter((c) => c.classList.contains("typst-page"));
    if (el.children.length !== 1) return `${el.children.length} documents`;
    if (all.length !== pages.length) return `${all.length} pages instead of ${pages.length}: ${shown(el)}`;
    const max = Math.max(...pages.map((p) => p.width));
    const rects = [...root.children].filter((c) => c.classList.contains("typst-page-inner"));
    const outer = [...root.children].filter((c) => c.classList.contains("typst-page-outer"));
    if (rects.length !== pages.length || outer.length !== 1) return `${rects.length} and ${outer.length} rectangles for ${pages.length} pages: ${shown(el)}`;
    const order = [...root.children];
    if (order.indexOf(outer[0]) > order.indexOf(rects[0]) || order.indexOf(rects.at(-1)) > order.indexOf(all[0])) return `rectangles over pages: ${shown(el)}`;
    let y = 0;
    for (let i = 0; i < pages.length; i++) {
      const p = pages[i], g = all[i], sent = renderer.sent[i];
      const place = g.getAttribute("transform");
      const m = /^translate\(([-0-9.e]+), ([-0-9.e]+)\)$/.exec(place ?? "");
      if (!m) return `page ${i} is at ${place}`;
      if (Math.abs(Number(m[1]) - (max - p.width) / 2) > 1e-6) return `page ${i} of ${max} wide pages is ${p.width} wide and at ${place}`;
      if (i === 0 ? Number(m[2]) !== 0 : Number(m[2]) <= y || Number(m[2]) > y + 30) return `page ${i} is at ${place}, where the one before ends at ${y}`;
      y = Number(m[2]) + p.height;
      const r = Object.fromEntries(rects[i].attrs);
      if (!r.transform.startsWith(place + " ") || r.width !== String(Math.floor(p.width * 100)) || r.height !== String(Math.floor(p.height * 100))) return `page ${i} at ${place} is on ${write(rects[i])}`;
      const fill = r.fill ?? "";
      if (fill !== paper) return `page ${i} is on ${write(rects[i])} instead of "${paper}"`;
      if (inView && !sent.real) {
        const scale = max / state.width / (zoom.steps.get(zoom.at) ?? NaN);
        const from = -state.boundingRect.top * scale, to = from + 600 * scale;
        if (Number(m[2]) + p.height > from && Number(m[2]) < to) return `page ${i} at ${place} is not rendered where ${from} to ${to} is in view`;
      }
      if (sent.real) {
        const d = differs({ ...sent, attrs: { ...sent.attrs, transform: place } }, g, "page " + i);
        if (d) return d + "\n" + shown(el);
      } else {
        dummies++;
        const f = [...g.children];
        if (f.length !== 1 || f[0].tagName !== "foreignObject" || f[0].children.length !== 1) return `page ${i} is not a drawing: ${shown(g)}`;
        const c = g.querySelector("canvas");
        if (c.drawn !== p.content) return `page ${i} shows ${c.drawn} instead of ${p.content}`;
        if (c.width !== Math.trunc(p.width * 3) || c.height !== Math.trunc(p.height * 3)) return `page ${i} is drawn in ${c.width}x${c.height}`;
        if (f[0].getAttribute("width") !== String(p.width) || f[0].getAttribute("height") !== String(p.height)) return `the drawing of page ${i} (${p.width}x${p.height}) is in ${tagOf({ tag: "foreignObject", attrs: Object.fromEntries(f[0].attrs) })}`;
      }
    }
    const box = (root.getAttribute("viewBox") ?? "").split(" ").map(Number);
    if (box.length !== 4 || box[0] || box[1] || Math.abs(box[2] - max) > 1e-6 || Math.abs(box[3] - y) > 1e-6) return `viewBox ${box} for ${max}x${y}`;
    if (outer[0].getAttribute("width") !== String(max) || Number(outer[0].getAttribute("height")) !== Math.ceil(y)) return `${write(outer[0])} for ${max}x${y}`;
    const w = Number(root.getAttribute("width")), h = Number(root.getAttribute("height"));
    const ratio = w / state.width;
    if (Math.abs(h - (y * w) / max) > 1 + y / max) return `shown in ${w}x${h}, for ${max}x${y}`;
    const z = zoom.is(ratio);
    if (z) return `${z}: shown in ${w}x${h} where ${state.width} is the width, for ${max}x${y}`;
    if (el.style.height) return `the container has the height ${el.style.height}`;
    const shift = `translate(${Math.max((state.width - w) / 2, 0)}px, 0px)`;
    if (el.style.transform !== shift) return `the document is at ${el.style.transform} instead of ${shift}`;
    if (el.classList.contains("hide-scrollbar-x") !== (zoom.at === 0)) return `scroll bars at a scale of ${ratio}: ${el.classList.value}`;
    const circles = [...root.children].filter((c) => c.tagName === "circle");
    const there = cursor && cursor[0] <= pages.length ? [[cursor[1] * 100, cursor[2] * 100, rects[cursor[0] - 1].getAttribute("transform")].join()] : [];
    const got = circles.map((c) => [c.getAttribute("cx"), c.getAttribute("cy"), c.getAttribute("transform")].join());
    if (got.join(" | ") !== there.join(" | ")) return `the cursor ${cursor} is shown at ${got.join(" | ")} instead of ${there}`;
    const j = jump(s, el, all);
    if (j) return j;
  }
  if (dummies) o.label("drawn pages");
  o.nontrivial = updates > 1;
  return null;
}

// A click tells where the text comes from: the place of the page, and below it of
// each element that stands for one of the source, among those beside it.
const TYPES = { "typst-text": 0, "typst-group": 1, "typst-image": 2, "typst-shape": 3, "typst-page": 4 };
const typeOf = (e) => TYPES[e.getAttribute("class")?.split(" ")[0]];
function standsFor(e) {
  while (typeOf(e) === undefined) {
    if (e.children.length !== 1) return null;
    e = e.children[0];
  }
  return e;
}
function jump(s, el, all) {
  const at = s.below(all.length);
  let e = all[at];
  for (let n = s.below(5); n > 0 && e.children.length; n--) e = e.children[s.below(e.children.length)];
  const chain = [];
  for (let x = e; x !== all[at]; x = x.parentElement) if (typeOf(x) !== undefined) chain.unshift(x);
  let path = [4, at], within = all[at];
  for (const x of chain) {
    const i = [...within.children].map(standsFor).filter((y) => y).indexOf(x);
    if (i < 0) {
      path = null;
      break;
    }
    path.push(typeOf(x), i);
    within = x;
  }
  // (the group of a page is the page)
  path?.splice(2, 2);
  const want = path ? "srclocation at " + path.join() : "";
  window.typstWebsocket.sent = [];
  e.dispatch("click", { clientX: 3, clientY: 4 });
  const sent = window.typstWebsocket.sent.join();
  if (sent !== want) return `a click on ${write(e)} sends ${sent} instead of ${want}: ${shown(el)}`;
  return null;
}

// One page of the document at a time.
async function slides(code, s, o) {
  fresh = 0;
  const document = install();
  errors.length = 0;
  console.error = (e) => errors.push(e?.stack ?? String(e));
  const el = document.createElement("div");
  const count = document.createElement("span");
  count.className = "typst-page-number-indicator";
  document.body.append(el, count);
  const renderer = new SvgRenderer(s);
  const state = { width: s.of([400, 300]), height: s.of([600, 200]), boundingRect: { left: 0, top: 0 } };
  const doc = new code.TypstDocument(el, renderer, {
    renderMode: code.RenderMode.Svg, previewMode: code.PreviewMode.Slide, sourceMapping: false,
    retrieveDOMState: () => structuredClone(state),
  });
  const zoom = new Zoom();
  // the page to be shown; unknown after a change that may have left it out
  let pages = null, updates = 0, page = 0, sure = true, turned = false;
  const goTo = (n) => {
    const last = renderer.pages.length;
    const ok = doc.setPartialPageNumber(n);
    o.show(`to page ${n}`);
    if (ok !== (n >= 1 && n <= last)) return `to page ${n} of ${last} is ${ok ? "accepted" : "refused"}`;
    if (ok) {
      page = n - 1;
      // (an update that has not arrived may have fewer pages)
      sure = page < pages.length;
      turned = true;
      if (doc.getPartialPageNumber() !== n) return `page ${doc.getPartialPageNumber()} after going to ${n}`;
    }
    return null;
  };
  const first = goTo(s.below(3));
  if (first) return first;
  for (let step = 0, steps = s.range(2, 6); step < steps; step++) {
    if (pages === null || s.chance(1, 2)) {
      pages = nodesOf(s, pages);
      for (const p of pages) p.content = full(p.node.kids);
      if (page >= pages.length) sure = false;
      const event = updates === 0 || s.chance(1, 8) ? "new" : "diff-v1";
      o.show(`${event}: ${pages.map((p) => `${p.width}x${p.height} ${p.content}`).join(" | ")}`);
      doc.addChangement([event, pages]);
      updates++;
    } else if (s.chance(2, 3)) {
      const bad = goTo(s.below(pages.length + 3));
      if (bad) return bad;
    } else if (s.chance(1, 2)) {
      for (let i = s.range(1, 3); i > 0; i--) zoom.turn(s, o, document);
    } else {
      state.width = s.of([400, 300]);
      state.height = s.of([600, 200]);
      o.show(`in ${state.width}x${state.height}`);
      doc.addViewportChange();
    }
    if (step + 1 < steps && s.chance(1, 2)) {
      const n = s.range(0, 8);
      o.show(`after ${n} timers:`);
      for (let i = 0; i < n; i++) await clock.step();
      o.label("in between");
      continue;
    }
    if (!(await settle(doc))) return "the preview does not come to rest";
    o.show("at rest");
    if (errors.length) return "error: " + errors[0];
    const now = doc.getPartialPageNumber() - 1;
    if (sure ? now !== page : !(now >= 0 && now < pages.length)) return `page ${now + 1} of ${pages.length} is shown instead of ${page + 1}`;
    page = now;
    sure = true;
    const p = pages[page], root = el.firstElementChild;
    const all = [...root.children].filter((c) => c.classList.contains("typst-page"));
    const filled = all.filter((c) => c.children.length);
    const node = renderer.sent[page];
    if (!node.real) return `page ${page + 1} was not rendered`;
    const g = all[page];
    const d = differs({ ...node, attrs: { ...node.attrs, transform: "translate(0, 0)" } }, g, "page " + page);
    if (d) return d + "\n" + shown(el);
    if (filled.some((c) => c !== g)) return `more is shown than page ${page + 1}: ${shown(el)}`;
    const rects = [...root.children].filter((c) => c.classList.contains("typst-page-inner"));
    const outer = [...root.children].filter((c) => c.classList.contains("typst-page-outer"));
    if (rects.length !== 1 || outer.length !== 1) return `${rects.length} and ${outer.length} rectangles: ${shown(el)}`;
    if (rects[0].getAttribute("width") !== String(Math.floor(p.width * 100)) || rects[0].getAttribute("height") !== String(Math.floor(p.height * 100))) return `a page of ${p.width}x${p.height} is on ${write(rects[0])}`;
    const box = (root.getAttribute("viewBox") ?? "").split(" ").map(Number);
    if (box.join() !== [0, 0, p.width, p.height].join()) return `viewBox ${box} for ${p.width}x${p.height}`;
    // it fits into the container, in the middle
    const fit = Math.min(state.width / p.width, state.height / p.height);
    const w = Number(root.getAttribute("width")), h = Number(root.getAttribute("height"));
    const z = zoom.is(w / (p.width * fit));
    if (z) return `${z}: shown in ${w}x${h} of ${state.width}x${state.height}, for ${p.width}x${p.height}`;
    if (Math.abs(h - (p.height * w) / p.width) > 1 + p.height / p.width) return `shown in ${w}x${h}, for ${p.width}x${p.height}`;
    const shift = `translate(${Math.max((state.width - w) / 2, 0)}px, ${Math.max((state.height - h) / 2, 0)}px)`;
    if (el.style.transform !== shift) return `the page is at ${el.style.transform} instead of ${shift}`;
    for (const c of ["hide-scrollbar-x", "hide-scrollbar-y"]) {
      if (el.classList.contains(c) !== (zoom.at === 0)) return `scroll bars on level ${zoom.at} of the scale: ${el.classList.value}`;
    }
    if (el.style.height) return `the container has the height ${el.style.height}`;
    if (count.textContent !== String(pages.length)) return `the number of pages is shown as ${count.textContent} instead of ${pages.length}`;
  }
  if (s.chance(1, 6)) {
    const turn = async (deltaY) => {
      for (let i = 0; i < 60; i++) document.body.dispatch("wheel", { ctrlKey: true, deltaY, pageX: 0, pageY: 0 });
      await settle(doc);
      const p = pages[page], fit = Math.min(state.width / p.width, state.height / p.height);
      return Number(el.firstElementChild.getAttribute("width")) / (p.width * fit);
    };
    o.show("the wheel is turned down and up to the ends");
    const low = await turn(1), high = await turn(-1);
    if (!(low > 0.09 && low < 0.3 && high > 5 && high < 10.1)) return `the scale goes from ${low} to ${high}`;
    o.label("to the ends");
  }
  // a preview that is given up does not answer any more
  const was = shown(el);
  doc.dispose();
  document.body.dispatch("wheel", { ctrlKey: true, deltaY: 1, pageX: 0, pageY: 0 });
  await settle(doc);
  if (shown(el) !== was) return `the wheel changes a preview that was given up: ${shown(el)} was ${was}`;
  o.nontrivial = updates > 1 && turned;
  return null;
}
