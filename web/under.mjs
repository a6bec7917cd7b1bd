// C29: the document editor of the web pages keeps what is shown, compiled and stored the same,
// and follows the links of a document to their places.
import { install, clock, Element } from "./dom.mjs";
import { library } from "./van.mjs";

export default (code) => [
  { name: "files", quick: 4000, thorough: 60000, run: (s, o) => files(() => code.runInThisContext(), s, o) },
  { name: "jumps", quick: 6000, thorough: 200000, run: (s, o) => jumps(() => code.runInThisContext(), s, o) },
  { name: "links", quick: 4000, thorough: 150000, run: (s, o) => links(() => code.runInThisContext(), s, o) },
];

const rejected = [];
process.on("unhandledRejection", (e) => rejected.push(e?.stack ?? String(e)));

const dir = "/repo/fixtures/underleaf/ieee/";
const main = dir + "main.tex", styling = dir + "styling.typ";
const enc = (t) => new TextEncoder().encode(t);
const dec = (b) => new TextDecoder().decode(b);

// ---------------------------------------------------------------- the editor widget

// What the page uses of CodeMirror: a document, changes that refer to the document before
// them, and listeners that are told of each update.
function mirror() {
  class ChangeSet {
    constructor(parts, length) {
      this.parts = parts;
      this.length = length;
    }
    static empty(n) {
      return new ChangeSet([], n);
    }
    static of(spec, length) {
      const parts = [];
      const take = (c) => {
        if (Array.isArray(c)) c.forEach(take);
        else if (c instanceof ChangeSet) {
          if (c.length !== length) throw new RangeError(`Mismatched change set length (got ${c.length}, expected ${length})`);
          parts.push(...c.parts);
        } else {
          const { from, to = from, insert = "" } = c;
          if (!(from >= 0 && from <= to && to <= length)) throw new RangeError(`Invalid change range ${from} to ${to} (in doc of length ${length})`);
          const text = String(insert).replace(/\r\n?/g, "\n");
          if (from !== to || text) parts.push({ from, to, text });
        }
      };
      if (spec) take(spec);
      return new ChangeSet(parts, length);
    }
    get empty() {
      return this.parts.length === 0;
    }
    apply(doc) {
      let out = "", at = 0;
      for (const { from, to, text } of [...this.parts].sort((a, b) => a.from - b.from)) {
        if (from < at) throw new RangeError("overlapping changes");
        out += doc.slice(at, from) + text;
        at = to;
      }
      return out + doc.slice(at);
    }
  }
  class Doc {
    constructor(s) {
      this.s = s;
    }
    get length() {
      return this.s.length;
    }
    get lines() {
      return this.s.split("\n").length;
    }
    toString() {
      return this.s;
    }
    sliceString(a, b) {
      return this.s.slice(a, b);
    }
    eq(d) {
      return d.s === this.s;
    }
  }
  const flat = (e) => (Array.isArray(e) ? e.flatMap(flat) : e ? [e] : []);
  class EditorState {
    constructor(doc, extensions) {
      this.doc = new Doc(doc);
      this.extensions = extensions;
    }
    static create({ doc = "", extensions = [] } = {}) {
      return new EditorState(String(doc), flat(extensions));
    }
    sliceDoc(a = 0, b = this.doc.length) {
      return this.doc.sliceString(a, b);
    }
    update(...specs) {
      return { startState: this, specs };
    }
  }
  const facet = (kind) => ({ of: (value) => ({ kind, value }) });
  class EditorView {
    constructor({ state, doc, extensions, parent } = {}) {
      this.state = state ?? EditorState.create({ doc, extensions });
      this.dom = document.createElement("div");
      this.dom.className = "cm-editor";
      this.contentDOM = document.createElement("div");
      this.dom.append(this.contentDOM);
      parent?.append(this.dom);
      EditorView.last = this;
    }
    static lineWrapping = { kind: "wrapping" };
    static theme(v) {
      return { kind: "theme", value: v };
    }
    static updateListener = facet("listener");
    static contentAttributes = facet("attributes");
    static darkTheme = facet("dark");
    static editable = facet("editable");
    visibleRanges = [];
    dispatch(...given) {
      const specs = flat(given).flatMap((g) => g.specs ?? [g]);
      const startState = this.state;
      let text = startState.doc.s, changed = false;
      for (const spec of specs) {
        const changes = ChangeSet.of(spec.changes, text.length);
        changed ||= !changes.empty;
        text = changes.apply(text);
      }
      this.state = new EditorState(text, startState.extensions);
      const update = { view: this, state: this.state, startState, docChanged: changed, viewportChanged: changed, transactions: specs };
      for (const e of this.state.extensions) {
        if (e.kind !== "listener") continue;
        try {
          e.value(update);
        } catch (e) {
          rejected.push(e?.stack ?? String(e));
        }
      }
    }
    setState(state) {
      this.state = state;
    }
  }
  const set = { iterate() {} };
  const mark = { range: (from, to) => ({ from, to }) };
  return {
    "@codemirror/state": { ChangeSet, EditorState },
    "@codemirror/view": { EditorView, ViewPlugin: { define: () => ({ kind: "plugin" }) }, Decoration: { mark: () => mark, none: set, set: () => set } },
    "@codemirror/language": { syntaxHighlighting: () => ({}), defaultHighlightStyle: {}, StreamLanguage: { define: () => ({}) }, syntaxTree: () => set },
    "@codemirror/legacy-modes/mode/stex": { stex: {} },
    "@grammarly/editor-sdk": { init: () => new Promise(() => {}) },
  };
}

// ---------------------------------------------------------------- the page

// a moment that is chosen by the case
function gate() {
  let open;
  const at = new Promise((ok) => (open = ok));
  return { at, open: () => open(), then: undefined };
}

async function open(load, world, mode) {
  install();
  const app = document.createElement("div");
  app.id = "app";
  document.body.append(app);
  const page = { compiled: [], shadows: new Map(), saved: [], clicked: [], errors: [], docs: [], fails: false };
  page.script = gate();
  page.compiler = gate();
  page.fonts = gate();
  page.git = gate();
  page.reads = gate();
  globalThis.van = library({ ...mode, failed: (e) => page.errors.push(e?.stack ?? String(e)) });
  globalThis.strangers = {
    ...mirror(),
    "@isomorphic-git/lightning-fs": class {
        constructor() {
          const at = (p) => page.checkout && p.startsWith(dir) && world.git.get(p.slice(dir.length));
          this.promises = {
            async readdir(p) {
              await null;
              if (!page.checkout || p !== dir.slice(0, -1)) throw new Error("ENOENT " + p);
              if (mode.slow) await page.reads.at;
              return [...world.git.keys()];
            },
            async readFile(p) {
              await null;
              if (!at(p)) throw new Error("ENOENT " + p);
              if (mode.slow) await page.reads.at;
              return at(p);
            },
          };
        }
    },
    "isomorphic-git/index.umd.min": (() => {
      const git = {
        async fetch() {
          await page.git.at;
        },
        async clone() {
          await page.git.at;
        },
        async setConfig() {},
        async checkout() {
          page.checkout = true;
        },
        async pull() {
          await page.git.at;
        },
      };
      return git;
    })(),
    "isomorphic-git/http/web": { request() {} },
    "typst-dom/typst-doc.mjs": {
      PreviewMode: { Doc: 0, Slide: 1 },
      TypstDocument: class {
        constructor(elem, kernel) {
          this.elem = elem;
          this.kernel = kernel;
          this.changes = [];
          page.docs.push(this);
        }
        addChangement(c) {
          this.changes.push(c);
        }
        setPageColor(c) {
          this.color = c;
        }
        setPartialRendering(b) {
          this.partial = b;
        }
      },
    },
  };
  globalThis.localStorage = {
    getItem: (k) => (world.storage.has(k) ? world.storage.get(k) : null),
    setItem: (k, v) => void world.storage.set(k, String(v)),
    removeItem: (k) => void world.storage.delete(k),
  };
  globalThis.FileReader = class {
    readAsDataURL(blob) {
      blob.arrayBuffer().then((b) => {
        this.result = `data:${blob.type || "application/octet-stream"};base64,` + Buffer.from(b).toString("base64");
        this.onload?.({ target: this });
        this.onloadend?.({ target: this });
      });
    }
  };
  globalThis.fetch = async (url) => {
    const m = /^data:[^,]*;base64,(.*)$/.exec(url);
    if (!m) throw new Error("fetch of " + url);
    const bytes = Uint8Array.from(Buffer.from(m[1], "base64"));
    return { arrayBuffer: async () => bytes.buffer, bytes: async () => bytes };
  };
  // the browser's
  page.dark = world.dark;
  window.matchMedia = () => ({
    get matches() {
      return page.dark;
    },
    addEventListener(_, f) {
      page.darkens = f;
    },
  });
  const made = document.createElement.bind(document);
  document.createElement = (tag) => {
    const el = made(tag);
    if (tag === "a") el.click = () => page.clicked.push({ name: el.download, blob: page.blobs.get(el.href) });
    return el;
  };
  page.blobs = new Map();
  globalThis.URL.createObjectURL = (b) => {
    const name = "blob:" + page.blobs.size;
    page.blobs.set(name, b);
    return name;
  };
  globalThis.URL.revokeObjectURL = (n) => void page.blobs.delete(n);
  // the compiler: what it makes of its files
  const shot = ({ mainFilePath } = {}) => {
    const now = { main: mainFilePath, files: new Map(page.shadows) };
    if (page.fails) throw "cannot be compiled";
    return now;
  };
  const kernel = {
    mapShadow: (p, b) => {
      if (!(b instanceof Uint8Array)) throw new Error("no bytes for " + p);
      page.shadows.set(p, b.slice());
    },
    addSource: (p, t) => page.shadows.set(p, enc(t)),
    async compile(opts) {
      if (!opts.incrementalServer) throw new Error("no incremental server");
      const now = shot(opts);
      page.compiled.push(now);
      return now;
    },
    withIncrementalServer: (f) => f({ server: true }),
  };
  const typst = {
    async getCompiler() {
      await page.compiler.at;
      return kernel;
    },
    async mapShadow(p, b) {
      (await typst.getCompiler()).mapShadow(p, b);
    },
    async addSource(p, t) {
      (await typst.getCompiler()).addSource(p, t);
    },
    async getRenderer() {
      return { runWithSession: (f) => f({ session: true }) };
    },
    async svg(opts) {
      await typst.getCompiler();
      await page.fonts.at;
      return opts.mainContent !== undefined ? "<svg></svg>" : { svg: shot(opts), toString: () => "<svg>exported</svg>", opts };
    },
    async pdf(opts) {
      await typst.getCompiler();
      return { pdf: shot(opts) };
    },
  };
  window.$typst$script = page.script.at.then(() => {
    window.$typst = typst;
  });
  globalThis.Blob = Bytes;
  page.exports = [];
  typst.exported = page.exports;
  const { svg, pdf } = typst;
  typst.svg = async (o) => {
    const r = await svg(o);
    if (r.svg) page.exports.push(r.svg);
    return r.svg ? String(r) : r;
  };
  typst.pdf = async (o) => {
    const r = await pdf(o);
    page.exports.push(r.pdf);
    return enc("%PDF exported");
  };
  globalThis.wanted = "underleaf";
  load();
  page.view = globalThis.strangers["@codemirror/view"].EditorView.last;
  page.text = () => page.view.state.doc.toString();
  return page;
}

const Bytes = globalThis.Blob;

const words = ["x", "\\section{A}", "é", "\n", "$a^2$", " ", "1", "\\cite{b}", "日本", "%"];
const text = (s) => Array.from({ length: s.range(0, 5) }, () => s.of(words)).join("");
const names = ["main.tex", "main.typ", "refs.bib", "fig.png", "a.tex", "IEEEtran.typ", "z.txt", "Readme.md"];

async function rest() {
  for (let i = 0; i < 30; i++) await clock.idle();
}

async function files(load, s, o) {
  rejected.length = 0;
  const world = { storage: new Map(), git: new Map(), dark: s.chance(1, 3) };
  for (const n of names) {
    if (n === "main.tex" || n === "main.typ" || s.chance(1, 3)) {
      world.git.set(n, n.endsWith(".png") ? Uint8Array.from({ length: s.range(1, 5) }, () => s.of([0, 137, 255, 65, 128])) : enc(n + text(s)));
    }
  }
  o.show("git: " + [...world.git].map(([n, b]) => `${n} ${JSON.stringify(Buffer.from(b).toString("latin1"))}`).join(", "));
  let visits = s.range(1, 3), edits = 0, returned = false;
  // what the pages kept
  let kept = null;
  for (let visit = 0; visit < visits; visit++) {
    const mode = { sync: s.chance(2, 3), slow: s.chance(1, 2) };
    const page = await open(load, world, mode);
    o.show(`a page${world.dark ? " in the dark" : ""}${mode.sync ? "" : ", deferred"}${mode.slow ? ", slow" : ""}`);
    const steps = ["script", "compiler", "fonts", "git", ...(mode.slow ? ["reads"] : [])];
    // (some pages are left before all is there)
    const left = visit + 1 < visits && s.chance(1, 3) ? s.range(0, steps.length) : steps.length;
    const order = [...steps];
    for (let i = order.length - 1; i > 0; i--) {
      const j = i - s.below(i + 1);
      [order[i], order[j]] = [order[j], order[i]];
    }
    const opened = new Set();
    // what the text of the main file has to be, where that is known
    let want = kept === null ? null : kept.get(main) ?? null;
    let known = true, gotGit = false;
    const usable = () => ["script", "compiler"].every((k) => opened.has(k));
    const fromGit = () => usable() && opened.has("git") && (!mode.slow || opened.has("reads"));
    const ready = () => usable() && opened.has("fonts");
    const judge = async () => {
      await rest();
      if (rejected.length) return "error: " + rejected[0];
      if (page.errors.length) return "error: " + page.errors[0];
      const shown = page.text();
      // the files, as far as they are known
      const all = new Map(kept ?? []);
      if (fromGit()) for (const [n, b] of world.git) all.set(dir + n, b);
      if (want !== null && usable()) all.set(main, want);
      if (usable() && all.size) {
        if (known && want !== null && shown !== dec(want)) return `the editor shows ${JSON.stringify(shown)} instead of ${JSON.stringify(dec(want))}`;
        if (!known) {
          want = enc(shown);
          known = true;
          all.set(main, want);
        }
        for (const [p, b] of all) {
          const has = page.shadows.get(p);
          if (!has || !same(has, b)) return `the compiler has ${say(has)} for ${p} instead of ${say(b)}`;
        }
        const stored = readStored(world);
        if (stored === null) return "what is stored cannot be read";
        for (const [p, b] of all) if (!stored.has(p) || !same(stored.get(p), b)) return `for ${p} ${say(stored.get(p))} is stored instead of ${say(b)}`;
        for (const p of stored.keys()) if (!all.has(p)) return `${p} is stored`;
        const list = document.querySelector(".mitex-dir-view");
        const listed = list.textContent.replace(/\s+/g, "");
        const names = [...all.keys()].map((p) => p.slice(dir.length)).filter((n) => !n.endsWith(".typ")).sort((a, b) => a.localeCompare(b));
        if (listed !== names.join("")) return `the files ${listed} are listed instead of ${names.join("")}`;
      }
      if (ready() && all.has(main)) {
        const doc = page.docs[0];
        if (page.docs.length !== 1) return `${page.docs.length} documents`;
        if (page.fails) {
          if (document.querySelector(".error").textContent !== "cannot be compiled") return "the error is " + document.querySelector(".error").textContent;
        } else {
          if (document.querySelector(".error").textContent !== "") return "the error is " + document.querySelector(".error").textContent;
          const last = doc.changes.at(-1);
          if (!last) return "nothing was compiled";
          if (last[0] !== "diff-v1") return "the change is " + last[0];
          if (last[1].main !== dir + "main.typ") return last[1].main + " was compiled";
          for (const [p, b] of all) if (!same(last[1].files.get(p), b)) return `the preview is made of ${say(last[1].files.get(p))} for ${p} instead of ${say(b)}`;
          const theme = dec(last[1].files.get(styling) ?? new Uint8Array());
          if (theme !== `#let prefer-theme = "${page.dark ? "dark" : "light"}";`) return `the styling is ${theme} in the ${page.dark ? "dark" : "light"}`;
        }
        if (doc.color !== (page.dark ? "#242424" : "white")) return `the pages are ${doc.color}`;
      }
      return null;
    };
    const step = async (k) => {
      o.show("there is the " + k);
      const before = fromGit();
      opened.add(k);
      page[k].open();
      if (!before && fromGit()) {
        gotGit = true;
        // (what is stored and what is fetched arriving at once may come in either order)
        want = world.git.get("main.tex");
      }
    };
    for (const k of order.slice(0, left)) {
      const wasUsable = usable();
      await step(k);
      const both = !wasUsable && usable() && fromGit() && kept?.has(main);
      if (both) {
        known = false;
        o.label("stored and fetched at once");
      } else if (fromGit() && gotGit) known = true;
      gotGit = false;
      if (s.chance(2, 3)) {
        const r = await judge();
        if (r) return r;
        // an edit of what is shown
        if (s.chance(1, 2) && usable() && (want !== null || page.shadows.has(main))) {
          const r = await edit();
          if (r) return r;
        }
      } else if (!fromGit()) {
        await rest();
      }
    }
    async function edit(some) {
      const now = page.text();
      const from = s.range(0, now.length), to = s.range(from, now.length), insert = text(s) + (some ? "x" : "");
      o.show(`edit ${from}-${to} ${JSON.stringify(insert)}`);
      page.view.dispatch({ changes: { from, to, insert } });
      want = enc(now.slice(0, from) + insert + now.slice(to));
      known = true;
      edits++;
      if (s.chance(1, 3)) {
        const now = dec(want);
        const insert = text(s);
        page.view.dispatch({ changes: { from: now.length, insert } });
        want = enc(now + insert);
      }
      return judge();
    }
    await rest();
    {
      const r = await judge();
      if (r) return r;
    }
    for (let n = s.below(5); n > 0 && left === steps.length; n--) {
      switch (s.below(5)) {
        case 0: case 1: {
          const r = await edit();
          if (r) return r;
          break;
        }
        case 2:
          page.dark = !page.dark;
          o.show(page.dark ? "it gets dark" : "it gets light");
          page.darkens?.({ matches: page.dark });
          break;
        case 3: {
          page.fails = !page.fails;
          o.show(page.fails ? "it cannot be compiled" : "it can be compiled");
          const r = await edit(true);
          if (r) return r;
          break;
        }
        case 4: {
          if (page.fails) break;
          const html = s.chance(1, 2);
          o.show("export " + (html ? "HTML" : "PDF"));
          await rest();
          page.clicked = [];
          page.exports.length = 0;
          const b = document.querySelectorAll("button").find((b) => (b.textContent || "").includes(html ? "HTML" : "PDF"));
          b.onclick?.({});
          b.dispatch("click");
          await rest();
          if (page.clicked.length !== 1) return `${page.clicked.length} files were offered`;
          const { name, blob } = page.clicked[0];
          if (!blob) return "what is offered is gone";
          if (!name.endsWith(html ? ".html" : ".pdf")) return "it is named " + name;
          if (blob.type !== (html ? "text/html" : "application/pdf")) return "its type is " + blob.type;
          const body = Buffer.from(await blob.arrayBuffer()).toString();
          if (html ? !body.includes("<svg>exported</svg>") : body !== "%PDF exported") return "its contents are " + body;
          if (page.exports.length !== 1) return `${page.exports.length} exports`;
          const e = page.exports[0];
          if (e.main !== dir + "main.typ") return e.main + " was exported";
          if (!same(e.files.get(main), want ?? world.git.get("main.tex"))) return `exported is ${say(e.files.get(main))}`;
          if (dec(e.files.get(styling) ?? new Uint8Array()) !== `#let prefer-theme = "light";`) return "it is exported in the dark";
          // (the styling stays so until something is compiled)
          const r = await edit(true);
          if (r) return r;
          break;
        }
      }
      if (s.chance(1, 2)) {
        const r = await judge();
        if (r) return r;
      }
    }
    const r = await judge();
    if (r) return r;
    kept = readStored(world);
    if (kept && kept.size === 0) kept = null;
    if (visit && kept?.has(main)) returned = true;
  }
  if (returned) o.label("came back");
  o.nontrivial = edits >= 1;
  return null;
}

const same = (a, b) => !!a && !!b && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
const say = (b) => (b ? JSON.stringify(Buffer.from(b).toString("latin1")) : "nothing");
// the files that are stored, in whatever form the page reads again (here: that of the pages so far)
function readStored(world) {
  try {
    const out = new Map();
    for (const f of JSON.parse(world.storage.get("fsState") ?? "[]")) out.set(f.path, Uint8Array.from(Buffer.from(f.data.slice(f.data.indexOf(",") + 1), "base64")));
    return out;
  } catch {
    return null;
  }
}

// ---------------------------------------------------------------- places in the document

const rectOf = (el, left, top, width, height) => {
  el.getBoundingClientRect = () => ({ left, top, width, height, right: left + width, bottom: top + height, x: left, y: top });
  return el;
};

async function jumps(load, s, o) {
  install();
  globalThis.strangers = {};
  globalThis.wanted = "typst";
  load();
  const W = s.range(200, 3000), H = s.range(100, 2000);
  window.innerWidth = W;
  window.innerHeight = H;
  const scrolls = [];
  window.scrollTo = (a, b) => scrolls.push(typeof a === "object" ? a : { left: a, top: b });
  const bx = -s.range(0, 3000), by = -s.range(0, 30000);
  rectOf(document.body, bx, by, 4000, 40000);
  const canvas = s.chance(1, 2);
  const n = s.range(1, s.chance(1, 8) ? 120 : 5);
  const page = s.range(1, n + (s.chance(1, 8) ? 1 : 0));
  const w = s.range(50, 1000), h = s.range(50, 1000);
  const x = s.range(0, w * 10) / 10, y = s.range(0, h * 10) / 10;
  o.show(`window ${W} ${H}, scrolled ${-bx} ${-by}, ${canvas ? "canvas" : "svg"}, ${n} pages, to page ${page} at ${x} ${y}`);
  const root = document.createElement(canvas ? "div" : "svg");
  root.setAttribute("class", "typst-doc");
  document.body.append(root);
  const pages = [];
  let docX, docY, pageLeft, pageWidth;
  const scale = s.of([0.5, 1, 1.5, 2, 0.37, 3]);
  const rx = bx + s.range(-100, 1000), ry = by + s.range(0, 5000);
  if (canvas) {
    root.setAttribute("data-render-mode", "canvas");
    const order = Array.from({ length: n }, (_, i) => i);
    if (s.chance(1, 4)) order.reverse();
    let top = ry;
    for (const i of order) {
      const pw = i === page - 1 ? w : s.range(50, 1000), ph = i === page - 1 ? h : s.range(50, 1000);
      const applied = s.of([1, 0.5, 2, 0.25]);
      const outer = document.createElement("div");
      outer.setAttribute("class", "typst-page canvas-mode");
      outer.setAttribute("data-page-number", i);
      const inner = document.createElement("div");
      inner.setAttribute("data-page-width", pw);
      inner.setAttribute("data-page-height", ph);
      if (applied !== 1 || s.chance(1, 2)) inner.setAttribute("data-applied-scale", applied);
      // (the box is as large as the page on the screen, and scaled once more)
      rectOf(inner, rx, top, pw * scale * applied, ph * scale * applied);
      outer.append(inner, document.createElement("div"));
      o.show(`page ${i + 1}: ${pw} ${ph} at ${rx} ${top}, scale ${scale}, applied ${applied}`);
      root.append(outer);
      pages[i] = inner;
      if (i === page - 1) {
        docX = rx + x * scale - bx;
        docY = top + y * scale - by;
        pageLeft = rx - bx;
        pageWidth = pw * scale;
      }
      top += ph * scale + s.range(0, 30);
    }
  } else {
    const widths = Array.from({ length: n }, (_, i) => [i === page - 1 ? w : s.range(50, 1000), i === page - 1 ? h : s.range(50, 1000)]);
    const total = widths.reduce((a, [, h]) => a + h, 0), wide = Math.max(...widths.map(([w]) => w));
    root.setAttribute("data-width", wide);
    root.setAttribute("data-height", total);
    rectOf(root, rx, ry, wide * scale, total * scale);
    let top = 0;
    for (let i = 0; i < n; i++) {
      while (s.chance(1, 4)) root.append(document.createElement(s.of(["style", "defs", "script", "rect"])));
      const g = document.createElement("g");
      g.setAttribute("class", "typst-page");
      const e = s.chance(1, 2) ? (wide - widths[i][0]) / 2 : 0;
      const f = i ? top : 0;
      const none = e === 0 && f === 0 && s.chance(1, 2);
      g.transform = { baseVal: { consolidate: () => (none ? null : { matrix: { a: 1, b: 0, c: 0, d: 1, e, f } }) } };
      rectOf(g, rx + e * scale, ry + f * scale, widths[i][0] * scale, widths[i][1] * scale);
      o.show(`page ${i + 1}: ${widths[i]} at ${e} ${f} of ${rx} ${ry}, scale ${scale}`);
      root.append(g);
      pages[i] = g;
      if (i === page - 1) {
        docX = rx + (e + x) * scale - bx;
        docY = ry + (f + y) * scale - by;
        pageLeft = rx + e * scale - bx;
        pageWidth = widths[i][0] * scale;
      }
      top += widths[i][1];
    }
  }
  let from = s.chance(1, 6) ? root : pages[s.below(n)];
  if (from !== root && s.chance(1, 2)) {
    const link = document.createElement("a");
    from.append(link);
    from = link;
  }
  const outside = s.chance(1, 20);
  if (outside) {
    from = document.createElement("a");
    document.body.append(from);
    o.show("a link that is not in a document");
  }
  const before = document.body.childElementCount;
  window.handleTypstLocation(from, page, x, y);
  if (outside || page > n) {
    if (scrolls.length || document.body.childElementCount !== before) return "something happens";
    return null;
  }
  const share = (100 * W) / pageWidth;
  if (Math.abs(share - 90) < 1e-6 || Math.abs(share - 50) < 1e-6) return null;
  const columns = share >= 50 && share < 90;
  let left = docX - 0.07 * W;
  if (columns) {
    const right = pageLeft + pageWidth - 0.95 * W;
    if (Math.abs(left - right) < 1e-6) return null;
    left = left > right ? right : pageLeft - 0.05 * W;
  }
  const top = docY - 0.382 * H;
  if (scrolls.length !== 1) return `scrolled ${scrolls.length} times`;
  const near = (a, b) => Math.abs(a - b) < 1e-6 * (1 + Math.abs(b));
  if (!near(scrolls[0].left, left) || !near(scrolls[0].top, top)) return `scrolled to ${scrolls[0].left} ${scrolls[0].top} instead of ${left} ${top}`;
  const ripples = document.querySelectorAll(".typst-jump-ripple");
  if (ripples.length !== 1) return `${ripples.length} ripples`;
  const at = ["left", "top"].map((k) => Number.parseFloat(ripples[0].style.getPropertyValue(k)));
  if (!near(at[0], docX) || !near(at[1], docY)) return `the ripple is at ${at} instead of ${docX} ${docY}`;
  ripples[0].onanimationend?.({});
  ripples[0].dispatch("animationend");
  if (document.querySelectorAll(".typst-jump-ripple").length) return "the ripple stays";
  o.label(canvas ? "canvas" : "svg");
  if (columns) o.label("columns");
  o.nontrivial = n > 1;
  return null;
}

// What lies at the place of a link is marked while the mouse is over the link.
async function links(load, s, o) {
  install();
  globalThis.strangers = {};
  globalThis.wanted = "typst";
  let now = 1.7e12 + s.range(0, 1e9);
  const RealDate = Date;
  globalThis.Date = class extends RealDate {
    constructor(...a) {
      super(...(a.length ? a : [now]));
    }
    static now() {
      return now;
    }
  };
  globalThis.performance.now = () => now;
  try {
    load();
    const svg = document.createElement("svg");
    document.body.append(svg);
    const all = [];
    for (let g = s.range(1, 3); g > 0; g--) {
      const group = document.createElement("g");
      // groups within groups, with items of their own
      const outer = s.chance(1, 3) && document.createElement("g");
      if (outer) outer.setAttribute("class", "typst-group");
      (outer || svg).append(group);
      if (outer) svg.append(outer);
      group.setAttribute("class", outer || s.chance(7, 8) ? "typst-group" : "other");
      const places = Array.from({ length: s.range(1, 3) }, (_, i) => ({ left: i * 1000 + s.range(0, 50), top: s.range(0, 50), ...s.of([{ width: s.range(100, 300), height: s.range(20, 60) }, { width: s.range(20, 60), height: s.range(100, 300) }]) }));
      const kids = [];
      for (const p of places) {
        const put = (tag, cls, dx, dy, fx, fy) => {
          const el = document.createElement(tag);
          el.setAttribute("class", cls);
          el.place = p;
          rectOf(el, p.left + dx * p.width, p.top + dy * p.height, p.width * fx, p.height * fy);
          kids.push(el);
          return el;
        };
        // at the place, next to it, and much larger
        for (let i = s.range(0, 3); i > 0; i--) put("g", "typst-text", s.range(-10, 10) / 100, s.range(-10, 10) / 100, s.range(95, 105) / 100, s.range(95, 105) / 100).near = true;
        // to its side, above or below, or of a part of its size
        for (let i = s.range(0, 2); i > 0; i--) put("g", "typst-text", ...s.of([[0.5, 0, 1, 1], [-0.5, 0, 1, 1], [0, 0.5, 1, 1], [0, -0.5, 1, 1], [0.3, 0, 0.4, 1], [0, 0.3, 1, 0.4], [-1, 0, 3, 1], [0, -1, 1, 3]])).near = false;
        for (let i = s.range(0, 2); i > 0; i--) put("g", "typst-text", s.of([-1.5, 1.5, 0, 0]), s.of([2, -2]), 1, 1).near = false;
        if (s.chance(1, 3)) put("g", "typst-shape", -1, -1, 3, 3).near = false;
        if (outer && s.chance(1, 2)) {
          const stranger = put("g", "typst-text", 0, 0, 1, 1);
          stranger.near = false;
          kids.pop();
          stranger.group = outer;
          outer.append(stranger);
          all.push(stranger);
        }
        if (s.chance(3, 4)) {
          const link = put("a", "pseudo-link", 0, 0, 1, 1);
          link.near = true;
          link.link = true;
        }
      }
      for (let i = kids.length - 1; i > 0; i--) {
        const j = i - s.below(i + 1);
        [kids[i], kids[j]] = [kids[j], kids[i]];
      }
      group.append(...kids);
      for (const k of kids) {
        k.group = group;
        all.push(k);
      }
    }
    const targets = all.filter((e) => e.link);
    if (!targets.length) return null;
    window.initTypstSvg(svg);
    o.show(all.map((e) => `${e.link ? "link" : e.near ? "near" : "far"} of ${targets.findIndex((t) => t.place === e.place && e.near)}`).join(", "));
    const mates = (t) => (t.group.getAttribute("class") === "typst-group" ? all.filter((e) => e.group === t.group && e.place === t.place && e.near) : []);
    const marked = new Set();
    let last = -Infinity, on = null, moves = 0;
    for (let n = s.range(1, 8); n > 0; n--) {
      let counts = false;
      if (!on || s.chance(1, 2)) {
        if (!on) on = s.of(targets);
        now += s.of([0, 1, 50, 199, 201, 300, 5000]);
        o.show(`at ${now} over ${targets.indexOf(on)}`);
        on.dispatch("mousemove");
        if (now - last > 200) {
          last = now;
          counts = true;
          for (const m of mates(on)) marked.add(m);
          moves++;
        }
      } else {
        o.show(`leaves ${targets.indexOf(on)}`);
        on.dispatch("mouseleave");
        for (const m of mates(on)) marked.delete(m);
        on = null;
      }
      for (const e of all) {
        // (a link moved over within a fifth of a second of another may be marked or not)
        if (on && mates(on).includes(e)) {
          if (counts && !e.classList.contains("hover")) return "what is at the place of the link is not marked";
          continue;
        }
        if (e.classList.contains("hover")) return "something is marked that is not at the place of the link under the mouse";
      }
    }
    o.nontrivial = moves > 1;
    return null;
  } finally {
    globalThis.Date = RealDate;
  }
}
