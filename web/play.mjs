// C27: the playground shows and offers the conversion of what is typed.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { spawnSync } from "node:child_process";
import { install, clock } from "./dom.mjs";
import { library } from "./van.mjs";

export default (code) => [
  { name: "edits", quick: 4000, thorough: 100000, run: (s, o) => edits(() => code.runInThisContext(), s, o) },
  { name: "copied", quick: 24, thorough: 400, run: (s, o) => copied(() => code.runInThisContext(), s, o) },
];

const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)));

// ---------------------------------------------------------------- the plugin

let plugin = null;
function convert(text) {
  if (!plugin) {
    const host = { args: [], out: null };
    const mod = new WebAssembly.Module(fs.readFileSync(path.join(root, "target/package/mitex.wasm")));
    const memory = () => new Uint8Array(host.instance.exports.memory.buffer);
    host.instance = new WebAssembly.Instance(mod, {
      typst_env: {
        wasm_minimal_protocol_write_args_to_buffer(at) {
          for (const a of host.args) {
            memory().set(a, at);
            at += a.length;
          }
        },
        wasm_minimal_protocol_send_result_to_host(at, len) {
          host.out = memory().slice(at, at + len);
        },
      },
    });
    plugin = host;
  }
  const bytes = new TextEncoder().encode(text);
  plugin.args = [bytes, new Uint8Array()];
  const code = plugin.instance.exports.convert_math(bytes.length, 0);
  const out = new TextDecoder().decode(plugin.out);
  if (code) throw out;
  return out;
}

// ---------------------------------------------------------------- the page

const rejected = [];
process.on("unhandledRejection", (e) => rejected.push(e?.stack ?? String(e)));

async function open(load, s) {
  install();
  const app = document.createElement("div");
  app.id = "app";
  document.body.append(app);
  const page = { asked: [], clipboard: null };
  globalThis.van = library();
  globalThis.convert_math = (text, spec) => {
    if (!(spec instanceof Uint8Array) || spec.length) throw new Error("a specification?");
    return convert(text);
  };
  Object.defineProperty(globalThis, "navigator", { configurable: true, value: { clipboard: { writeText: (t) => (page.clipboard = t) } } });
  window.matchMedia = () => ({ matches: page.dark, addEventListener() {} });
  page.dark = s.chance(1, 4);
  // the compiler is loaded at any time, and answers in any order
  const compiler = {
    svg: ({ mainContent }) => new Promise((ok) => page.asked.push({ mainContent, answer: () => ok(`<svg><text>${page.asked.findIndex((a) => a.mainContent === mainContent)}</text></svg>`) })),
  };
  let loaded;
  window.$typst$script = new Promise((ok) => (loaded = ok)).then(() => {});
  if (s.chance(1, 3)) window.$typst = compiler;
  page.load = () => {
    window.$typst = compiler;
    loaded();
  };
  load();
  page.input = document.querySelector(".mitex-input");
  page.output = document.querySelector(".mitex-output");
  page.error = document.querySelector(".error");
  page.shown = document.querySelector(".mitex-preview");
  page.buttons = document.querySelectorAll("button");
  page.type = (text) => {
    page.input.value = text;
    page.input.oninput?.({ target: page.input });
    page.input.dispatch("input");
  };
  page.copy = (i) => {
    page.clipboard = null;
    page.buttons[i].onclick?.({});
    page.buttons[i].dispatch("click");
    return page.clipboard;
  };
  return page;
}

const words = ["x", "a b", "\\alpha ", "`", "``", "'", "\"", "\\text{a`b}", "\\text{say ``so''}", "\\text{\"}", "\\\\", "^2", "_i", "1", ",", "{y}", "\\frac{a}{b}", "\\sqrt{`}", "\\%", "\\{", "\\#", "\\$", "\\text{\\textbackslash}", "\n", "é", "\\mathbb{R}", "\\begin{pmatrix}1&2\\\\3&`\\end{pmatrix}", "/", "\\text{it's}"];
const formula = (s) => Array.from({ length: s.range(0, 6) }, () => s.of(words)).join("").replace(/^\s*[\^_]/, "x$&").replace(/[\^_](2|i)(?:[\^_](2|i))+/g, "^$1");
const broken = ["{", "}", "\\nothinglikethis", "\\begin{pmatrix}", "\\frac{a}{b", "\\left("];

// Edits and answers of the compiler at any moment.
async function edits(load, s, o) {
  rejected.length = 0;
  const page = await open(load, s);
  const typed = [page.input.value];
  o.show(page.dark ? "dark" : "light");
  let loaded = false, converted = false, edited = 0, late = false;
  const rest = async () => {
    for (let i = 0; i < 6; i++) await clock.idle();
    if (rejected.length) return "error: " + rejected[0];
    let want = "", wrong = null;
    try {
      want = convert(typed.at(-1));
    } catch (e) {
      wrong = e;
    }
    if (page.output.value !== want) return `for ${JSON.stringify(typed.at(-1))} the output is ${page.output.value} instead of ${want}`;
    if (wrong === null ? page.error.textContent !== "" : page.error.textContent !== wrong) return `for ${JSON.stringify(typed.at(-1))} the error is ${page.error.textContent} instead of ${wrong}`;
    if (want) converted = true;
    return null;
  };
  for (let step = 0, steps = s.range(2, 8); step < steps; step++) {
    switch (s.below(5)) {
      case 0: case 1: {
        const text = s.chance(1, 5) ? s.of(broken) : formula(s);
        o.show("type " + JSON.stringify(text));
        typed.push(text);
        page.type(text);
        edited++;
        break;
      }
      case 2:
        if (!loaded) {
          o.show("the compiler is there");
          loaded = true;
          page.load();
        }
        break;
      case 3: {
        const open = page.asked.filter((a) => !a.done);
        if (open.length) {
          const a = s.of(open);
          if (a !== open[0]) late = true;
          a.done = true;
          o.show(`answer ${page.asked.indexOf(a)}`);
          a.answer();
        }
        break;
      }
      case 4: {
        const r = await rest();
        if (r) return r;
        break;
      }
    }
    if (s.chance(1, 2)) await clock.idle();
  }
  if (!loaded) page.load();
  // everything is answered, the last first or the first first
  const backwards = s.chance(1, 2);
  for (let i = 0; i < 40; i++) {
    const r = await rest();
    if (r) return r;
    const open = page.asked.filter((a) => !a.done);
    if (!open.length) break;
    const a = backwards ? open.at(-1) : open[0];
    if (a !== open[0]) late = true;
    a.done = true;
    a.answer();
  }
  if (page.asked.length < 2) return "the preview was not compiled";
  if (late) o.label("answers out of order");
  o.nontrivial = edited >= 2 && converted;
  // what is shown is the document of the last text
  const out = page.output.value;
  const svg = page.shown.querySelector("svg");
  if (!svg) return `the preview shows ${page.shown.innerHTML}`;
  const shown = page.asked[Number(svg.textContent)].mainContent;
  const before = page.asked.length;
  // the same text typed into a new page gives the same document
  const want = await (async () => {
    const again = await open(load, { chance: (a, b) => b === 4 && page.dark });
    again.type(typed.at(-1));
    for (let i = 0; i < 4; i++) await clock.idle();
    again.load();
    for (let n = 0; n < 10; n++) {
      for (let i = 0; i < 4; i++) await clock.idle();
      const next = again.asked.find((a) => !a.done);
      if (!next) break;
      next.done = true;
      next.answer();
    }
    return again.asked.at(-1).mainContent;
  })();
  if (shown !== want) return `for ${JSON.stringify(typed.at(-1))} (${out}) the preview shows the document\n${shown}\ninstead of\n${want}\n(${before} were compiled)`;
  return null;
}

const lit = (t) => `"${t.replace(/["\\]/g, "\\$&").replace(/\n/g, "\\n")}"`;

// The code that is offered, run by the Typst compiler.
async function copied(load, s, o) {
  const texts = [];
  const page = await open(load, { chance: () => false });
  page.load();
  for (let i = 0; i < 4; i++) await clock.idle();
  page.asked[0].answer();
  const parts = [];
  for (let n = s.range(1, 30); n > 0; n--) {
    const text = formula(s);
    o.show(JSON.stringify(text));
    page.type(text);
    for (let i = 0; i < 6; i++) await clock.idle();
    if (/[`"]/.test(text)) o.nontrivial = true;
    const main = page.asked.at(-1).mainContent;
    page.asked.at(-1).answer();
    for (let i = 0; i < 3; i++) await clock.idle();
    const all = [page.copy(0), page.copy(1), main];
    if (all.some((c) => typeof c !== "string")) return "nothing was copied";
    const want = `math.equation(eval("$" + ${lit(convert(text))} + "$", mode: "markup", scope: mitex-scope), block: true)`;
    parts.push({ text, all, want });
  }
  // (an unclosed raw text of one part would take in the next)
  const code = parts.map((p, i) => `#judge(${i}, ${p.want}, ${p.all.map(lit).join(", ")})`).join("\n");
  const source = `#import "@preview/mitex:0.2.7": *
#let equations(c) = if type(c) != content { () } else if c.func() == math.equation { (c,) } else if c.has("children") { c.children.map(equations).flatten() } else if c.has("child") { equations(c.child) } else { () }
#let judge(i, want, ..codes) = for (k, code) in codes.pos().enumerate() {
  let got = equations(eval(code, mode: "markup", scope: dictionary(std) + (mitex-scope: mitex-scope)))
  if got.len() != 1 or got.first() != want [#metadata((i, k, repr(got), repr(want))) <x>]
}
${code}
`;
  const run = (src) => spawnSync("typst", ["query", "--root", "/", "--package-path", packages(), "-", "<x>", "--field", "value"], { input: src, encoding: "utf8" });
  const r = run(source);
  if (r.error) throw r.error;
  if (r.status !== 0) return "typst: " + r.stderr.slice(0, 1500) + "\n" + parts.map((p) => p.all[0]).join("\n");
  const bad = JSON.parse(r.stdout);
  if (bad.length) {
    const [i, k, got, want] = bad[0];
    return `for ${JSON.stringify(parts[i].text)} the code\n${parts[i].all[k]}\nshows ${got} instead of ${want}`;
  }
  return null;
}

// target/package as the package that the code imports
function packages() {
  const dir = path.join(root, "target/packages");
  const at = path.join(dir, "preview/mitex/0.2.7");
  if (!fs.existsSync(at)) {
    fs.mkdirSync(path.dirname(at), { recursive: true });
    try {
      fs.symlinkSync(path.join(root, "target/package"), at);
    } catch {
      // another worker was faster
    }
  }
  return dir;
}
