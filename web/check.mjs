// Checks of the web preview (C24).  `node web/check.mjs C24 [--replay file]`
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { createRequire } from "node:module";
import { fileURLToPath, pathToFileURL } from "node:url";
import { Worker, isMainThread, parentPort, workerData } from "node:worker_threads";
import { Src, once, shrink, seedOf, hash } from "./kit.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const root = path.dirname(here);
const PROPS = {
  C24: {
    module: "./preview.mjs",
    entry: "packages/typst-dom/src",
    rule: "the history has an update that reuses an element and one that is not the identity (views: the target reuses at least two elements of the origin)",
    assumptions: [
      "the document object model is web/dom.mjs, which follows the DOM standard for what the preview uses of it",
      "updates are what the renderer sends: elements named for reuse are equal, or come with their difference to the element that is named",
    ],
  },
  C27: {
    module: "./play.mjs",
    entry: "packages/mitex-web/src",
    rule: "at least two edits reach the page, and one of the texts is converted (copied: has a formula with a backtick or a quotation mark)",
    assumptions: [
      "vanjs and the compiler in the browser are stand-ins: states, derived states and bindings as the library documents them, and a compiler that answers in any order",
      "the conversion is the plugin's, built from the sources and run in node",
    ],
  },
  C29: {
    module: "./under.mjs",
    entry: "packages/mitex-web/src",
    rule: "the visits have an edit (jumps: more than one page; links: at least two moves that count)",
    assumptions: [
      "vanjs, CodeMirror, the git client, the file system of the browser and the compiler are stand-ins: they follow their documentation and get ready in any order",
      "the browser's boxes are those that the generated layout gives",
    ],
  },
};

// The sources of /repo's working tree as one module.
async function bundle(id) {
  const require = createRequire("/opt/veriftools/node/");
  const esbuild = require("esbuild");
  const src = path.join("/repo", PROPS[id].entry);
  const out = path.join(root, "target", "web", `${id}-${process.pid}.mjs`);
  fs.mkdirSync(path.dirname(out), { recursive: true });
  const contents = {
    C24: ["patch", "outline", "doc"].map((n) => `export * from "./typst-${n}.mjs";`).join("\n"),
    C27: `import "./main.ts";`,
    C29: `if (globalThis.wanted === "typst") require("./tools/typst.ts"); else require("./tools/underleaf.ts");`,
  }[id];
  // what is not part of the repository
  const stand = {
    "vanjs-core": "export default globalThis.van;",
    "mitex-wasm": "export const convert_math = (...a) => globalThis.convert_math(...a); export const convert_text = () => { throw 'not here' };",
    style: "", loader: "",
  };
  // (what comes from the page's own stand-ins)
  const given = (path) => `module.exports = globalThis.strangers[${JSON.stringify(path)}];`;
  const strangers = {
    name: "strangers",
    setup(build) {
      build.onResolve({ filter: /^(vanjs-core|mitex-wasm)$/ }, (a) => ({ path: a.path, namespace: "stand" }));
      build.onResolve({ filter: /\.css$/ }, () => ({ path: "style", namespace: "stand" }));
      build.onResolve({ filter: /loader\.mjs$/ }, () => ({ path: "loader", namespace: "stand" }));
      build.onResolve({ filter: /^(@codemirror|codemirror|@grammarly|@isomorphic-git|isomorphic-git|typst-dom\/typst-doc)/ }, (a) => ({ path: a.path + ".cjs", namespace: "given" }));
      build.onResolve({ filter: /^typst-dom\/typst-animation/ }, () => ({ path: "/repo/packages/typst-dom/src/typst-animation.mts" }));
      build.onLoad({ filter: /.*/, namespace: "stand" }, (a) => ({ contents: stand[a.path], loader: "js" }));
      build.onLoad({ filter: /.*/, namespace: "given" }, (a) => ({ contents: given(a.path.slice(0, -4)), loader: "js" }));
    },
  };
  await esbuild.build({
    stdin: { contents, resolveDir: src, loader: "ts" },
    bundle: true, format: id === "C24" ? "esm" : "iife", platform: "node", outfile: out, logLevel: "silent",
    external: ["@myriaddreamin/*"], plugins: [strangers],
  });
  return out;
}

async function subsOf(id, file) {
  // (a page is a script that is run once for each page)
  const code = id === "C24" ? await import(pathToFileURL(file)) : new vm.Script(fs.readFileSync(file, "utf8"));
  return (await import(PROPS[id].module)).default(code);
}

if (!isMainThread) {
  const { id, file, name, cases, tier } = workerData;
  quiet();
  const sub = (await subsOf(id, file)).find((s) => s.name === name);
  const seed = Number(process.env.VERIF_SEED ?? 1);
  const seen = new Set(), useful = new Set(), samples = [], classes = {};
  let fail = null, n = 0, nontrivial = 0;
  for (; n < cases && !fail; n++) {
    const r = await once(sub, new Src(seedOf(id, name, seed, n)));
    if (r.wrong) {
      fail = r;
      break;
    }
    const key = hash(r.o.text.join("\n"));
    seen.add(key);
    if (r.o.nontrivial) {
      nontrivial++;
      useful.add(key);
      if (samples.length < 3) samples.push({ sub: name, case: r.o.text.join("\n").slice(0, 1500) });
    }
    for (const l of r.o.labels) classes[`${name}:${l}`] = (classes[`${name}:${l}`] ?? 0) + 1;
  }
  if (fail) {
    const small = await shrink(sub, fail);
    fail = { property: id, sub: name, seed, tier, choices: small.taken, message: small.wrong, shown: small.o.text.join("\n") };
  }
  parentPort.postMessage({ name, n, nontrivial, seen: seen.size, useful: useful.size, samples, classes, fail });
} else {
  const id = process.argv[2];
  if (!PROPS[id]) {
    console.log("unknown check " + id);
    process.exit(3);
  }
  const began = Date.now();
  const tier = process.env.VERIF_TIER ?? "quick";
  let file;
  try {
    file = await bundle(id);
  } catch (e) {
    console.log("ERROR: the sources do not build: " + e.message);
    process.exit(3);
  }
  const done = (code) => {
    fs.rmSync(file, { force: true });
    process.exit(code);
  };
  const subs = await subsOf(id, file);
  const at = process.argv.indexOf("--replay");
  if (at > 0) {
    const r = JSON.parse(fs.readFileSync(process.argv[at + 1], "utf8"));
    const say = console.log;
    quiet();
    const now = await once(subs.find((s) => s.name === r.sub), new Src(0, r.choices));
    say(now.o.text.join("\n"));
    say(now.wrong ? `VIOLATION property=${id} replay=${process.argv[at + 1]}\n${now.wrong}` : "holds");
    done(now.wrong ? 1 : 0);
  }
  const scale = Number(process.env.VK_SCALE ?? 1);
  const only = process.env.VK_SUB;
  const runs = subs.filter((s) => !only || s.name === only).map((s) => new Promise((ok, no) => {
    const cases = Math.max(1, Math.round((tier === "thorough" ? s.thorough : s.quick) * scale));
    const w = new Worker(fileURLToPath(import.meta.url), { workerData: { id, file, name: s.name, cases, tier } });
    w.on("message", ok);
    w.on("error", no);
  }));
  let results;
  try {
    results = await Promise.all(runs);
  } catch (e) {
    console.log("ERROR: " + (e?.stack ?? e));
    done(3);
  }
  const failed = results.filter((r) => r.fail);
  for (const r of failed) {
    const name = `replays/${id}-${r.name}.json`;
    fs.writeFileSync(path.join(root, name), JSON.stringify(r.fail, null, 1));
    console.log(`VIOLATION property=${id} replay=${name}`);
    console.log(r.fail.shown.slice(0, 3000));
    console.log(r.fail.message.slice(0, 3000));
  }
  const total = (k) => results.reduce((a, r) => a + r[k], 0);
  fs.writeFileSync(path.join(root, "evidence", id + ".json"), JSON.stringify({
    property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: "exploration",
    coverage: {
      evaluations: total("n"), distinct: total("seen"), distinct_nontrivial: total("useful"), rule: PROPS[id].rule,
      samples: results.flatMap((r) => r.samples),
      per_check: Object.fromEntries(results.map((r) => [r.name, { cases: r.n, nontrivial: r.nontrivial }])),
      classes: Object.fromEntries(results.flatMap((r) => Object.entries(r.classes)).sort()),
    },
    assumptions: PROPS[id].assumptions, violations: failed.length, wall_s: (Date.now() - began) / 1000,
  }, null, 1));
  for (const r of results) console.log(`${r.name}: ${r.n} cases, ${r.nontrivial} non-trivial, ${r.useful} of them distinct`);
  done(failed.length ? 1 : 0);
}

function quiet() {
  for (const k of ["log", "warn", "error", "assert"]) console[k] = () => {};
}
