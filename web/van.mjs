// A stand-in for vanjs: states, derived states that follow them, and properties and children
// bound to them.  Derived states follow at once (`sync`) or together a little later; what the
// derivations throw goes to `failed`, or to the caller.
import { Element } from "./dom.mjs";

export function library({ sync = false, failed = null } = {}) {
  let tracking = null;
  const waiting = new Set();
  let planned = false;
  const plan = (job) => {
    waiting.add(job);
    if (planned) return;
    planned = true;
    Promise.resolve().then(() => {
      planned = false;
      const now = [...waiting];
      waiting.clear();
      now.forEach((f) => f());
    });
  };
  class State {
    constructor(v) {
      this.rawVal = v;
      this.oldVal = v;
      this.jobs = new Set();
    }
    get val() {
      tracking?.add(this);
      return this.rawVal;
    }
    set val(v) {
      if (v === this.rawVal) return;
      this.oldVal = this.rawVal;
      this.rawVal = v;
      for (const j of [...this.jobs]) {
        if (j.derives && sync) j();
        else plan(j);
      }
    }
  }
  // calls `use` with the value of `f`, now and after each change of what it read
  const follow = (f, use, derives) => {
    let deps = new Set(), last;
    const job = () => {
      for (const d of deps) d.jobs.delete(job);
      deps = new Set();
      const mine = deps;
      const outer = tracking;
      tracking = deps;
      let v = last;
      try {
        v = f();
      } catch (e) {
        if (!failed) throw e;
        failed(e);
      } finally {
        tracking = outer;
      }
      // (it may have been run again meanwhile)
      if (mine !== deps) return;
      last = v;
      for (const d of deps) d.jobs.add(job);
      use(v);
    };
    job.derives = derives;
    job();
  };
  const state = (v) => new State(v);
  const derive = (f) => {
    const s = new State(undefined);
    follow(f, (v) => (s.val = v), true);
    return s;
  };
  const tags = new Proxy({}, {
    get: (_, tag) => (...args) => {
      const el = document.createElement(tag);
      let props = {};
      if (args.length && Object.getPrototypeOf(args[0] ?? 0) === Object.prototype) props = args.shift();
      for (const [k, v] of Object.entries(props)) {
        const put = (x) => {
          if (k === "class") el.setAttribute("class", x);
          else el[k] = x;
        };
        if (v instanceof State) follow(() => v.val, put);
        else if (typeof v === "function" && !k.startsWith("on")) follow(v, put);
        else put(v);
      }
      add(el, ...args);
      return el;
    },
  });
  const add = (el, ...kids) => {
    for (const k of kids.flat(Infinity)) {
      if (k == null) continue;
      if (k instanceof State || typeof k === "function") {
        let shown = null;
        follow(k instanceof State ? () => k.val : () => k(shown ?? undefined), (v) => {
          const next = v instanceof Element ? v : document.createTextNode(String(v ?? ""));
          if (shown && next !== shown) shown.replaceWith(next);
          else if (!shown) el.append(next);
          shown = next;
        });
      } else el.append(k instanceof Element ? k : String(k));
    }
    return el;
  };
  return { state, derive, tags, add, val: (s) => s.val };
}
