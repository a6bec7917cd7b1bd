// Choice sequences, shrinking and reporting.

const { setTimeout, clearTimeout } = globalThis;

export class Src {
  constructor(seed, given) {
    this.given = given;
    this.taken = [];
    let a = seed | 0;
    this.raw = () => {
      a = (a + 0x6d2b79f5) | 0;
      let t = Math.imul(a ^ (a >>> 15), 1 | a);
      t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
      return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
    };
  }
  below(n) {
    if (n <= 1) return 0;
    let v;
    if (this.given) v = Math.min(this.given[this.taken.length] ?? 0, n - 1);
    else v = Math.floor(this.raw() * n);
    this.taken.push(v);
    return v;
  }
  // true with chance a/b; what is shrunk becomes false
  chance(a, b) {
    return this.below(b) >= b - a;
  }
  range(lo, hi) {
    return lo + this.below(hi - lo + 1);
  }
  of(list) {
    return list[this.below(list.length)];
  }
  // small numbers are likelier
  small(max) {
    return Math.min(this.below(max + 1), this.below(max + 1));
  }
}

export function hash(s) {
  let a = 0x811c9dc5, b = 0x1234567;
  for (let i = 0; i < s.length; i++) {
    a = Math.imul(a ^ s.charCodeAt(i), 0x01000193);
    b = Math.imul(b ^ s.charCodeAt(i), 0x85ebca6b) + i;
  }
  return (a >>> 0).toString(36) + (b >>> 0).toString(36);
}

export function seedOf(...parts) {
  let h = 0x9e3779b9;
  for (const c of parts.join("/")) h = Math.imul(h ^ c.charCodeAt(0), 0x01000193) + 0x7f4a7c15;
  return h | 0;
}

// One case: the choices, what they stand for, and what was wrong with them.
export async function once(sub, src) {
  const o = { text: [], labels: new Set(), nontrivial: false, show(s) { this.text.push(s); }, label(l) { this.labels.add(l); } };
  let wrong = null;
  let timer;
  try {
    const late = new Promise((_, no) => (timer = setTimeout(() => no(new Error("no answer after 20 s")), 20000)));
    wrong = (await Promise.race([sub.run(src, o), late])) ?? null;
  } catch (e) {
    wrong = "threw " + (e?.stack ?? String(e)).split("\n").slice(0, 3).join(" | ");
  } finally {
    clearTimeout(timer);
  }
  return { taken: src.taken, o, wrong };
}

export async function shrink(sub, first) {
  let best = first;
  let left = 1500;
  const until = Date.now() + 40000;
  const attempt = async (given) => {
    if (left-- <= 0 || Date.now() > until) return false;
    const now = await once(sub, new Src(0, given));
    if (!now.wrong) return false;
    const shorter = now.taken.length < best.taken.length ||
      (now.taken.length === best.taken.length && now.taken.join() !== best.taken.join() && sum(now.taken) <= sum(best.taken));
    if (shorter) best = now;
    return shorter;
  };
  const sum = (l) => l.reduce((a, b) => a + b, 0);
  for (let progress = true; progress && left > 0; ) {
    progress = false;
    for (let size = Math.min(64, best.taken.length); size >= 1; size = Math.floor(size / 2)) {
      for (let at = 0; at + size <= best.taken.length; ) {
        const t = best.taken;
        if (await attempt([...t.slice(0, at), ...t.slice(at + size)])) progress = true;
        else at += size;
        if (left <= 0) return best;
      }
    }
    for (let at = 0; at < best.taken.length; at++) {
      for (const v of [0, Math.floor(best.taken[at] / 2), best.taken[at] - 1]) {
        if (at >= best.taken.length || v < 0 || v >= best.taken[at]) continue;
        if (await attempt([...best.taken.slice(0, at), v, ...best.taken.slice(at + 1)])) progress = true;
      }
      if (left <= 0) return best;
    }
  }
  return best;
}
