import { createHash } from "node:crypto";
// State graph of exported transitions and generation of replay paths.
import { canon, rng } from "./util.mjs";
export class Graph {
  constructor(edges = []) { // edges: {s, a, t, o}
    this.ids = new Map(); this.E = []; this.out = []; this.seen = new Set(); this.interned = new Map();
    for (const e of edges) this.add(e);
    this.init = 0; // the first source state exported by BFS is the initial state
  }
  id(st) { const k = createHash("md5").update(canon(st)).digest("base64"); let i = this.ids.get(k); if (i === undefined) { i = this.ids.size; this.ids.set(k, i); this.out.push([]); } return i; }
  intern(x) { const k = JSON.stringify(x ?? null); if (k.length > 2000) return x; let v = this.interned.get(k); if (v === undefined) { this.interned.set(k, (v = x)); } return v; }
  add(e) {
    const s = this.id(e.s), t = this.id(e.t); const k = s + "|" + t + "|" + canon(e.a) + "|" + createHash("md5").update(canon(e.o ?? null)).digest("base64");
    if (this.seen.has(k)) return; this.seen.add(k);
    const i = this.E.length; this.E.push({ s, t, a: this.intern(e.a), o: this.intern(e.o) }); this.out[s].push(i);
  }
  finish() { this.seen = null; this.interned = null; this.ids = null; this.bfs(); return this; }
  // dist: length of the shortest path to each state; parents: every edge that ends such a path.
  bfs() {
    const n = this.out.length; this.parents = this.out.map(() => []); this.dist = new Int32Array(n).fill(-1); this.dist[0] = 0;
    let q = [0];
    while (q.length) { const nx = []; for (const s of q) for (const e of this.out[s]) { const t = this.E[e].t; if (this.dist[t] < 0) { this.dist[t] = this.dist[s] + 1; nx.push(t); } if (this.dist[t] === this.dist[s] + 1) this.parents[t].push(e); } q = nx; }
  }
  // A shortest history of state s, picked at random: histories that the specification
  // identifies may still differ inside the code.
  prefix(s, r) { const p = []; while (s !== 0) { const e = r.pick(this.parents[s]); p.push(e); s = this.E[e].s; } return p.reverse(); }
  // Paths from the initial state that together take every edge at least once.
  edgeCover({ maxLen = 60, seed = 1 } = {}) {
    const r = rng(seed); const covered = new Uint8Array(this.E.length); const ptr = this.out.map((o) => r.shuffle(o)); const paths = [];
    const nextUncovered = (s) => { const o = ptr[s]; while (o.length) { const e = o[o.length - 1]; if (covered[e]) { o.pop(); continue; } return e; } return -1; };
    const order = this.E.map((_, i) => i).sort((a, b) => this.dist[this.E[b].s] - this.dist[this.E[a].s]);
    for (const e0 of order) {
      if (covered[e0] || this.dist[this.E[e0].s] < 0) continue;
      const p = this.prefix(this.E[e0].s, r); for (const e of p) covered[e] = 1;
      p.push(e0); covered[e0] = 1; let s = this.E[e0].t;
      while (p.length < maxLen) {
        let e = nextUncovered(s);
        if (e < 0) { // one-step lookahead to reach an uncovered edge
          let found = -1; for (const e1 of this.out[s]) if (nextUncovered(this.E[e1].t) >= 0) { found = e1; break; }
          if (found < 0) break; e = found;
        }
        covered[e] = 1; p.push(e); s = this.E[e].t;
      }
      paths.push(p);
    }
    return paths;
  }
  randomWalks({ count, len, seed }) {
    const r = rng(seed); const paths = [];
    for (let i = 0; i < count; i++) { const p = []; let s = 0; while (p.length < len && this.out[s].length) { const e = r.pick(this.out[s]); p.push(e); s = this.E[e].t; } if (p.length) paths.push(p); }
    return paths;
  }
}
