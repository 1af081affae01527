// A flow executes given functions inside its own asynchronous context, so that
// several flows can be interleaved in any order.
export function makeFlow(meta = {}) {
  let next;
  const flow = { ...meta, q: [], stop: false, run(f) { return new Promise((res, rej) => { this.q.push({ f, res, rej }); next?.(); }); } };
  flow.main = async () => { for (;;) { while (flow.q.length) { const { f, res, rej } = flow.q.shift(); try { res(f()); } catch (e) { rej(e); } await null; } if (flow.stop) return "done"; await new Promise((r) => (next = r)); } };
  flow.close = () => { flow.stop = true; next?.(); };
  return flow;
}
export const setter = { set: (c, k, v) => { c[k] = v; } }, getter = { get: (c, k) => c[k], keys: (c) => Object.keys(c) };
export const propagator = (lib) => new lib.otelCore.CompositePropagator({ propagators: [new lib.otelCore.W3CTraceContextPropagator(), new lib.otelCore.W3CBaggagePropagator()] });
