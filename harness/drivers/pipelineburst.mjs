// SpanPipeline.tla with bursts: each span of the specification stands for hundreds that end together.
import { make as one } from "./pipeline.mjs";
export function variants() { return [{ how: "tracer", interval: 5, scale: 600 }]; }
export const make = one;
