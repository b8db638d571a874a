// Runs the harness built for wasm32 (32-bit addresses) on all cores and prints its digests.
//   node w32.mjs FILE.wasm TIER [SPACE:BUCKET]
import fs from 'fs';
import { Worker, isMainThread, parentPort, workerData } from 'worker_threads';
const file = process.argv[2] ?? workerData.file, tier = process.argv[3] ?? workerData.tier, one = process.argv[4];
const TIERS = { quick: 0, thorough: 1, huge: 2 };
const fresh = (mod, t) => { const x = new WebAssembly.Instance(mod, {}).exports; x.w32_digs(t); return x };
if (isMainThread) {
  const mod = new WebAssembly.Module(fs.readFileSync(file));
  const opts = { resourceLimits: { stackSizeMb: 200, maxOldGenerationSizeMb: 2000 } };
  if (one) {
    const [i, b] = one.split(':').map(Number);
    const w = new Worker(new URL(import.meta.url), { ...opts, workerData: { file, tier, mod, dump: [i, b] } });
    w.on('message', (s) => { process.stdout.write(s, () => process.exit(0)) });
  } else {
    const n = Math.max(1, Math.min(8, Number(process.env.VERIF_THREADS ?? 8)));
    const x = fresh(mod, TIERS[tier]);
    const sizes = Array.from({ length: x.w32_digs(TIERS[tier]) }, (_, i) => x.w32_buckets(i));
    const jobs = sizes.flatMap((k, i) => Array.from({ length: k }, (_, b) => [i, b]));
    const out = sizes.map((k) => Array(k).fill(null)), items = sizes.map(() => 0);
    const limit = 1000 * Number(process.env.VERIF_W32_S ?? (tier === 'huge' ? 240 : 60));
    let next = 0, left = jobs.length;
    const done = () => { if (left < 0) return; left = -1; process.stdout.write(JSON.stringify({ spaces: out.map((digests, i) => ({ digests, items: items[i] })) }), () => process.exit(0)) };
    if (!jobs.length) done();
    for (let k = 0; k < n; k++) {
      const w = new Worker(new URL(import.meta.url), { ...opts, workerData: { file, tier, mod } });
      let batch = [], seen;
      const give = () => { batch = jobs.slice(next, next + Math.min(8, Math.ceil(jobs.length / n))); next += batch.length; seen = Date.now(); if (batch.length) w.postMessage(batch) };
      w.on('message', ([i, b, h, c]) => { out[i][b] = h; items[i] += c; if (left > 0) left--; seen = Date.now(); batch.shift(); if (left === 0) done(); if (!batch.length) give() });
      w.on('error', (e) => { console.error(String(e)); process.exit(3) });
      // a bucket takes milliseconds: one that does not come back is an answer of its own
      setInterval(() => { if (batch.length && Date.now() - seen > limit) { out[batch[0][0]][batch[0][1]] = 'no answer'; done() } }, 1000);
      give();
    }
  }
} else {
  const mod = workerData.mod, t = TIERS[tier];
  let x = fresh(mod, t);
  if (workerData.dump) {
    const [i, b] = workerData.dump;
    let end = '';
    try { x.w32_dump(i, b) } catch (e) { end = `(stops with a trap: ${e.message})\n` }
    parentPort.postMessage(Buffer.from(x.memory.buffer, x.w32_text(), x.w32_len()).toString('utf8') + end);
  } else parentPort.on('message', (jobs) => jobs.forEach(([i, b]) => {
    try { const h = BigInt.asUintN(64, x.w32_run(i, b)).toString(16); parentPort.postMessage([i, b, h, Number(x.w32_done())]) }
    catch (e) { x = fresh(mod, t); parentPort.postMessage([i, b, 'trap: ' + e.message, 0]) }
  }));
}
