// node run.js FILE.wasm SEED SCALE STRIDE LIMIT_SECONDS: drives the workload in
// the WebAssembly build; prints one line of JSON. Exit 1: a violation was seen.
// node run.js FILE.wasm SEED SCALE case FAMILY INDEX: one case.
'use strict';
const fs = require('fs');
const [file, seed, scale, stride, limit, index] = process.argv.slice(2);
// what is in flight, for the case that nothing comes back
const journal = process.env.JOURNAL ? fs.openSync(process.env.JOURNAL, 'w') : -1;
const mod = new WebAssembly.Module(fs.readFileSync(file));
let inst;
function fresh() {
  inst = new WebAssembly.Instance(mod, {}).exports;
  return inst.start(Number(seed) >>> 0, scale === 'mini' ? 0 : 1);
}
function text() {
  return Buffer.from(new Uint8Array(inst.memory.buffer, inst.text_ptr(), inst.text_len())).toString();
}
const n = fresh();
const fams = [];
for (let f = 0; f < n; f++) {
  inst.family_name(f);
  fams.push({ name: text(), count: inst.family_count(f) });
}
const t0 = Date.now();
const out = {
  evaluations: 0, families: {}, found: [], harness_errors: [], truncated: false,
  controls: 0, controls_noticed: 0, samples: [],
};
// returns a description of what went wrong, or null
function one(f, i) {
  let r;
  try {
    r = inst.run_case(f, i, 0);
  } catch (e) {
    const t = text();
    if (t.startsWith('CODE')) return { what: 'panicked: ' + t.slice(5) };
    if (inst.in_call()) return { what: 'trapped: ' + String(e) };
    return { harness: String(e) + ' ' + t };
  }
  return r === 0 ? null : { what: text() };
}
function program() {
  inst.last_program();
  return text();
}
if (stride === 'case') {
  const f = fams.findIndex((x) => x.name === limit);
  const r = one(f, Number(index));
  console.log(JSON.stringify(r || { verdict: 'fine' }));
  process.exit(r === null ? 0 : r.harness ? 2 : 1);
}
const step = Number(stride);
const work = [];
fams.forEach((fam, f) => {
  const m = Math.ceil(fam.count / step);
  for (let k = 0; k < m; k++) {
    work.push([k / m, f, Math.min(k * step + (Number(seed) % step), fam.count - 1)]);
  }
});
work.sort((a, b) => a[0] - b[0]);
for (const [, f, i] of work) {
  if (Date.now() - t0 > 1000 * Number(limit)) {
    out.truncated = true;
    break;
  }
  const name = fams[f].name;
  if (journal >= 0) fs.writeSync(journal, `${name} ${i}`.padEnd(63) + '\n', 0);
  const r = one(f, i);
  out.evaluations++;
  out.families[name] = out.families[name] || [0, fams[f].count];
  const nth = ++out.families[name][0];
  if (r !== null) {
    if (r.harness) {
      out.harness_errors.push(`${name}:${i}: ${r.harness}`);
      break;
    }
    let p = null;
    try {
      p = program();
    } catch (e) {
      p = null;
    }
    out.found.push({ family: name, index: i, what: r.what, program: p });
    break;
  }
  if (nth === 2 && out.samples.length < 4) {
    out.samples.push(`${name}:${i} ${program().split('\n').slice(0, 4).join(' ; ').slice(0, 400)}`);
  }
  if (nth <= 3 && name !== 'sha/huge') {
    // the monitor has to notice a falsified outcome of the first call, which
    // every specification determines
    out.controls++;
    if (inst.run_case(f, i, 1) === 1) out.controls_noticed++;
  }
}
if (out.found.length === 0 && out.harness_errors.length === 0) {
  inst.coverage();
  Object.assign(out, JSON.parse(text()));
}
out.wall_s = (Date.now() - t0) / 1000;
console.log(JSON.stringify(out));
process.exit(out.found.length ? 1 : 0);
