// Development aid: compares the verdicts of the reference validator with node's.
// cargo run --release --offline --example emit -- SEED N | node xcheck.js
const b = require('fs').readFileSync(0);
let o = 0, n = 0, bad = 0, ok = 0, kinds = {};
while (o < b.length) {
  const len = b.readUInt32LE(o), v = b[o + 4], why = b[o + 5];
  const m = b.subarray(o + 6, o + 6 + len);
  o += 6 + len; n++;
  const r = WebAssembly.validate(m);
  if (v) ok++;
  if (r !== !!v) {
    let msg = ''; try { new WebAssembly.Module(m); } catch (e) { msg = e.message; }
    const k = (v ? 'ref-ok: ' : 'ref-bad(' + why + '): ') + msg.replace(/[0-9]+/g, 'N');
    kinds[k] = kinds[k] || [0, m.toString('hex')]; kinds[k][0]++;
    bad++;
  }
}
console.log({ n, ok, bad });
for (const k in kinds) console.log(kinds[k][0], k, kinds[k][1].slice(0, 600));
