'use strict';
const lat = (b) => b.toString('latin1'), b64 = (s) => Buffer.from(s, 'latin1').toString('base64');
const KEYS = ['', 'a', 'b', 'ab', 'STATE', '\x00', '\x00\xff', 'k1', 'k10', 'long'.repeat(40)];
const monitors = {
  C23(ev) {
    const { op, r, snap, chain } = ev;
    const want = new Map([...snap.storage].map(([k, v]) => [k, lat(v)]));
    let good = true;
    const un = (s) => { const b = Buffer.from(s, 'base64'); if (b.toString('base64') !== s) good = false; return lat(b); };
    if (op.call === 'replace') for (const [k, v] of op.args.entries) want.set(un(k), un(v)); else for (const k of op.args.keys) want.delete(un(k));
    if (!good) return null;
    if (!r.ok) return `a well-formed ${op.call} failed: ${r.panic}`;
    if (r.receipts.length) return 'receipts';
    for (const k of new Set([...want.keys(), ...chain.storage.keys()])) {
      const v = chain.storage.get(k), x = v === undefined ? undefined : lat(v);
      if (x !== want.get(k)) return `key ${JSON.stringify(k)} holds ${JSON.stringify(x)}, expected ${JSON.stringify(want.get(k))}`;
    }
    return null;
  },
};
module.exports = {
  len: 15, monitors,
  chain: () => ({ account: 'target.near' }),
  config: (rng) => ({ seed: KEYS.filter(() => rng.chance(0.4)).map((k) => [k, 'v' + rng.int(9)]) }),
  start(w) { for (const [k, v] of w.cfg.seed) w.chain.storage.set(k, Buffer.from(v, 'latin1')); },
  step(w, rng) {
    const n = rng.pick([0, 1, 1, 2, 3, 5, 9]), bad = () => (rng.chance(0.01) ? '@@' : '');
    const val = () => rng.pick(['', 'x', 'yy', '\x00\x01\x02', 'z'.repeat(300), 'v' + rng.int(99)]);
    const l = []; for (let i = 0; i < n; i++) l.push(rng.pick(KEYS));
    return rng.chance(0.55) ? { call: 'replace', by: 'x.near', args: { entries: l.map((k) => [b64(k) + bad(), b64(val())]) } } : { call: 'clean', by: 'x.near', args: { keys: l.map((k) => b64(k) + bad()) } };
  },
};
