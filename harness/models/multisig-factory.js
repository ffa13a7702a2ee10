'use strict';
const { validId, pinned, created, key, NEAR } = require('./lib_factory.js');
const SELF = 'wallets.near';
const monitors = {
  C21(ev) {
    const { op, r, w } = ev;
    if (!r.ok || op.call !== 'create') return null;
    return created(ev, `${op.args.name}.${SELF}`, pinned(w, 'multisig2/res/multisig2.wasm'), { members: op.args.members, num_confirmations: op.args.num_confirmations }, false);
  },
};
module.exports = {
  len: 12, monitors, due: { C21: ({ op }) => op.call === 'create' },
  chain: () => ({ account: SELF }), config: () => ({}),
  step(w, rng) {
    const members = []; for (let i = rng.int(5); i > 0; i--) members.push(rng.chance(0.5) ? { account_id: rng.pick(['a.near', 'b.near', 'c.near']) } : { public_key: key(rng.int(5)).bare });
    return { call: 'create', by: rng.pick(['a.near', 'b.near', SELF]), deposit: rng.pick([0n, 1n, NEAR, 5n * NEAR]), args: { name: rng.pick(['w1', 'w2', 'w-3', 'sub.w', 'UP', '']), members, num_confirmations: rng.pick([0, 1, 2, 3, 7]) } };
  },
};
