'use strict';
const { same, pinned, created, callback, C24, transfers, NEAR, crypto } = require('./lib_factory.js');
const SELF = 'lockups.near', LIST = 'list.near', FOUND = 'foundation.near', MIN = 35n * NEAR / 10n;
const observe = (w) => ({ init: w.chain.storage.has('STATE') });
const T0 = '1602614338293769340';
const monitors = {
  C20(ev) {
    const { op, r, pre, w } = ev, m = w.m;
    if (!pre.init || !r.ok || op.call === 'new') return null;
    if (op.call === 'create') {
      if (ev.deposit < MIN) return `created for ${ev.deposit}`;
      const a = op.args, id = crypto.createHash('sha256').update(a.owner_account_id).digest().subarray(0, 20).toString('hex') + '.' + SELF;
      return created(ev, id, pinned(w, 'lockup/res/lockup_contract.wasm'), {
        owner_account_id: a.owner_account_id, lockup_duration: a.lockup_duration, lockup_timestamp: a.lockup_timestamp, transfers_information: { TransfersEnabled: { transfers_timestamp: T0 } },
        vesting_schedule: a.vesting_schedule, release_duration: a.release_duration, staking_pool_whitelist_account_id: a.whitelist_account_id || m.init.whitelist_account_id, foundation_account_id: a.vesting_schedule ? m.init.foundation_account_id : null }, true);
    }
    if (op.by !== SELF) return `${op.call} by ${op.by}`;
    const p = m.pending.find((x) => x.method === op.call && x.args === op.raw);
    if (!p) return null;
    const t = transfers(r);
    if (op.results[0] !== null) return t.length ? `after a successful creation: ${t.map((x) => x.a.type + ' ' + x.to)}` : null;
    return t.length !== 1 || t[0].to !== p.by || t[0].a.type !== 'transfer' || t[0].a.amount !== p.deposit ? `after a failed creation paid by ${p.by} with ${p.deposit}: ${t.map((x) => `${x.a.type} ${x.a.amount} ${x.to}`)}` : null;
  },
  C24,
};
const due = {
  C20({ op, pre, deposit, w }) { return pre.init && (op.call === 'create' ? deposit >= MIN : op.by === SELF && w.m.pending.some((x) => x.method === op.call && x.args === op.raw)); },
};
const model = module.exports = {
  due,
  len: 20, monitors, observe,
  chain: () => ({ account: SELF }), config: () => ({}),
  start(w) { w.m = { pending: [] }; },
  after(w, ev) {
    const { op, r } = ev, m = w.m;
    if (!r.ok) return;
    if (op.call === 'new' && !ev.pre.init) m.init = op.args;
    if (op.call === 'create') { const c = callback(ev); if (c) m.pending.push({ ...c, by: op.by, deposit: ev.deposit }); return; }
    const i = m.pending.findIndex((x) => x.method === op.call && x.args === op.raw);
    if (i >= 0) m.pending.splice(i, 1);
  },
  first: (w, rng) => (rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near', args: { whitelist_account_id: LIST, foundation_account_id: FOUND } }),
  step(w, rng) {
    const by = rng.pick(['a.near', 'b.near', SELF]), p = w.m.pending, k = rng.int(100);
    if (p.length && k < 40) { const x = rng.pick(p), ok = rng.chance(0.5); return { call: x.method, by: rng.chance(0.85) ? SELF : by, signer: rng.chance(0.5) ? x.by : undefined, raw: x.args, credit: ok ? undefined : x.deposit, results: [ok ? '' : null] }; } // a failed creation returns the deposit
    if (k < 97) {
      const n = () => rng.big(10n ** 18n), s = [n(), n(), n()].sort((a, b) => (a < b ? -1 : 1));
      return { call: 'create', by, signer: rng.pick([undefined, 's.near']), deposit: rng.pick([MIN, MIN, MIN + 1n, MIN * 3n, MIN - 1n, 0n]),
        args: { owner_account_id: rng.pick(['o.near', 'q.near', 'r.sub.near']), lockup_duration: rng.pick([0n, n()]), lockup_timestamp: rng.pick([null, 0n, n()]),
          vesting_schedule: rng.pick([null, { VestingHash: Buffer.alloc(32, rng.int(200)).toString('base64') }, { VestingSchedule: { start_timestamp: s[0], cliff_timestamp: s[1], end_timestamp: s[2] } }]),
          release_duration: rng.pick([null, 0n, n()]), whitelist_account_id: rng.pick([null, null, 'other.near', LIST]) } };
    }
    return { call: 'new', by, args: { whitelist_account_id: 'evil.near', foundation_account_id: 'evil.near' } };
  },
};
