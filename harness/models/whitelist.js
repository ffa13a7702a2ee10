'use strict';
const { validId } = require('./lib_factory.js');
const WHO = ['foundation.near', 'factory1.near', 'factory2.near', 'a.near', 'b.near'];
const POOLS = ['p1.factory1.near', 'p2.near', 'factory1.near', 'a.near'], BAD = ['UPPER.near', '', 'a..b', 'x'];
const NAMES = [...new Set([...WHO, ...POOLS])];
function observe(w) {
  const c = w.chain;
  if (!c.storage.has('STATE')) return { init: false };
  const o = { init: true, pools: new Set(), factories: new Set(), state: c.storage.get('STATE').toString('hex') };
  for (const a of NAMES) { if (c.view('is_whitelisted', { staking_pool_account_id: a })) o.pools.add(a); if (c.view('is_factory_whitelisted', { factory_account_id: a })) o.factories.add(a); }
  return o;
}
const eq = (a, b) => a.size === b.size && [...a].every((x) => b.has(x));
const OPS = { add_staking_pool: ['pools', true], remove_staking_pool: ['pools', false], add_factory: ['factories', true], remove_factory: ['factories', false] };
const monitors = {
  C18(ev) {
    const { op, pre, post, r, w } = ev;
    if (!r.ok) return null;
    if (!pre.init) return op.call === 'new' && post.init && (post.pools.size || post.factories.size) ? 'a new whitelist is not empty' : null;
    if (r.receipts.some((x) => x.actions.length)) return 'receipts';
    const boss = w.m.foundation, want = { pools: new Set(pre.pools), factories: new Set(pre.factories) };
    const d = OPS[op.call];
    if (d) {
      const a = op.args.staking_pool_account_id !== undefined ? op.args.staking_pool_account_id : op.args.factory_account_id;
      if (op.by !== boss && !(op.call === 'add_staking_pool' && pre.factories.has(op.by))) return `${op.call} by ${op.by}`;
      const had = want[d[0]].has(a);
      if (d[1]) want[d[0]].add(a); else want[d[0]].delete(a);
      if (r.value !== (d[1] ? !had : had)) return `${op.call} returned ${r.value}`;
    }
    for (const k of ['pools', 'factories']) if (!eq(want[k], post[k])) return `${k} are ${[...post[k]]}, expected ${[...want[k]]}`;
    return null;
  },
  C24(ev) {
    if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
    if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
    return null;
  },
};
const due = {
  C18({ op, pre, w }) {
    const a = op.args.staking_pool_account_id !== undefined ? op.args.staking_pool_account_id : op.args.factory_account_id;
    if (!pre.init) return op.call === 'new' && validId(op.args.foundation_account_id);
    return !!OPS[op.call] && validId(a) && (op.by === w.m.foundation || (op.call === 'add_staking_pool' && pre.factories.has(op.by)));
  },
};
const model = module.exports = {
  due,
  len: 40, monitors, observe,
  chain: () => ({ account: 'list.near' }), config: () => ({}),
  start(w) { w.m = {}; },
  after(w, ev) { if (ev.op.call === 'new' && ev.r.ok && !ev.pre.init) w.m.foundation = ev.op.args.foundation_account_id; },
  first: (w, rng) => (rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near', args: { foundation_account_id: 'foundation.near' } }),
  step(w, rng) {
    const by = rng.pick(['foundation.near', ...WHO]), signer = rng.chance(0.3) ? rng.pick(WHO) : undefined;
    const pool = rng.chance(0.05) ? rng.pick(BAD) : rng.pick(POOLS), fac = rng.chance(0.05) ? rng.pick(BAD) : rng.pick(['factory1.near', 'factory2.near', 'a.near']);
    const k = rng.int(100);
    if (k < 40) return { call: 'add_staking_pool', by, signer, args: { staking_pool_account_id: pool } };
    if (k < 60) return { call: 'remove_staking_pool', by, signer, args: { staking_pool_account_id: pool } };
    if (k < 80) return { call: 'add_factory', by, signer, args: { factory_account_id: fac } };
    if (k < 97) return { call: 'remove_factory', by, signer, args: { factory_account_id: fac } };
    return { call: 'new', by, args: { foundation_account_id: rng.pick(WHO) } };
  },
};
