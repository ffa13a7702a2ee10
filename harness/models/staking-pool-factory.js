'use strict';
const { B, same, validId, pinned, created, callback, C24, transfers, key, NEAR } = require('./lib_factory.js');
const SELF = 'pools.near', LIST = 'list.near', MIN = 30n * NEAR;
const observe = (w) => (w.chain.storage.has('STATE') ? { init: true, n: w.chain.view('get_number_of_staking_pools_created') } : { init: false });
const monitors = {
  C19(ev) {
    const { op, r, pre, post, w } = ev, m = w.m;
    if (!pre.init) return null;
    if (op.call === 'create_staking_pool') {
      const a = op.args, f = a.reward_fee_fraction, id = `${a.staking_pool_id}.${SELF}`;
      const good = ev.deposit >= MIN && !a.staking_pool_id.includes('.') && validId(id) && validId(a.owner_id) && f.denominator > 0 && f.numerator <= f.denominator && !m.names.has(id);
      if (!r.ok) return good ? `${m.freed.has(id) ? `the name ${id} was not freed` : `the pool ${id} was due and is refused`}: ${r.panic}` : null;
      if (!good) return `created ${id} with deposit ${ev.deposit}, owner ${a.owner_id}, fee ${f.numerator}/${f.denominator}${m.names.has(id) ? ', name in use' : ''}`;
      const bad = created(ev, id, pinned(w, 'staking-pool/res/staking_pool.wasm'), { owner_id: a.owner_id, stake_public_key: a.stake_public_key, reward_fee_fraction: f }, true);
      if (bad) return bad;
      return post.n === m.names.size + 1 ? null : `${post.n} pools recorded`;
    }
    if (!r.ok) return null;
    const p = m.pending.find((x) => x.method === op.call && x.args === op.raw);
    if (op.call === 'new') return null;
    if (op.by !== SELF) return `${op.call} by ${op.by}`;
    if (!p) return null;
    const t = transfers(r);
    if (op.results[0] !== null) {
      const l = t.filter((x) => x.to === m.list && x.a.type === 'call' && x.a.method === 'add_staking_pool' && x.a.deposit === 0n && same(JSON.parse(x.a.args), { staking_pool_account_id: p.id }));
      if (l.length !== 1 || t.length !== 1) return `after creating ${p.id} the factory asked for ${t.map((x) => x.a.type + ' ' + x.to)}`;
      if (post.n !== m.names.size) return `${post.n} pools recorded`;
    } else {
      if (t.length !== 1 || t[0].to !== p.by || t[0].a.type !== 'transfer' || t[0].a.amount !== p.deposit) return `after a failed creation paid by ${p.by} with ${p.deposit}: ${t.map((x) => `${x.a.type} ${x.a.amount} ${x.to}`)}`;
      if (post.n !== m.names.size - 1) return `${post.n} pools recorded, the name was not freed`;
    }
    return null;
  },
  C24,
};
const due = {
  C19({ op, w }) { return op.by === SELF && w.m.pending.some((x) => x.method === op.call && x.args === op.raw); },
};
const model = module.exports = {
  due,
  len: 25, monitors, observe,
  chain: () => ({ account: SELF }), config: () => ({}),
  start(w) { w.m = { names: new Set(), freed: new Set(), pending: [] }; },
  after(w, ev) {
    const { op, r } = ev, m = w.m;
    if (!r.ok) return;
    if (op.call === 'new' && !ev.pre.init) m.list = op.args.staking_pool_whitelist_account_id;
    if (op.call === 'create_staking_pool') { const c = callback(ev), id = `${op.args.staking_pool_id}.${SELF}`; m.names.add(id); m.freed.delete(id); if (c) m.pending.push({ ...c, id, by: op.by, deposit: ev.deposit }); return; }
    const i = m.pending.findIndex((x) => x.method === op.call && x.args === op.raw);
    if (i >= 0) { if (op.results[0] === null) { m.names.delete(m.pending[i].id); m.freed.add(m.pending[i].id); } m.pending.splice(i, 1); }
  },
  first: (w, rng) => (rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near', args: { staking_pool_whitelist_account_id: LIST } }),
  step(w, rng) {
    const by = rng.pick(['a.near', 'b.near', 'c.near', SELF]), p = w.m.pending, k = rng.int(100);
    if (p.length && k < 40) { const x = rng.pick(p), ok = rng.chance(0.5); return { call: x.method, by: rng.chance(0.85) ? SELF : by, signer: rng.chance(0.5) ? x.by : undefined, raw: x.args, credit: ok ? undefined : x.deposit, results: [ok ? '' : null] }; } // a failed creation returns the deposit
    if (k < 97) {
      return { call: 'create_staking_pool', by, signer: rng.pick([undefined, 's.near']), deposit: rng.pick([MIN, MIN, MIN + 1n, MIN * 2n, MIN - 1n, 0n]),
        args: { staking_pool_id: rng.pick(['p1', 'p1', 'p2', 'p3', 'p.q', 'UP', '', 'x'.repeat(60), 'a-b', '-a']), owner_id: rng.pick(['o.near', 'o.near', 'q.near', 'Bad', 'x', 'a..b']), stake_public_key: key(rng.int(4)).bare,
          reward_fee_fraction: rng.pick([{ numerator: 1, denominator: 10 }, { numerator: 0, denominator: 1 }, { numerator: 1, denominator: 1 }, { numerator: 2, denominator: 1 }, { numerator: 0, denominator: 0 }, { numerator: 1, denominator: 0 }]) } };
    }
    return { call: 'new', by, args: { staking_pool_whitelist_account_id: 'evil.near' } };
  },
};
