'use strict';
const { C24 } = require('./lib_factory.js');
const B = (x) => BigInt(x);
const SELF = 'wrap.near', WHO = ['a.near', 'b.near', 'c.near', 'd.near', SELF];
function observe(w) {
  const c = w.chain;
  if (!c.storage.has('STATE')) return { init: false };
  const o = { init: true, supply: B(c.view('ft_total_supply')), bal: new Map(), reg: new Set(), min: B(c.view('storage_balance_bounds').min) };
  for (const a of WHO) { o.bal.set(a, B(c.view('ft_balance_of', { account_id: a }))); if (c.view('storage_balance_of', { account_id: a }) !== null) o.reg.add(a); }
  return o;
}
const monitors = {
  C22(ev) {
    const { op, r, pre, post, w } = ev;
    if (!r.ok || !post.init) return null;
    let sum = 0n; for (const v of post.bal.values()) sum += v;
    if (sum !== post.supply) return `supply is ${post.supply}, the balances add up to ${sum}`;
    if (!pre.init) return post.supply !== 0n ? 'supply without a deposit' : null;
    const d = post.supply - pre.supply, by = op.by;
    const diff = (a) => post.bal.get(a) - pre.bal.get(a);
    let out = 0n; const pays = [];
    for (const x of r.receipts) for (const a of x.actions) { if (a.type === 'transfer') { out += a.amount; pays.push({ to: x.receiver, amount: a.amount }); } else if (a.type === 'call') out += a.deposit; else return `unexpected action ${a.type}`; }
    const owed = d + BigInt(post.reg.size - pre.reg.size) * post.min, kept = ev.deposit - out;
    if (owed > kept) return `${op.call} made the contract owe ${owed} more and left it ${kept}`;
    for (const a of WHO) if (diff(a) < 0n && a !== by && op.call !== 'ft_resolve_transfer') return `${op.call} by ${by} took ${-diff(a)} from ${a}`;
    switch (op.call) {
      case 'near_deposit': {
        const cost = !pre.reg.has(by) ? post.min : 0n;
        if (d !== ev.deposit - cost || diff(by) !== d) return `a deposit of ${ev.deposit} minted ${d} and gave ${by} ${diff(by)}`;
        if (pays.length) return 'a deposit paid out';
        break;
      }
      case 'near_withdraw': {
        if (ev.deposit !== 1n) return `withdrawal with ${ev.deposit} attached`;
        if (pays.length !== 1 || pays[0].to !== by || pays[0].amount !== -d + 1n || -d !== B(op.args.amount) || diff(by) !== d) return `withdrawal of ${op.args.amount} burned ${-d} and paid ${pays.map((p) => p.amount + ' to ' + p.to)}`;
        break;
      }
      case 'ft_transfer': case 'ft_transfer_call': {
        const a = B(op.args.amount), to = op.args.receiver_id;
        if (d !== 0n) return `a transfer changed the supply by ${d}`;
        if (ev.deposit !== 1n) return `transfer with ${ev.deposit} attached`;
        for (const x of WHO) { const want = (x === to ? a : 0n) - (x === by ? a : 0n); if (diff(x) !== want) return `a transfer of ${a} from ${by} to ${to} moved ${diff(x)} at ${x}`; }
        if (a <= 0n) return 'transfer of nothing';
        break;
      }
      case 'ft_resolve_transfer': {
        if (by !== SELF) return `refund run by ${by}`;
        const { sender_id, receiver_id, amount } = op.args, res = op.results[0];
        let unused = B(amount);
        if (res !== null) { try { const v = JSON.parse(res); if (typeof v === 'string' && /^\d+$/.test(v)) { if (B(v) < unused) unused = B(v); } } catch (e) { /* all unused */ } }
        const back = -diff(receiver_id);
        if (sender_id !== receiver_id) {
          if (back < 0n || back > unused) return `a refund took ${back} of ${unused} unused`;
          const got = diff(sender_id), gone = !pre.reg.has(sender_id);
          if (gone ? d !== -back || got !== 0n : d !== 0n || got !== back) return `a refund of ${back} gave the sender ${got} and changed the supply by ${d}`;
        } else if (d > 0n || -d > unused) return `supply changed by ${d} in a refund`;
        for (const x of WHO) if (x !== sender_id && x !== receiver_id && diff(x) !== 0n) return `a refund changed ${x}`;
        break;
      }
      case 'storage_unregister':
        for (const x of WHO) if (x !== by && diff(x) !== 0n) return `unregistering ${by} changed ${x}`;
        if (d !== diff(by) || (d !== 0n && (!op.args.force || post.reg.has(by)))) return `unregistering ${by} burned ${-d}`;
        break;
      default:
        if (d !== 0n) return `${op.call} changed the supply by ${d}`;
        for (const x of WHO) if (diff(x) !== 0n) return `${op.call} changed the balance of ${x}`;
    }
    return null;
  },
  C24,
};
const due = {
  C22({ op, pre, deposit, chain }) {
    if (!pre.init) return op.call === 'new';
    const a = op.args || {}, amount = a.amount === undefined || a.amount === null ? 0n : B(a.amount), has = pre.bal.get(op.by), reg = pre.reg.has(op.by);
    switch (op.call) {
      case 'near_deposit': return deposit > 0n && (reg || deposit >= pre.min);
      case 'near_withdraw': return deposit === 1n && reg && has >= amount && amount + 1n <= chain.balance;
      case 'ft_transfer': case 'ft_transfer_call': return deposit === 1n && reg && pre.reg.has(a.receiver_id) && a.receiver_id !== op.by && amount > 0n && has >= amount;
      case 'storage_deposit': return deposit >= pre.min;
      case 'storage_unregister': return deposit === 1n && reg && (has === 0n || a.force === true) && pre.min + 1n <= chain.balance;
    }
    return false;
  },
};
const model = module.exports = {
  due,
  len: 50, monitors, observe,
  chain: () => ({ account: SELF, balance: 10n ** 25n }), config: () => ({}),
  start(w) { w.m = { calls: [] }; },
  after(w, ev) { if (ev.r.ok && ev.op.call === 'ft_transfer_call') for (const x of ev.r.receipts) for (const a of x.actions) if (x.receiver === SELF && a.type === 'call' && x.after.length) w.m.calls.push({ call: a.method, args: JSON.parse(a.args) }); if (ev.r.ok && ev.op.call === 'ft_resolve_transfer') { const i = w.m.calls.findIndex((c) => JSON.stringify(c.args) === JSON.stringify(ev.op.args)); if (i >= 0) w.m.calls.splice(i, 1); } },
  first: (w, rng) => (rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near' }),
  step(w, rng) {
    const by = rng.pick(WHO), k = rng.int(100), o = observe(w), min = o.min || 1n, has = o.init ? o.bal.get(by) : 0n;
    const amt = (h) => rng.pick([1n + rng.big(100n), h, h + 1n, h > 0n ? 1n + rng.big(h) : 1n, h > 1n ? h - 1n : 1n, 0n]);
    const one = rng.pick([1n, 1n, 1n, 1n, 1n, 0n, 2n]);
    if (k < 22) return { call: 'near_deposit', by, deposit: rng.pick([min, min + 1n, min + rng.big(1000n), 1n + rng.big(1000n), min - 1n, 0n]) };
    if (k < 36) return { call: 'near_withdraw', by, deposit: one, args: { amount: amt(has) } };
    if (k < 48) return { call: 'ft_transfer', by, deposit: one, args: { receiver_id: rng.pick(WHO), amount: amt(has), memo: null } };
    if (k < 60) return { call: 'ft_transfer_call', by, deposit: one, args: { receiver_id: rng.pick(WHO), amount: amt(has), memo: null, msg: '' } };
    if (k < 75 && w.m.calls.length) { const c = rng.pick(w.m.calls); return { call: c.call, by: rng.chance(0.9) ? SELF : by, args: c.args, results: [rng.pick([null, 'x', '"0"', JSON.stringify(String(rng.big(120n))), JSON.stringify(c.args.amount), '"99999999999"'])] }; }
    if (k < 84) return { call: 'storage_deposit', by, deposit: rng.pick([min, min, min * 2n, min - 1n, 0n]), args: { account_id: rng.pick([null, ...WHO]), registration_only: rng.pick([null, true, false]) } };
    if (k < 88) return { call: 'storage_withdraw', by, deposit: one, args: { amount: rng.pick([null, 0n, 1n]) } };
    if (k < 98) return { call: 'storage_unregister', by, deposit: one, args: { force: rng.pick([null, true, true, false]) } };
    return { call: 'new', by };
  },
};
