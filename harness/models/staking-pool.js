'use strict';
const { key, b58, NEAR, Chain } = require('../near.js');
const SELF = 'pool.near', OWNER = 'owner.near';
const WHO = ['a.near', 'b.near', 'c.near', OWNER];
const GUARD = 1000000000000n;
const B = (x) => BigInt(x);
const ceil = (a, b) => (a + b - 1n) / b;
const bareKey = (s) => s.replace(/^ed25519:/, '');

// total shares etc. from the borsh state; null when the state does not have the known layout
function decode(c) {
  try {
    const b = c.storage.get('STATE'); let o = 0;
    const u = (n) => { let v = 0n; for (let i = n - 1; i >= 0; i--) v = v * 256n + B(b[o + i]); o += n; return v; };
    const bytes = () => { const n = Number(u(4)); const r = b.subarray(o, o + n); o += n; return r; };
    const owner = bytes().toString(), pk = bytes();
    const lastEpoch = u(8), lastTotal = u(16), shares = u(16), staked = u(16), num = u(4), den = u(4);
    const kp = [bytes().toString('latin1')]; 
    return { owner, pk: b58(pk.subarray(1)), lastEpoch, lastTotal, shares, staked, num, den };
  } catch (e) { return null; }
}
function decodeAccounts(c, names) {
  const m = new Map();
  for (const [k, v] of c.storage) {
    if (!k.startsWith('uk')) continue;
    const idx = k.slice(2); const val = c.storage.get('uv' + idx);
    if (!val || val.length !== 40) return null;
    const u = (o) => val.readBigUInt64LE(o) | (val.readBigUInt64LE(o + 8) << 64n);
    m.set(v.subarray(4).toString(), { unstaked: u(0), shares: u(16), avail: val.readBigUInt64LE(32) });
  }
  return m;
}
function observe(w, c = w.chain) {
  if (!c.storage.has('STATE')) return { init: false };
  const n = c.view('get_number_of_accounts');
  const acc = new Map();
  for (const a of c.view('get_accounts', { from_index: 0, limit: 100 })) acc.set(a.account_id, { unstaked: B(a.unstaked_balance), staked: B(a.staked_balance), can: a.can_withdraw });
  const o = { init: true, n, acc, T: B(c.view('get_total_staked_balance')), owner: c.view('get_owner_id'), fee: c.view('get_reward_fee_fraction'), key: c.view('get_staking_key'), paused: c.view('is_staking_paused'), epoch: c.epoch, balance: c.balance, locked: c.locked };
  const d = decode(c);
  if (d && d.owner === o.owner && d.staked === o.T && B(o.fee.numerator) === d.num && B(o.fee.denominator) === d.den) {
    const A = decodeAccounts(c);
    let good = A && A.size === acc.size;
    if (good) for (const [k, v] of A) if (!acc.has(k) || acc.get(k).unstaked !== v.unstaked) good = false;
    if (good) { o.S = d.shares; o.lastTotal = d.lastTotal; o.lastEpoch = d.lastEpoch; o.raw = A; }
  }
  return o;
}
const raw = (o, a) => o.raw.get(a) || { unstaked: 0n, shares: 0n, avail: 0n };
const un = (o, a) => (o.acc.get(a) || { unstaked: 0n }).unstaked;
// state after the reward recognition that precedes every operation
function pinged(ev) {
  if (ev.pre.lastEpoch === undefined) return null;
  if (ev.pre.lastEpoch === ev.pre.epoch) return ev.pre;
  const c = ev.chain, now = c.snapshot();
  c.restore(ev.snap);
  const r = c.call('ping', {}, { by: 'someone.near' });
  const o = r.ok ? observe(ev.w) : null;
  c.restore(now);
  return o;
}
const reward = (ev) => (ev.pre.lastEpoch === ev.pre.epoch ? 0n : ev.pre.locked + ev.pre.balance - ev.pre.lastTotal);
const STAKES = new Set(['deposit_and_stake', 'stake', 'stake_all']), UNSTAKES = new Set(['unstake', 'unstake_all']);
const PINGS = new Set(['ping', 'deposit', 'deposit_and_stake', 'withdraw', 'withdraw_all', 'stake', 'stake_all', 'unstake', 'unstake_all', 'update_staking_key', 'update_reward_fee_fraction', 'pause_staking', 'resume_staking']);
const transfers = (r) => { const l = []; for (const x of r.receipts) for (const a of x.actions) if (a.type === 'transfer') l.push({ to: x.receiver, amount: a.amount }); return l; };
const known = (ev) => ev.r.ok && ev.pre.init && ev.post.init && ev.pre.S !== undefined && ev.post.S !== undefined;

const monitors = {
  C01(ev) {
    if (!ev.r.ok || !ev.post.init) return null;
    if (!ev.pre.init) { if (ev.post.S !== undefined && (ev.post.S !== ev.post.T) ) return `initial price is ${ev.post.T}/${ev.post.S}`; return null; }
    if (known(ev)) {
      const { pre, post } = ev;
      if (post.T * pre.S < pre.T * post.S) return `share price fell: ${pre.T}/${pre.S} -> ${post.T}/${post.S}`;
      if (post.T < post.S || (pre.S > 0n && (post.S <= 0n || post.T <= 0n))) return `price below one: ${post.T}/${post.S}`;
    }
    for (const [a, v] of ev.pre.acc) if (a !== ev.by) { const p = ev.post.acc.get(a); if ((p ? p.staked : 0n) < v.staked) return `${a}'s staked value fell from ${v.staked} to ${p ? p.staked : 0n} in a call by ${ev.by}`; }
    return null;
  },
  C02(ev) {
    if (!known(ev)) return null;
    const { post, by } = ev, p = pinged(ev), m = ev.op.call;
    for (const [a, v] of post.raw) if (post.acc.get(a).staked !== v.shares * post.T / post.S) return `${a} is shown ${post.acc.get(a).staked} for ${v.shares} shares at ${post.T}/${post.S}`;
    if (!p || p.S === undefined || (!STAKES.has(m) && !UNSTAKES.has(m))) return null;
    for (const a of new Set([...p.raw.keys(), ...post.raw.keys()])) if (a !== by) { const x = raw(p, a), y = raw(post, a); if (x.unstaked !== y.unstaked || x.shares !== y.shares) return `${m} by ${by} changed ${a}`; }
    if (STAKES.has(m)) {
      const amount = m === 'stake' ? B(ev.args.amount) : m === 'stake_all' ? un(p, by) : ev.deposit;
      const d = raw(post, by).shares - raw(p, by).shares;
      const charged = un(p, by) + ev.deposit - un(post, by);
      if (charged > amount) return `charged ${charged} for staking ${amount}`;
      if (amount - charged > ceil(p.T, p.S)) return `charged only ${charged} for staking ${amount} at ${p.T}/${p.S}`;
      if (d <= 0n || charged !== d * p.T / p.S) return `charged ${charged} for ${d} shares at ${p.T}/${p.S}`;
    } else {
      const amount = m === 'unstake' ? B(ev.args.amount) : raw(p, by).shares * p.T / p.S;
      const got = un(post, by) - un(p, by), d = raw(p, by).shares - raw(post, by).shares;
      if (got < amount) return `credited ${got} for unstaking ${amount}`;
      if (d * p.T < amount * p.S || (d - 1n) * p.T >= amount * p.S) return `burned ${d} shares for ${amount} at ${p.T}/${p.S}`;
    }
    return null;
  },
  C03(ev) {
    if (!ev.r.ok || !ev.post.init || ev.post.S === undefined) return null;
    const sum = (o) => { let s = 0n; for (const v of o.raw.values()) s += v.shares; return s; };
    const owed = (o) => { let s = o.T; for (const v of o.raw.values()) s += v.unstaked; return s; };
    if (!ev.pre.init) return ev.post.raw.size ? 'accounts exist after initialisation' : ev.post.lastTotal !== ev.post.balance ? 'recorded balance is wrong after initialisation' : null;
    if (!known(ev)) return null;
    const { pre, post, op } = ev;
    if (sum(post) - sum(pre) !== post.S - pre.S) return `accounts' shares changed by ${sum(post) - sum(pre)}, the total by ${post.S - pre.S}`;
    let paid = 0n; for (const t of transfers(ev.r)) paid += t.amount;
    const rw = PINGS.has(op.call) ? reward(ev) : 0n;
    const want = ev.deposit - paid + rw;
    const slack = STAKES.has(op.call) || UNSTAKES.has(op.call) ? 1n : 0n;
    const diff = owed(post) - owed(pre) - want;
    if (diff < 0n || diff > slack) return `what the pool owes changed by ${owed(post) - owed(pre)}, deposits less withdrawals plus reward are ${want}`;
    if (post.lastTotal - pre.lastTotal !== want) return `recorded total balance moved by ${post.lastTotal - pre.lastTotal}, not ${want}`;
    return null;
  },
  C04(ev) {
    if (!ev.r.ok || !ev.pre.init || !ev.post.init) return null;
    const { pre, post, by, op } = ev;
    const t = transfers(ev.r);
    for (const x of ev.r.receipts) for (const a of x.actions) if (['delete_account', 'add_full_key', 'add_key', 'deploy', 'create_account', 'delete_key'].includes(a.type) || (a.type === 'call' && a.deposit > 0n)) return `unexpected action ${a.type} on ${x.receiver}`;
    const ded = un(pre, by) + ev.deposit - un(post, by);
    if (t.length > 1) return `${t.length} transfers in one call`;
    if (t.length === 1) {
      if (t[0].to !== by) return `paid ${t[0].to} in a call by ${by}`;
      if (t[0].amount <= 0n || t[0].amount !== ded) return `paid ${t[0].amount}, deducted ${ded}`;
      const a = pre.acc.get(by);
      if (!a || !a.can) return `paid ${by} before its balance became available`;
    }
    if ((op.call === 'withdraw' || op.call === 'withdraw_all') && t.length !== 1) return 'withdrawal paid nothing';
    if (op.call === 'deposit' && un(post, by) !== un(pre, by) + ev.deposit) return 'deposit credited wrongly';
    for (const a of new Set([...pre.acc.keys(), ...post.acc.keys()])) if (a !== by && un(pre, a) !== un(post, a)) return `unstaked balance of ${a} changed in a call by ${by}`;
    if (UNSTAKES.has(op.call)) {
      // observable: not withdrawable in the next three epochs
      const c = ev.chain, s = c.snapshot(); c.epoch += 3n;
      const can = c.view('is_account_unstaked_balance_available', { account_id: by });
      c.restore(s);
      if (can) return `unstaked balance of ${by} is withdrawable three epochs after unstaking`;
    } else if (known(ev)) {
      for (const [a, v] of pre.raw) { const q = post.raw.get(a); if (q && q.avail < v.avail) return `epoch of ${a} brought forward from ${v.avail} to ${q.avail}`; }
    }
    return null;
  },
  C05(ev) {
    if (!known(ev)) return null;
    const { pre, post, op } = ev;
    const p = op.call === 'ping' ? post : pinged(ev);
    if (!p || p.S === undefined) return null;
    if (!PINGS.has(op.call)) return post.T !== pre.T || post.S !== pre.S ? `${op.call} changed the totals` : null;
    const R = reward(ev);
    if (R < 0n) return 'accepted a decrease of the balance';
    const fee = R * B(pre.fee.numerator) / B(pre.fee.denominator), rem = R - fee;
    const g = R > 0n ? fee * pre.S / (pre.T + rem) : 0n;
    if (p.T !== pre.T + R) return `total staked balance moved by ${p.T - pre.T} on a reward of ${R}`;
    if (p.S !== pre.S + g) return `owner was given ${p.S - pre.S} shares, ${g} are due`;
    for (const a of new Set([...pre.raw.keys(), ...p.raw.keys()])) { const x = raw(pre, a).shares, y = raw(p, a).shares; if (y - x !== (a === pre.owner ? g : 0n)) return `${a}'s shares moved by ${y - x} on a reward`; }
    if (R > 0n && pre.lastEpoch === pre.epoch) return 'reward twice in an epoch';
    if (!STAKES.has(op.call) && !UNSTAKES.has(op.call)) { if (post.T !== p.T || post.S !== p.S) return `${op.call} moved the totals beyond the reward`; }
    if (post.lastEpoch !== pre.epoch) return 'epoch not recorded';
    return null;
  },
  C06(ev) {
    if (!ev.r.ok || !ev.post.init) return null;
    const { pre, post, by, op, r } = ev;
    if (B(post.fee.denominator) === 0n || post.fee.numerator > post.fee.denominator) return `invalid fee ${post.fee.numerator}/${post.fee.denominator}`;
    const stakes = [];
    for (const x of r.receipts) for (const a of x.actions) if (a.type === 'stake') { if (x.receiver !== SELF) return 'stake on another account'; stakes.push({ x, a }); }
    if (pre.init) {
      if (pre.owner !== post.owner) return 'owner changed';
      const ch = pre.key !== post.key || pre.fee.numerator !== post.fee.numerator || pre.fee.denominator !== post.fee.denominator || pre.paused !== post.paused;
      if (by !== pre.owner && ch) return `${by} changed the owner's settings`;
      for (const x of r.receipts) for (const a of x.actions) if (a.type === 'call' && a.method === 'vote') { if (by !== pre.owner || op.call !== 'vote') return 'vote by a non-owner'; if (x.receiver !== ev.args.voting_account_id || JSON.parse(a.args).is_vote !== ev.args.is_vote) return 'wrong vote'; }
      if (['update_staking_key', 'update_reward_fee_fraction', 'vote', 'pause_staking', 'resume_staking'].includes(op.call) && by !== pre.owner) return `${op.call} by ${by}`;
      if (op.call === 'pause_staking' && !(post.paused && !pre.paused && stakes.length === 1 && stakes[0].a.amount === 0n)) return 'pausing did not unstake';
      if (op.call === 'resume_staking' && (post.paused || !pre.paused)) return 'resume did not resume';
      if (op.call === 'update_staking_key' && bareKey(post.key) !== bareKey(ev.args.stake_public_key)) return 'key not updated';
      if (op.call === 'update_reward_fee_fraction' && (post.fee.numerator !== ev.args.reward_fee_fraction.numerator || post.fee.denominator !== ev.args.reward_fee_fraction.denominator)) return 'fee not updated';
      if (op.call === 'on_stake_action') {
        if (by !== SELF) return `callback run by ${by}`;
        const fail = ev.o.results[0] === null && pre.locked > 0n;
        if (fail ? !(stakes.length === 1 && stakes[0].a.amount === 0n && b58(stakes[0].a.key.subarray(1)) === bareKey(pre.key)) : stakes.length) return 'wrong answer to the stake action';
        return null;
      }
      if (op.call === 'vote' && r.receipts.length !== 1) return 'no vote';
    }
    for (const { x, a } of stakes) {
      if (bareKey(post.key) !== b58(a.key.subarray(1))) return 'staked with another key';
      if (post.paused) { if (a.amount !== 0n) return 'staked while paused'; continue; }
      if (a.amount !== post.T) return `asked to stake ${a.amount}, recorded ${post.T}`;
      if (!r.receipts.some((y) => y.after.includes(x.i) && y.receiver === SELF && y.actions.length === 1 && y.actions[0].type === 'call' && y.actions[0].method === 'on_stake_action')) return 'no report asked for a stake action';
    }
    if (!post.paused && (!pre.init || pre.T !== post.T || pre.key !== post.key || (pre.init && pre.paused) || STAKES.has(op.call) || UNSTAKES.has(op.call)) && stakes.length !== 1) return `${stakes.length} stake requests in a call that changes the stake`;
    return null;
  },
  C24(ev) {
    if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
    if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
    return null;
  },
};
// what a caller is entitled to, while the pool has not lost stake
const due = (() => {
  const base = (ev) => { if (!ev.pre.init || ev.pre.S === undefined || reward(ev) < 0n) return null; const p = pinged(ev); return p && p.S !== undefined ? p : null; };
  const ns = (p, a) => a * p.S / p.T, mine = (p, ev) => raw(p, ev.by);
  return {
    C02(ev) {
      const { op, deposit, args } = ev, p = (STAKES.has(op.call) || UNSTAKES.has(op.call)) && base(ev);
      if (!p || (op.call !== 'deposit_and_stake' && deposit !== 0n)) return false;
      const a = mine(p, ev), price = (n) => n * p.T / p.S;
      switch (op.call) {
        case 'deposit_and_stake': return ns(p, deposit) > 0n;
        case 'stake': return B(args.amount) <= a.unstaked && ns(p, B(args.amount)) > 0n;
        case 'stake_all': return ns(p, a.unstaked) > 0n;
        case 'unstake': return B(args.amount) > 0n && B(args.amount) <= price(a.shares);
        case 'unstake_all': return a.shares > 0n;
      }
      return false;
    },
    C04(ev) {
      const { op, pre, deposit, args, chain } = ev;
      if (!['deposit', 'withdraw', 'withdraw_all'].includes(op.call) || !base(ev)) return false;
      if (op.call === 'deposit') return true;
      const a = raw(pre, ev.by), n = op.call === 'withdraw' ? B(args.amount) : a.unstaked;
      return deposit === 0n && n > 0n && n <= a.unstaked && a.avail <= pre.epoch && n <= pre.balance;
    },
    C05(ev) { return ev.op.call === 'ping' && ev.deposit === 0n && ev.pre.init && ev.pre.S !== undefined && reward(ev) >= 0n; },
    C06(ev) {
      const { op, pre, by, deposit, args } = ev;
      if (!pre.init || deposit !== 0n) return false;
      if (op.call === 'on_stake_action') return by === SELF;
      if (by !== pre.owner) return false;
      if (op.call === 'update_reward_fee_fraction' && !(args.reward_fee_fraction.denominator > 0 && args.reward_fee_fraction.numerator <= args.reward_fee_fraction.denominator)) return false;
      if ((op.call === 'pause_staking' && pre.paused) || (op.call === 'resume_staking' && !pre.paused)) return false;
      return ['update_staking_key', 'update_reward_fee_fraction', 'pause_staking', 'resume_staking'].includes(op.call) && !!base(ev);
    },
  };
})();
module.exports = {
  due,
  len: 60, monitors, observe, envSeen: true,
  chain: (cfg) => ({ account: SELF, balance: B(cfg.balance), epoch: 100n }),
  config: (rng) => ({ small: rng.chance(0.6), balance: 0n }),
  start(w) { w.chain.balance = w.cfg.small ? GUARD + 5n : 31n * NEAR; },
  first(w, rng) {
    if (rng.chance(0.15)) return module.exports.step(w, rng);
    return { call: 'new', by: 'x.near', args: newArgs(rng) };
  },
  env(w, s) {
    const c = w.chain;
    if (s.epoch) c.epoch += B(s.epoch);
    if (s.reward) c.locked += B(s.reward);
    if (s.balance) c.balance += B(s.balance);
    if (s.stake !== undefined) { // the stake action of an earlier call takes effect
      const want = B(s.stake), tot = c.balance + c.locked;
      if (want <= tot) { c.locked = want; c.balance = tot - want; }
    }
  },
  step(w, rng) {
    const amt = () => (w.cfg.small ? 1n + rng.big(rng.pick([3n, 30n, 1000n])) : rng.pick([1n + rng.big(1000n), rng.big(10n) * NEAR + rng.big(NEAR), 1n + rng.big(NEAR)]));
    const by = rng.pick(WHO);
    const k = rng.int(100);
    if (k < 14) return { set: { epoch: rng.pick([1, 1, 1, 2, 4]), reward: rng.chance(0.7) ? amt() : 0n } };
    if (k < 18) return { set: { stake: rng.chance(0.5) ? (observe(w).T || 0n) : 0n } };
    if (k < 20) return { set: { balance: amt() } };
    if (k < 32) return { call: 'deposit_and_stake', by, deposit: amt() };
    if (k < 40) return { call: 'deposit', by, deposit: amt() };
    const o = observe(w);
    const a = o.init && o.acc.get(by);
    const near = (x) => { const d = rng.pick([0n, 0n, 0n, 1n, 2n]); return rng.chance(0.5) ? x + d : x > d ? x - d : x; };
    const part = (x) => (x > 0n ? (rng.chance(0.4) ? near(x) : 1n + rng.big(x)) : amt());
    if (k < 46) return { call: 'stake', by, args: { amount: part(a ? a.unstaked : 0n) } };
    if (k < 50) return { call: 'stake_all', by };
    if (k < 62) return { call: 'unstake', by, args: { amount: part(a ? a.staked : 0n) } };
    if (k < 67) return { call: 'unstake_all', by };
    if (k < 74) return { call: 'withdraw', by, args: { amount: part(a ? a.unstaked : 0n) } };
    if (k < 77) return { call: 'withdraw_all', by };
    if (k < 82) return { call: 'ping', by };
    const boss = rng.chance(0.75) ? OWNER : by;
    if (k < 85) return { call: 'pause_staking', by: boss };
    if (k < 89) return { call: 'resume_staking', by: boss };
    if (k < 92) return { call: 'update_reward_fee_fraction', by: boss, args: { reward_fee_fraction: fee(rng) } };
    if (k < 94) return { call: 'update_staking_key', by: boss, args: { stake_public_key: key(rng.int(5)).bare } };
    if (k < 96) return { call: 'vote', by: boss, args: { voting_account_id: 'v.near', is_vote: rng.chance(0.5) } };
    if (k < 99) return { call: 'on_stake_action', by: rng.chance(0.7) ? SELF : by, results: [rng.chance(0.4) ? '' : null] };
    return { call: 'new', by, args: newArgs(rng) };
  },
};
function fee(rng) { return rng.pick([{ numerator: 1, denominator: 10 }, { numerator: 0, denominator: 1 }, { numerator: 2, denominator: 3 }, { numerator: 1, denominator: 1 }, { numerator: 5, denominator: 4 }, { numerator: 1, denominator: 0 }, { numerator: 0, denominator: 0 }, { numerator: 2, denominator: 10 }]); }
function newArgs(rng) { return { owner_id: OWNER, stake_public_key: key(3).bare, reward_fee_fraction: fee(rng) }; }
