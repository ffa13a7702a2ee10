'use strict';
const { key, NEAR } = require('../near.js');
const crypto = require('crypto');
const SELF = 'lock.near', OWNER = 'owner.near', FOUND = 'foundation.near', LIST = 'list.near', POLL = 'poll.near', RESERVE = 35n * NEAR / 10n;
const POOLS = ['pool1.near', 'pool2.near'], WHO = [OWNER, FOUND, 'x.near', POLL, LIST, 'pool1.near'];
const B = (x) => BigInt(x), max = (a, b) => (a > b ? a : b), min = (a, b) => (a < b ? a : b), sub = (a, b) => (a > b ? a - b : 0n);
const U64 = (1n << 64n) - 1n, sat = (a, b) => min(a + b, U64);
const OWNER_OPS = new Set(['select_staking_pool', 'unselect_staking_pool', 'deposit_to_staking_pool', 'deposit_and_stake', 'refresh_staking_pool_balance', 'withdraw_from_staking_pool', 'withdraw_all_from_staking_pool', 'stake', 'unstake', 'unstake_all', 'check_transfers_vote', 'transfer', 'add_full_access_key']);
const FOUND_OPS = new Set(['terminate_vesting', 'termination_prepare_to_withdraw', 'termination_withdraw']);
const QUERY = /^get_account_/;

function observe(w) {
  const c = w.chain;
  if (!c.storage.has('STATE')) return { init: false };
  return { init: true, owner: c.view('get_owner_account_id'), pool: c.view('get_staking_pool_account_id'), dep: B(c.view('get_known_deposited_balance')), status: c.view('get_termination_status'), term: B(c.view('get_terminated_unvested_balance')),
    vest: c.view('get_vesting_information'), on: c.view('are_transfers_enabled'), ts: c.ts, balance: c.balance, flight: w.m.pending.filter((p) => p.pool).length };
}
const sched = (v) => (v ? { s: B(v.start_timestamp), c: B(v.cliff_timestamp), e: B(v.end_timestamp) } : null);
const wellFormed = (v) => v.s <= v.c && v.c <= v.e && v.s < v.e;
function bySchedule(L, v, t) { return t < v.c ? L : t >= v.e ? 0n : L * (v.e - t) / (v.e - v.s); }
// what the agreed terms say, from the arguments of `new` and what happened since
function unvested(m, vest, t, given) {
  if (vest === 'None') return 0n;
  if (vest.Terminating) return B(vest.Terminating.unvested_amount);
  if (vest.VestingSchedule) return bySchedule(m.amount, given || sched(vest.VestingSchedule), t);
  return given ? bySchedule(m.amount, given, t) : 0n;
}
function locked(m, vest, t) {
  const L = m.amount, all = sub(L, m.returned);
  if (m.enabledAt === null) return all;
  const ts = max(sat(m.enabledAt, m.dur), m.lts);
  if (t < ts) return all;
  let un = 0n;
  if (m.rel !== null) { const end = sat(ts, m.rel); un = t >= end ? 0n : L * (end - t) / m.rel; }
  return max(sub(un, m.returned), unvested(m, vest, t));
}
const calls = (r) => r.receipts.flatMap((x) => x.actions.map((a) => ({ x, a, to: x.receiver })));
// the answer to which receipt this callback brings
const pend = (ev) => ev.w.m.pending.find((p) => p.call === ev.op.call && p.raw === ev.op.raw && ev.op.by === SELF);
function times(m, vest, t) {
  const l = [t, t + 1n];
  if (m.enabledAt !== null) { const ts = max(sat(m.enabledAt, m.dur), m.lts); l.push(ts - 1n, ts, ts + 1n); if (m.rel !== null) l.push(sat(ts, m.rel) - 1n, sat(ts, m.rel), sat(ts, m.rel / 2n), sat(ts, m.rel / 3n)); }
  const v = vest.VestingSchedule ? sched(vest.VestingSchedule) : m.secret;
  if (v) l.push(v.s, v.c - 1n, v.c, v.c + 1n, (v.c + v.e) / 2n, v.e - 1n, v.e);
  return [...new Set(l)].filter((x) => x >= t && x < U64).sort((a, b) => (a < b ? -1 : 1));
}
function schedule(ev) {
  const { post, w, chain } = ev, m = w.m;
  if (!post.init) return null;
  const s = chain.snapshot(); let last = null, bad = null;
  const given = post.vest.VestingHash && m.secret ? m.secret : post.vest.VestingSchedule ? sched(post.vest.VestingSchedule) : null;
  for (const t of times(m, post.vest, s.ts)) {
    chain.ts = t;
    const q = chain.peek('get_locked_amount');
    if (q === undefined) { bad = `get_locked_amount fails at ${t}`; break; }
    const L = B(q), x = locked(m, post.vest, t);
    if (L !== x) { bad = `locked amount at ${t} is ${L}, by the terms ${x}`; break; }
    if (L > m.amount) { bad = `locked ${L} of ${m.amount}`; break; }
    if (last !== null && L > last) { bad = `the locked amount grows from ${last} to ${L} at ${t}`; break; }
    last = L;
    const ob = B(chain.view('get_owners_balance'));
    if (ob !== sub(chain.balance + post.dep, L)) { bad = `owner's balance is ${ob} with ${chain.balance} + ${post.dep} and ${L} locked`; break; }
    if (given) {
      const u = chain.peek('get_unvested_amount', { vesting_schedule: { start_timestamp: given.s, cliff_timestamp: given.c, end_timestamp: given.e } });
      const y = unvested(m, post.vest, t, given);
      if (u === undefined || B(u) !== y) { bad = `unvested amount at ${t} is ${u}, by the schedule ${y}`; break; }
      if (y > m.amount) { bad = `unvested ${y} of ${m.amount}`; break; }
    }
  }
  chain.restore(s);
  return bad;
}
const NEXT = { // status -> statuses a successful step may lead to
  none: ['VestingTerminatedWithDeficit', 'ReadyToWithdraw'],
};
const sameVest = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const monitors = {
  C07(ev) { return !ev.r.ok ? null : schedule(ev); },
  C08(ev) {
    const { op, pre, post, r, w } = ev, m = w.m;
    if (!r.ok) return null;
    if (!pre.init) return calls(r).length ? 'receipts at initialisation' : null;
    const L = locked(m, pre.vest, pre.ts), term = pre.status !== null;
    for (const { to, a } of calls(r)) {
      if (a.type === 'transfer') {
        if (op.call === 'transfer' && op.by === OWNER) {
          if (a.amount !== B(op.args.amount) || to !== op.args.receiver_id) return `sent ${a.amount} to ${to}`;
          if (!pre.on) return 'transfer while transfers are disabled';
          if (pre.flight) return 'transfer while a pool operation is in flight';
          if (term) return 'transfer during termination';
          const liquid = min(sub(pre.balance, RESERVE), sub(pre.balance + pre.dep, L));
          if (a.amount <= 0n || a.amount > liquid) return `sent ${a.amount}, liquid and unlocked are ${liquid} (balance ${pre.balance}, deposited ${pre.dep}, locked ${L})`;
        } else if (!(op.call === 'termination_withdraw' && op.by === m.foundation && pre.status === 'ReadyToWithdraw' && to === op.args.receiver_id && a.amount <= pre.term)) return `${op.call} by ${op.by} sent ${a.amount} to ${to}`;
      } else if (a.type === 'call') {
        if (a.deposit > 0n && to !== pre.pool) return `${op.call} sent ${a.deposit} with a call to ${to}`;
        if (a.deposit > 0n && !(op.by === OWNER && ['deposit_to_staking_pool', 'deposit_and_stake'].includes(op.call) && a.deposit === B(op.args.amount) && a.deposit <= sub(pre.balance, RESERVE))) return `${op.call} sent ${a.deposit} to the pool`;
      } else if (a.type === 'add_full_key') {
        if (op.call !== 'add_full_access_key' || op.by !== OWNER || to !== SELF) return `${op.call} by ${op.by} gave out a key of ${to}`;
        if (!pre.on || pre.flight || term || L !== 0n) return `key given out with transfers ${pre.on}, ${pre.flight} in flight, termination ${pre.status}, locked ${L}`;
        if (!a.key.equals(key(op.args.n).raw)) return 'another key';
      } else return `${op.call} created ${a.type}`;
    }
    if (op.call === 'transfer' && calls(r).length !== 1) return 'a transfer sent nothing';
    return null;
  },
  C09(ev) {
    const { op, pre, post, r, w } = ev;
    if (!r.ok || !pre.init) return null;
    if (post.owner !== pre.owner) return 'owner changed';
    const acts = r.changed.length > 0 || calls(r).length > 0;
    if (!acts) return null;
    if (OWNER_OPS.has(op.call)) return op.by === OWNER ? null : `${op.call} by ${op.by}`;
    if (FOUND_OPS.has(op.call)) return op.by === w.m.foundation ? null : `${op.call} by ${op.by}`;
    return op.by === SELF ? null : `${op.call} by ${op.by}`;
  },
  C10(ev) {
    const { op, pre, post, r, w, chain } = ev, m = w.m, p = pend(ev);
    if (!r.ok && !p) return null;
    if (!pre.init) return r.ok && post.init && (post.pool !== null || post.dep !== 0n) ? 'a pool is selected from the start' : null;
    if (r.ok) for (const { x, to, a } of calls(r)) {
      if (a.type !== 'call') continue;
      if (to === SELF) continue;
      if (a.method === 'is_whitelisted') { if (to !== m.list || a.deposit || JSON.parse(a.args).staking_pool_account_id !== op.args.staking_pool_account_id) return `asked ${to} whether another pool is whitelisted`; continue; }
      if (a.method === 'get_result' && to === m.poll) { if (a.deposit) return 'paid the poll'; continue; }
      if (to !== pre.pool) return `${op.call} called ${a.method} of ${to}, the selected pool is ${pre.pool}`;
      if (pre.flight - (p && p.pool ? 1 : 0) > 0) return `${op.call} called the pool while another operation was in flight`;
    }
    if (pre.pool !== post.pool) {
      if (pre.pool === null) { if (!p || p.method !== 'is_whitelisted' || p.to !== m.list || p.args.staking_pool_account_id !== post.pool || op.results[0] !== 'true') return `${post.pool} selected without being whitelisted`; } else if (!(op.call === 'unselect_staking_pool' && op.by === OWNER && post.pool === null && pre.dep === 0n && !pre.flight)) return `the pool changed from ${pre.pool} to ${post.pool} in ${op.call}`;
      if (post.dep !== 0n) return 'a deposit at a new pool';
      return null;
    }
    let dep = pre.dep;
    const good = p && op.results[0] !== null;
    if (p && p.pool && good) {
      if (p.method === 'deposit' || p.method === 'deposit_and_stake') dep += p.deposit;
      else if (p.method === 'withdraw') dep = sub(dep, B(p.args.amount));
      else if (p.method === 'get_account_total_balance') dep = B(JSON.parse(op.results[0]));
    }
    if (post.dep !== dep) return `the recorded deposit is ${post.dep}, expected ${dep} after ${p ? p.method : op.call} ${good ? 'succeeded' : 'failed'}`;
    if (p && p.pool && !(QUERY.test(p.method) && !good)) { // settled: the next operation can start
      if (!r.ok) return `the result of ${p.method} was not taken: ${r.panic}`;
      const left = m.pending.filter((x) => x.pool && x !== p).length + calls(r).filter(({ to }) => to === pre.pool).length;
      if (!left && (post.status === null || ['VestingTerminatedWithDeficit', 'EverythingUnstaked'].includes(post.status))) {
        const s = chain.snapshot();
        const q = post.status === null ? chain.call('refresh_staking_pool_balance', {}, { by: OWNER }) : chain.call('termination_prepare_to_withdraw', {}, { by: m.foundation });
        chain.restore(s);
        if (!q.ok) return `${p.method} ${good ? 'succeeded' : 'failed'} and the next operation cannot start: ${q.panic}`;
      }
    }
    return null;
  },
  C11(ev) {
    const { op, pre, post, r, w } = ev, m = w.m, p = pend(ev);
    if (!r.ok || !pre.init) return null;
    const good = p && op.results[0] !== null, t = calls(r);
    const A = pre.status, Z = post.status, pool = pre.pool;
    const went = (...l) => l.includes(Z);
    if (op.call === 'terminate_vesting') {
      const v = pre.vest.VestingSchedule ? sched(pre.vest.VestingSchedule) : pre.vest.VestingHash ? sched(op.args.vesting_schedule_with_salt.vesting_schedule) : null;
      if (op.by !== m.foundation || A !== null || !v) return `terminated by ${op.by} at ${A}`;
      if (pre.vest.VestingHash && hash(op.args.vesting_schedule_with_salt) !== pre.vest.VestingHash) return 'terminated with another schedule';
      const u = bySchedule(m.amount, v, pre.ts);
      if (u === 0n) return 'terminated with nothing unvested';
      if (post.term !== u) return `the unvested amount is fixed at ${post.term}, it is ${u}`;
      const deficit = sub(u, sub(pre.balance, RESERVE));
      if (!went(deficit > 0n && pool !== null ? 'VestingTerminatedWithDeficit' : 'ReadyToWithdraw')) return `termination starts at ${Z} with a deficit of ${deficit}`;
      return null;
    }
    if (A === null) return Z !== null ? `termination started by ${op.call}` : !sameVest(pre.vest, post.vest) ? `${op.call} changed the vesting terms` : null;
    const tr = t.filter(({ a }) => a.type === 'transfer');
    if (op.call === 'termination_withdraw') {
      if (A !== 'ReadyToWithdraw' || op.by !== m.foundation) return `withdrawal by ${op.by} at ${A}`;
      if (tr.length !== 1 || tr[0].to !== op.args.receiver_id || tr[0].a.amount <= 0n || tr[0].a.amount > pre.term) return `withdrew ${tr.map((x) => x.a.amount + ' to ' + x.to)} of ${pre.term}`;
      return !went('WithdrawingFromAccountInProgress') || post.term !== pre.term ? `a withdrawal leads to ${Z} with ${post.term}` : null;
    }
    if (tr.length) return `${op.call} transferred ${tr[0].a.amount}`;
    if (p && p.transfer !== undefined) {
      const rest = good ? pre.term - p.transfer : pre.term;
      if (rest === 0n) return post.vest === 'None' && Z === null ? null : 'everything is returned and termination is not over';
      return post.term !== rest || !went('ReadyToWithdraw') ? `${post.term} remains at ${Z} after ${good ? p.transfer + ' of' : 'failing to return'} ${pre.term}` : null;
    }
    if (post.term !== pre.term) return `${op.call} changed the unvested amount from ${pre.term} to ${post.term}`;
    if (Z === A) return null;
    if (op.call === 'termination_prepare_to_withdraw') return (A === 'VestingTerminatedWithDeficit' && Z === 'UnstakingInProgress') || (A === 'EverythingUnstaked' && Z === 'WithdrawingFromStakingPoolInProgress') ? null : `prepared from ${A} to ${Z}`;
    if (!p) return `${op.call} moved termination from ${A} to ${Z}`;
    const nothing = QUERY.test(p.method) && good && B(JSON.parse(op.results[0])) === 0n && !t.length;
    if (A === 'UnstakingInProgress') {
      if (Z === 'EverythingUnstaked' && ((p.method === 'unstake' && good) || (p.method === 'get_account_staked_balance' && nothing))) return null;
      if (Z === 'VestingTerminatedWithDeficit' && p.method === 'unstake' && !good) return null;
    }
    if (A === 'WithdrawingFromStakingPoolInProgress') {
      if (Z === 'ReadyToWithdraw' && ((p.method === 'withdraw' && good) || (p.method === 'get_account_unstaked_balance' && nothing))) return null;
      if (Z === 'EverythingUnstaked' && p.method === 'withdraw' && !good) return null;
    }
    return `${p.method} ${good ? 'succeeded' : 'failed'} and moved termination from ${A} to ${Z}`;
  },
  C12(ev) {
    const { op, pre, post, r, w } = ev, m = w.m, p = pend(ev);
    if (!r.ok || !post.init) return null;
    if (!pre.init) return schedule(ev);
    if (pre.on && !post.on) return 'transfers disabled';
    if (!pre.on && post.on) {
      if (!p || p.method !== 'get_result' || p.to !== m.poll || op.results[0] === null || op.results[0] === 'null') return `transfers enabled by ${op.call}`;
    } else if (!pre.on && p && p.method === 'get_result' && op.results[0] !== null && op.results[0] !== 'null') return 'the answer of the poll was ignored';
    if (op.call !== 'terminate_vesting' && pre.status === null && !sameVest(pre.vest, post.vest)) return `${op.call} changed the vesting terms`;
    return schedule(ev);
  },
  C24(ev) {
    if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
    if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
    return null;
  },
};
// what a caller is entitled to.  m.stuck: a failed balance query left the pool marked busy (see KNOWN_FINDINGS.json)
const due = (() => {
  const owner = (ev) => ev.pre.init && ev.by === OWNER && ev.deposit === 0n && ev.pre.status === null;
  const found = (ev) => ev.pre.init && ev.w.m.foundation !== null && ev.by === ev.w.m.foundation && ev.deposit === 0n;
  const idle = (ev) => ev.pre.pool !== null && !ev.pre.flight && !ev.w.m.stuck, busy = (ev) => ev.pre.pool !== null && (ev.pre.flight > 0 || ev.w.m.stuck);
  const liquid = (ev) => sub(ev.pre.balance, RESERVE), good = (p, ev) => p && ev.op.results[0] !== null && ev.op.results[0] !== '';
  return {
    C08(ev) {
      const { op, pre, w } = ev;
      if (!['transfer', 'add_full_access_key'].includes(op.call) || !owner(ev) || !pre.on || busy(ev)) return false;
      const L = locked(w.m, pre.vest, pre.ts);
      return op.call === 'add_full_access_key' ? L === 0n : B(op.args.amount) > 0n && B(op.args.amount) <= min(sub(pre.balance + pre.dep, L), liquid(ev));
    },
    C10(ev) {
      const { op, pre } = ev, p = pend(ev), n = op.args && op.args.amount !== undefined ? B(op.args.amount) : 0n;
      if (p) return p.method === 'is_whitelisted' && good(p, ev) && op.results[0] === 'true' && pre.pool === null && pre.status === null;
      if (!owner(ev)) return false;
      switch (op.call) {
        case 'select_staking_pool': return pre.pool === null;
        case 'unselect_staking_pool': return idle(ev) && pre.dep === 0n;
        case 'deposit_to_staking_pool': case 'deposit_and_stake': return idle(ev) && n > 0n && n <= liquid(ev);
        case 'refresh_staking_pool_balance': case 'withdraw_all_from_staking_pool': case 'unstake_all': return idle(ev);
        case 'withdraw_from_staking_pool': case 'stake': case 'unstake': return idle(ev) && n > 0n;
      }
      return false;
    },
    C11(ev) {
      const { op, pre, w } = ev, m = w.m, p = pend(ev);
      if (p) return good(p, ev) && pre.status === { get_account_staked_balance: 'UnstakingInProgress', get_account_unstaked_balance: 'WithdrawingFromStakingPoolInProgress' }[p.method];
      if (!found(ev)) return false;
      if (op.call === 'termination_prepare_to_withdraw') return idle(ev) && ['VestingTerminatedWithDeficit', 'EverythingUnstaked'].includes(pre.status);
      if (op.call === 'termination_withdraw') return pre.status === 'ReadyToWithdraw' && min(pre.term, liquid(ev)) > 0n;
      if (op.call !== 'terminate_vesting') return false;
      const g = op.args.vesting_schedule_with_salt;
      if (pre.vest.VestingSchedule) return g === null && bySchedule(m.amount, sched(pre.vest.VestingSchedule), pre.ts) > 0n;
      return !!pre.vest.VestingHash && g !== null && hash(g) === pre.vest.VestingHash && wellFormed(sched(g.vesting_schedule)) && bySchedule(m.amount, sched(g.vesting_schedule), pre.ts) > 0n;
    },
    C12(ev) {
      const { op, pre } = ev, p = pend(ev);
      return p ? p.method === 'get_result' && good(p, ev) && !pre.on : op.call === 'check_transfers_vote' && owner(ev) && !pre.on;
    },
  };
})();
// what the history has established so far; runs before the monitors
function note(w, ev) {
  const { op, r, pre } = ev, m = w.m;
  if (op.call === 'new' && r.ok && !pre.init) {
    const a = op.args, t = a.transfers_information;
    Object.assign(m, { amount: pre.balanceNow, dur: B(a.lockup_duration), lts: a.lockup_timestamp === null ? 0n : B(a.lockup_timestamp), rel: a.release_duration === null ? null : B(a.release_duration), returned: 0n,
      enabledAt: t.TransfersEnabled ? B(t.TransfersEnabled.transfers_timestamp) : null, poll: t.TransfersDisabled ? t.TransfersDisabled.transfer_poll_account_id : null, list: a.staking_pool_whitelist_account_id, foundation: a.foundation_account_id, secret: op.secret && wellFormed(sched(op.secret)) ? sched(op.secret) : null });
  }
  const p = pend(ev);
  if (p && r.ok && op.results[0] !== null) {
    if (p.method === 'get_result' && op.results[0] !== 'null' && m.enabledAt === null) m.enabledAt = B(JSON.parse(op.results[0]));
    if (p.transfer !== undefined) m.returned += p.transfer;
  }
}
function after(w, ev) {
  const { op, r, pre } = ev, m = w.m, p = pend(ev);
  if (p) m.pending.splice(m.pending.indexOf(p), 1);
  if (p && p.pool && (!r.ok || (QUERY.test(p.method) && op.results[0] === null))) m.stuck = true;
  if (!r.ok) return;
  if (p && p.transfer !== undefined && ev.post.vest === 'None') m.foundation = null;
  for (const x of r.receipts) for (const a of x.actions) {
    if (x.receiver !== SELF || a.type !== 'call') continue;
    const d = r.receipts[x.after[0]], da = d && d.actions[0];
    let args = {}; try { args = JSON.parse(da.args); } catch (e) { /* none */ }
    m.pending.push({ call: a.method, raw: a.args.toString(), to: d && d.receiver, method: da && da.type === 'call' ? da.method : undefined, args, deposit: da && da.type === 'call' ? da.deposit : 0n, transfer: da && da.type === 'transfer' ? da.amount : undefined, pool: !!d && pre.init && d.receiver === pre.pool && da.type === 'call' });
  }
}
for (const k of Object.keys(monitors)) { const f = monitors[k]; monitors[k] = (ev) => { if (!ev.pre.init) ev.pre.balanceNow = ev.snap.balance; note(ev.w, ev); return f(ev); }; }
function hash(v) {
  const b = Buffer.alloc(28), salt = Buffer.from(v.salt, 'base64'), s = v.vesting_schedule;
  b.writeBigUInt64LE(B(s.start_timestamp), 0); b.writeBigUInt64LE(B(s.cliff_timestamp), 8); b.writeBigUInt64LE(B(s.end_timestamp), 16); b.writeUInt32LE(salt.length, 24);
  return crypto.createHash('sha256').update(Buffer.concat([b, salt])).digest('base64');
}
const T0 = 1600000000000000000n, SALT = Buffer.from('salt').toString('base64');
function newOp(rng, term) {
  const span = () => rng.pick([0n, 1n, 3n, 1000n, rng.big(2000n)]);
  const s = T0 + rng.big(2000n) - 1000n, c = s + span(), e = c + rng.pick(term ? [20000n, 20000n + rng.big(9000n), 1000n] : [0n, 1n, 7n, 1000n, rng.big(2000n)]);
  const v = { start_timestamp: s, cliff_timestamp: rng.chance(0.03) ? s - 5n : c, end_timestamp: e }, kind = term ? 1 + rng.int(2) : rng.int(3);
  return { call: 'new', by: 'factory.near', secret: kind === 1 ? v : undefined, args: {
    owner_account_id: OWNER, lockup_duration: span(), lockup_timestamp: rng.pick([null, T0 + rng.big(1500n), T0 - 5n]), transfers_information: rng.chance(0.7) ? { TransfersEnabled: { transfers_timestamp: T0 - rng.big(500n) } } : { TransfersDisabled: { transfer_poll_account_id: POLL } },
    vesting_schedule: kind === 0 ? null : kind === 1 ? { VestingHash: hash({ vesting_schedule: v, salt: SALT }) } : { VestingSchedule: v }, release_duration: rng.pick([null, 0n, 1n, 7n, 1000n, rng.big(3000n)]), staking_pool_whitelist_account_id: LIST, foundation_account_id: kind === 0 ? null : FOUND } };
}
const model = module.exports = {
  len: 60, monitors, due, observe, after, noCache: true,
  unreal: (ev) => ev.op.by === SELF && !pend(ev), // the contract calls itself only through its own receipts
  chain: (cfg) => ({ account: SELF, balance: B(cfg.balance), ts: T0 }),
  config: (rng) => ({ term: rng.chance(0.35), balance: rng.pick([0n, 35n, 36n, 40n, 100n, 100n, 200n, 1000n]) * NEAR / 10n + rng.pick([0n, 1n, rng.big(NEAR)]) }),
  start(w) { w.m = { pending: [], foundation: null, secret: null }; w.g = { staked: 0n, unstaked: 0n }; },
  first(w, rng) { return rng.chance(0.05) ? model.step(w, rng) : newOp(rng, w.cfg.term); },
  step(w, rng) {
    const m = w.m, g = w.g, c = w.chain, k = rng.int(100), o = observe(w);
    if (m.pending.length && k < 45) {
      const p = rng.pick(m.pending), ok = rng.chance(p.method && QUERY.test(p.method) ? 0.97 : 0.75);
      const op = { call: p.call, by: SELF, signer: OWNER, raw: p.raw, results: [ok ? '' : null] };
      if (p.method === 'is_whitelisted') op.results = [ok ? rng.pick(['true', 'true', 'false']) : null];
      else if (p.method === 'get_result') op.results = [ok ? rng.pick(['null', JSON.stringify(String(c.ts - rng.big(50n)))]) : null];
      else if (p.method === 'get_account_total_balance') op.results = [ok ? JSON.stringify(String(g.staked + g.unstaked)) : null];
      else if (p.method === 'get_account_staked_balance') op.results = [ok ? JSON.stringify(String(g.staked)) : null];
      else if (p.method === 'get_account_unstaked_balance') op.results = [ok ? JSON.stringify(String(g.unstaked)) : null];
      else if (p.method === 'deposit' || p.method === 'deposit_and_stake') { if (ok) { if (p.method === 'deposit') g.unstaked += p.deposit; else g.staked += p.deposit; if (rng.chance(0.3)) g.staked += rng.big(NEAR); } else op.credit = p.deposit; }
      else if (p.method === 'withdraw') { const a = B(p.args.amount); if (a > g.unstaked) op.results = [null]; else if (ok) { g.unstaked -= a; op.credit = a; } }
      else if (p.method === 'stake') { const a = B(p.args.amount); if (a > g.unstaked) op.results = [null]; else if (ok) { g.unstaked -= a; g.staked += a; } }
      else if (p.method === 'unstake') { const a = B(p.args.amount); if (a > g.staked) op.results = [null]; else if (ok) { g.staked -= a; g.unstaked += a; } }
      else if (p.method === 'unstake_all') { if (ok) { g.unstaked += g.staked; g.staked = 0n; } }
      else if (p.transfer !== undefined) { if (!ok || p.to === SELF) op.credit = p.transfer; }
      return op;
    }
    if (w.cfg.term && o.init && rng.chance(0.6)) { // towards a termination that has to fetch tokens from the pool
      const boss = { by: OWNER }, poor = sub(c.balance, RESERVE) === 0n;
      if (o.status === null && o.pool === null && !m.pending.length) return { ...boss, call: 'select_staking_pool', args: { staking_pool_account_id: POOLS[0] } };
      if (o.status === null && o.pool !== null && !o.flight && !poor) return { ...boss, call: rng.pick(['deposit_and_stake', 'deposit_and_stake', 'deposit_to_staking_pool']), args: { amount: rng.chance(0.6) ? sub(c.balance, RESERVE) : 1n + rng.big(sub(c.balance, RESERVE)) } };
      if (o.status !== null && !o.flight && o.status !== 'WithdrawingFromAccountInProgress') return { by: FOUND, call: o.status === 'ReadyToWithdraw' ? 'termination_withdraw' : 'termination_prepare_to_withdraw', args: o.status === 'ReadyToWithdraw' ? { receiver_id: rng.pick(['home.near', SELF, FOUND]) } : {} };
    }
    if (k < 55) return { set: rng.chance(0.8) ? { '+ts': rng.pick([1n, 7n, 100n, rng.big(800n), 1000n]) } : { '+balance': rng.pick([1n, NEAR, rng.big(NEAR)]) } };
    const some = (x) => rng.pick([1n, x, x > 0n ? 1n + rng.big(x) : 1n, x + 1n, x > 1n ? x - 1n : 1n, x / 2n]);
    const signer = rng.pick([undefined, OWNER, FOUND]);
    const who = (x) => (rng.chance(0.85) ? x : rng.pick(WHO));
    const free = sub(c.balance, RESERVE);
    if (k < (w.cfg.term ? 74 : 88)) {
      const by = who(OWNER), call = rng.pick(o.init && o.pool === null ? ['select_staking_pool', 'select_staking_pool', 'transfer', 'check_transfers_vote', 'add_full_access_key', 'stake'] : w.cfg.term ? ['deposit_and_stake', 'deposit_and_stake', 'deposit_to_staking_pool', 'unstake', 'unselect_staking_pool'] : [...OWNER_OPS, 'transfer', 'transfer', 'deposit_and_stake']);
      if (w.cfg.term && /^deposit/.test(call)) return { call, by, signer, args: { amount: rng.chance(0.6) ? free : some(free) } };
      let args = {};
      if (call === 'select_staking_pool') args = { staking_pool_account_id: rng.pick(POOLS) };
      else if (call === 'transfer') { const lq = o.init ? B(c.peek('get_liquid_owners_balance') || 0) : 0n; args = { amount: some(rng.chance(0.7) ? lq : free), receiver_id: rng.pick(['r.near', OWNER, 'pool1.near', SELF, FOUND]) }; }
      else if (call === 'add_full_access_key') { const n = rng.int(3); args = { new_public_key: key(n).bare, n }; }
      else if (/^deposit/.test(call)) args = { amount: some(free) };
      else if (call === 'withdraw_from_staking_pool' || call === 'stake') args = { amount: some(g.unstaked) };
      else if (call === 'unstake') args = { amount: some(g.staked) };
      return { call, by, signer, args };
    }
    if (k < 97) {
      const by = who(FOUND), st = o.init ? o.status : null;
      const call = st === null ? rng.pick(['terminate_vesting', 'terminate_vesting', 'termination_withdraw']) : rng.chance(0.1) ? rng.pick([...FOUND_OPS]) : st === 'ReadyToWithdraw' ? 'termination_withdraw' : 'termination_prepare_to_withdraw';
      if (call === 'terminate_vesting') { const v = o.init && o.vest.VestingHash && m.secret && rng.chance(0.9) ? { start_timestamp: m.secret.s, cliff_timestamp: m.secret.c, end_timestamp: rng.chance(0.9) ? m.secret.e : m.secret.e + 1n } : null; return { call, by, signer, args: { vesting_schedule_with_salt: v ? { vesting_schedule: v, salt: SALT } : null } }; }
      return { call, by, signer, args: call === 'termination_withdraw' ? { receiver_id: rng.pick(['home.near', FOUND, SELF, OWNER]) } : {} };
    }
    if (k < 99) { const call = rng.pick([...w.chain.exports].filter((x) => /^on_/.test(x))); return { call, by: rng.pick(WHO), signer: SELF, args: { amount: '1', receiver_id: 'x.near', staking_pool_account_id: 'evil.near' }, results: [rng.pick([null, '"1"', 'true', 'null'])] }; }
    return newOp(rng);
  },
};
