'use strict';
const B = (x) => BigInt(x);
const WHO = ['v0.near', 'v1.near', 'v2.near', 'v3.near', 'x.near'];
function observe(w) {
  const c = w.chain;
  if (!c.storage.has('STATE')) return { init: false };
  const votes = new Map(Object.entries(c.view('get_votes')).map(([a, b]) => [a, B(b)]));
  return { init: true, votes, tally: B(c.view('get_total_voted_stake')[0]), result: c.view('get_result'), vals: c.validators, epoch: c.epoch, ts: c.ts };
}
const eq = (a, b) => a.size === b.size && [...a].every(([k, v]) => b.get(k) === v);
const text = (m) => [...m].map(([a, b]) => `${a}:${b}`).sort().join();
const monitors = {
  C17(ev) {
    const { op, pre, post, r, w } = ev;
    if (!r.ok || !post.init) return null;
    const sum = (m) => { let s = 0n; for (const v of m.values()) s += v; return s; };
    if (!pre.init) return post.votes.size || post.tally !== 0n || post.result !== null ? 'a new poll has votes or a result' : null;
    if (pre.result !== null) return !eq(pre.votes, post.votes) || pre.tally !== post.tally || pre.result !== post.result ? 'the poll changed after it ended' : null;
    if (post.tally !== sum(post.votes)) return `tally is ${post.tally}, the votes add up to ${sum(post.votes)}`;
    if (op.call !== 'vote' && op.call !== 'ping') return !eq(pre.votes, post.votes) || post.result !== null ? `${op.call} changed the poll` : null;
    const stake = (a) => pre.vals.get(a) || 0n, total = sum(pre.vals), over = (t) => 3n * t > 2n * total;
    let votes = new Map(pre.votes), result = null;
    if (pre.epoch !== w.m.epoch) {
      votes = new Map([...votes.keys()].map((a) => [a, stake(a)]).filter(([, s]) => s > 0n));
      if (over(sum(votes))) result = String(pre.ts);
    }
    if (op.call === 'vote' && result === null) {
      votes.delete(op.by);
      if (op.args.is_vote) { if (stake(op.by) === 0n) return `${op.by} voted without stake`; votes.set(op.by, stake(op.by)); if (over(sum(votes))) result = String(pre.ts); }
    }
    if (!eq(votes, post.votes)) return `votes are ${text(post.votes)}, expected ${text(votes)}`;
    if (post.result !== result) return `result is ${post.result}, expected ${result} (tally ${sum(votes)} of ${total})`;
    return null;
  },
  C24(ev) {
    if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
    if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
    return null;
  },
};
const due = {
  C17({ op, pre }) { return pre.init && pre.result === null && (op.call === 'ping' || (op.call === 'vote' && (!op.args.is_vote || (pre.vals.get(op.by) || 0n) > 0n))); },
};
const stakes = (rng) => { const v = {}; for (let i = 0; i < 4; i++) if (rng.chance(0.8)) v['v' + i + '.near'] = rng.chance(0.6) ? 1n + rng.big(9n) : 1n + rng.big(10n ** 27n); return v; };
const model = module.exports = {
  len: 30, monitors, due, observe, envSeen: true,
  chain: (cfg) => ({ account: 'poll.near', epoch: B(cfg.epoch) }),
  config: (rng) => ({ epoch: rng.int(3), v: stakes(rng) }),
  start(w) { w.m = { epoch: 0n }; w.chain.validators = new Map(Object.entries(w.cfg.v).map(([a, b]) => [a, B(b)])); },
  env(w, s) { const c = w.chain; c.ts += B(s.ts); if (s.v) { c.epoch += 1n; c.validators = new Map(Object.entries(s.v).map(([a, b]) => [a, B(b)])); } },
  after(w, ev) { if (ev.r.ok && (ev.op.call === 'vote' || ev.op.call === 'ping')) w.m.epoch = ev.pre.epoch; },
  first: (w, rng) => (rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near' }),
  step(w, rng) {
    const k = rng.int(100);
    if (k < 8) return { set: { ts: rng.int(1000) } };
    if (k < 28) return { set: { ts: 1 + rng.int(1000), v: stakes(rng) } };
    if (k < 40) return { call: 'ping', by: rng.pick(WHO) };
    if (k < 97) return { call: 'vote', by: rng.pick(WHO), args: { is_vote: rng.chance(0.7) } };
    return { call: 'new', by: 'x.near' };
  },
};
