'use strict';
// Shared by the three factories.
const fs = require('fs'), path = require('path'), crypto = require('crypto');
const { key, NEAR } = require('../near.js');
const B = (x) => BigInt(x);
const bare = (s) => (typeof s === 'string' && s.startsWith('ed25519:') ? s.slice(8) : s);
function canon(x) { if (Array.isArray(x)) return x.map(canon); if (x && typeof x === 'object') { const o = {}; for (const k of Object.keys(x).sort()) if (x[k] !== null && x[k] !== undefined) o[k] = canon(x[k]); return o; } return bare(x); }
const same = (a, b) => JSON.stringify(canon(a)) === JSON.stringify(canon(b));
const validId = (s) => typeof s === 'string' && s.length >= 2 && s.length <= 64 && /^(([a-z\d]+[-_])*[a-z\d]+\.)*([a-z\d]+[-_])*[a-z\d]+$/.test(s);
const codes = new Map();
const pinned = (w, f) => { const p = path.join(w.repo || '/repo', f); if (!codes.has(p)) codes.set(p, fs.readFileSync(p)); return codes.get(p); };
// The one account creation a successful call asks for; a complaint or null.
function created(ev, account, code, args, selfCallback) {
  const vis = ev.r.receipts.filter((x) => x.actions.length), self = ev.chain.account;
  const main = vis.filter((x) => x.receiver === account);
  if (main.length !== 1 || main[0].after.length) return `${main.length} receipts create ${account}`;
  const t = main[0].actions.map((a) => a.type);
  if (t.length !== 4 || t[0] !== 'create_account' || t[3] !== 'call' || t.slice(1, 3).sort().join() !== 'deploy,transfer') return `${account} is created with ${t}`;
  for (const a of main[0].actions) {
    if (a.type === 'transfer' && a.amount !== ev.deposit) return `${account} is given ${a.amount} of ${ev.deposit}`;
    if (a.type === 'deploy' && !a.code.equals(code)) return 'other code is deployed';
    if (a.type === 'call') {
      if (a.method !== 'new' || a.deposit !== 0n) return `initialised with ${a.method} and ${a.deposit}`;
      let got; try { got = JSON.parse(a.args); } catch (e) { return 'initialised with broken arguments'; }
      if (!same(got, args)) return `initialised with ${JSON.stringify(got)}, requested ${JSON.stringify(args)}`;
    }
  }
  const rest = vis.filter((x) => x !== main[0]);
  if (!selfCallback) return rest.length ? `other receipts to ${rest.map((x) => x.receiver)}` : null;
  if (rest.length !== 1 || rest[0].receiver !== self || rest[0].after.join() !== String(main[0].i) || rest[0].actions.length !== 1 || rest[0].actions[0].type !== 'call' || rest[0].actions[0].deposit !== 0n) return 'the outcome is not reported to the factory exactly once';
  return null;
}
// the callback a creation asked for, as an operation template
function callback(ev) {
  for (const x of ev.r.receipts) if (x.receiver === ev.chain.account && x.actions.length === 1 && x.actions[0].type === 'call') return { method: x.actions[0].method, args: x.actions[0].args.toString() };
  return null;
}
const C24 = (ev) => {
  if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
  if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
  return null;
};
const transfers = (r) => r.receipts.flatMap((x) => x.actions.map((a) => ({ to: x.receiver, a })));
module.exports = { B, bare, same, validId, pinned, created, callback, C24, transfers, key, NEAR, crypto };
