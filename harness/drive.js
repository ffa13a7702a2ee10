// drive.js MODEL PROP SEED SECONDS OUT WASM_DIR [REPO]: seeded random call histories on the compiled contract, watched by the
// monitors of one property.  Exit 1: a failing history was found (written to OUT, shrunk).  Exit 0: none within the budget.
'use strict';
const fs = require('fs'), path = require('path');
const { Chain, Rng, show, mine } = require('./near.js');
const [model, prop, seed0, secs, out, wasmDir, repo] = process.argv.slice(2);
const M = require('./models/' + model + '.js');
const mon = M.monitors[prop];
mine(path.join(repo || '/repo', model, 'src'));
if (!mon) { console.log(`no monitor for ${prop} in ${model}`); process.exit(3); }

const pkbuf = (h) => (h ? Buffer.from(h, 'hex') : undefined);

class World {
  constructor(cfg) {
    this.cfg = cfg; // JSON-able initial configuration
    this.chain = new Chain(path.join(wasmDir, (M.wasm ? M.wasm(cfg) : model) + '.wasm'), M.chain(cfg));
    this.g = {}; // generator's own notes
    this.m = {}; // monitors' own notes
    this.repo = repo;
    if (M.start) M.start(this);
  }
  // One operation; returns a complaint or null.
  exec(op) {
    // a view of an initialised contract always answers
    try { return this.exec1(op); } catch (e) { if (/^view /.test(e.message)) return e.message; throw e; }
  }
  exec1(op) {
    const c = this.chain;
    if (op.look) { M.observe(this); return null; }
    if (op.set) { if (M.envSeen) this.seen = null; M.env ? M.env(this, op.set) : setEnv(c, op.set); return null; }
    const w = this;
    if (op.credit) c.balance += BigInt(op.credit); // a refund or payment that arrives with the promise result
    const pre = (!M.noCache && this.seen) || (M.observe ? M.observe(w) : null);
    const snap = c.snapshot();
    const o = { by: op.by, signer: op.signer, pk: pkbuf(op.pk), deposit: op.deposit ? BigInt(op.deposit) : 0n, results: (op.results || []).map((x) => (x === null ? null : Buffer.from(x))), gas: op.gas ? BigInt(op.gas) : undefined };
    const r = c.call(op.call, op.raw !== undefined ? op.raw : op.args === undefined ? {} : op.args, o);
    const post = M.observe ? (r.ok || M.noCache ? M.observe(w) : pre) : null;
    this.seen = post;
    this.last = r;
    let bad = null;
    const ev = { op, o, r, pre, post, snap, chain: c, w, args: op.args || {}, by: op.by, deposit: o.deposit };
    if (!r.ok && c.storage.size !== snap.storage.size) throw new Error('rollback');
    bad = M.unreal && M.unreal(ev) ? ((this.dead = true), null) : mon(ev) || refused(ev) || stuck(ev);
    if (M.after) M.after(w, ev);
    return bad;
  }
}
// What the caller is entitled to must not be refused: the model's `due` says when, with the same conditions as the @nopanic
// entries of the contracts.
function refused(ev) {
  const d = !ev.r.ok && M.due && M.due[prop];
  return d && d(ev) ? `${ev.op.call} by ${ev.op.by} was due and is refused: ${ev.r.panic}` : null;
}
// Calls the contract sends on its own account must get gas enough to start, and no more than can be attached.
const SENDS = { 'staking-pool': ['C06'], lockup: ['C10', 'C11', 'C12'], 'staking-pool-factory': ['C19'], 'lockup-factory': ['C20'] };
function stuck(ev) {
  if (!ev.r.ok || !(SENDS[model] || []).includes(prop)) return null;
  for (const x of ev.r.receipts) for (const a of x.actions) if (a.type === 'call' && (a.gas < 5n * 10n ** 12n || a.gas > 3n * 10n ** 14n)) return `${a.method} on ${x.receiver} is sent with ${a.gas} gas: it cannot run`;
  const me = ev.chain.account, given = (ev.w.given = ev.w.given || {});
  const out = ev.r.receipts.reduce((t, x) => t + x.actions.reduce((u, a) => u + (a.type === 'call' ? a.gas : 0n), 0n), 0n);
  const has = ev.by === me && given[ev.op.call] !== undefined ? given[ev.op.call] : 3n * 10n ** 14n;
  if (out + 5n * 10n ** 12n > has) return `${ev.op.call} is given ${has} gas and sends calls with ${out} gas: it cannot finish`;
  for (const x of ev.r.receipts) if (x.receiver === me) for (const a of x.actions) if (a.type === 'call' && !(given[a.method] < a.gas)) given[a.method] = a.gas;
  return null;
}
function setEnv(c, s) {
  for (const k of ['ts', 'height', 'epoch', 'balance', 'locked']) if (s[k] !== undefined) c[k] = BigInt(s[k]);
  for (const k of ['ts', 'height', 'epoch', 'balance', 'locked']) if (s['+' + k] !== undefined) c[k] += BigInt(s['+' + k]);
  if (s.validators) c.validators = new Map(Object.entries(s.validators).map(([a, b]) => [a, BigInt(b)]));
}
const norm = (x) => JSON.parse(JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? v.toString() : v)));

function replay(cfg, ops) {
  const w = new World(cfg);
  for (let i = 0; i < ops.length; i++) {
    let b;
    try { b = w.exec(ops[i]); } catch (e) { if (e.monitorSkip) return null; throw e; }
    if (b) return { i, b };
    if (w.dead) return null;
  }
  return null;
}

const hits = new Map(); // successful calls per method
let calls = 0, histories = 0, oks = 0;
const end = Date.now() + Number(secs) * 1000;
let n = 0;
while (Date.now() < end) {
  const rng = new Rng(BigInt(seed0) * 1000003n + BigInt(n++));
  const cfg = norm(M.config(rng));
  const w = new World(cfg);
  const ops = [];
  histories++;
  const len = 5 + rng.int(M.len || 40);
  for (let i = 0; i < len && Date.now() < end; i++) {
    let op;
    try { op = norm(i === 0 && M.first ? M.first(w, rng) : M.step(w, rng)); } catch (e) { if (/^view /.test(e.message)) op = { look: true }; else throw e; }
    ops.push(op);
    const bad = w.exec(op);
    if (!op.set && !op.look) { calls++; if (w.last.ok) { oks++; hits.set(op.call, (hits.get(op.call) || 0) + 1); } }
    if (w.dead) throw new Error('generated an impossible call');
    if (!bad) continue;
    // shrink
    let cur = ops.slice(), msg = bad;
    const stop = Date.now() + 15000;
    for (let again = true; again && Date.now() < stop;) {
      again = false;
      for (let k = cur.length - 2; k >= 0 && Date.now() < stop; k--) {
        const t = cur.slice(0, k).concat(cur.slice(k + 1));
        let f = null;
        try { f = replay(cfg, t); } catch (e) { f = null; }
        if (f) { cur = t.slice(0, f.i + 1); msg = f.b; again = true; k = Math.min(k, cur.length - 1); }
      }
    }
    const w2 = new World(cfg);
    let text = `property ${prop}: failing history on the compiled contract ${model} (seed ${seed0}, history ${n - 1})\n\nconfiguration: ${show(cfg)}\n`;
    for (const o of cur) {
      const b = w2.exec(o);
      if (o.look) { text += `\n  BROKEN: ${b}\n`; continue; }
      if (o.set) { text += `\n  environment ${show(o.set)}\n`; continue; }
      const r = w2.last;
      text += `\n  ${o.call}(${show(o.raw !== undefined ? o.raw : o.args || {})}) by ${o.by}${o.signer ? ' signed by ' + o.signer : ''}${o.pk ? ' key ' + o.pk.slice(0, 12) : ''} deposit ${o.deposit || 0}${o.credit ? ' and ' + o.credit + ' arriving' : ''}${o.results ? ' promise results ' + show(o.results) : ''}\n    -> ${r.ok ? 'ok ' + show(r.value) : 'panic: ' + r.panic}\n`;
      if (r.receipts.length) text += `    receipts ${show(r.receipts)}\n`;
      if (b) text += `\n  BROKEN: ${b}\n`;
    }
    text += `\nreplay: node harness/drive.js ${model} ${prop} ${seed0} ${secs} - WASM_DIR   (the same seed gives the same history; ${calls} calls explored before it)\n`;
    if (out !== '-') fs.writeFileSync(out, text); else console.log(text);
    console.log(`found after ${calls} calls: ${msg}`);
    process.exit(1);
  }
}
console.log(`${histories} histories, ${calls} calls (${oks} successful), seed ${seed0}, ${secs} s`);
console.log('successful calls: ' + [...hits].sort((a, b) => b[1] - a[1]).map(([k, v]) => `${k} ${v}`).join(', '));
process.exit(0);
