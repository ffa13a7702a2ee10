// A small NEAR host for the contracts' own WebAssembly: storage, registers, context, receipts.
// Everything observable (state, receipts, result) is what the compiled contract asked the host for.
'use strict';
const fs = require('fs'), crypto = require('crypto');
const U128 = (1n << 128n), U64 = (1n << 64n) - 1n;
const lat = (b) => Buffer.from(b).toString('latin1');
const str = (b) => Buffer.from(b).toString('utf8');

class Trap extends Error {}

const modules = new Map(); // compiled once per file
const compiled = (f) => { if (!modules.has(f)) modules.set(f, new WebAssembly.Module(fs.readFileSync(f))); return modules.get(f); };

class Chain {
  constructor(file, opts = {}) {
    this.mod = compiled(file);
    this.exports = new Set(WebAssembly.Module.exports(this.mod).map((e) => e.name));
    this.account = opts.account || 'contract.near';
    this.balance = opts.balance === undefined ? 10n ** 26n : opts.balance; // liquid
    this.locked = opts.locked || 0n;
    this.storage = new Map();
    this.ts = opts.ts || 1600000000000000000n;
    this.height = opts.height || 1000n;
    this.epoch = opts.epoch || 100n;
    this.validators = new Map(); // account -> stake
    this.baseUsage = opts.baseUsage === undefined ? 100000n : opts.baseUsage;
    this.usage = this.baseUsage;
  }
  snapshot() {
    return { storage: new Map(this.storage), balance: this.balance, locked: this.locked, ts: this.ts, height: this.height, epoch: this.epoch, validators: new Map(this.validators), usage: this.usage };
  }
  restore(s) {
    Object.assign(this, { balance: s.balance, locked: s.locked, ts: s.ts, height: s.height, epoch: s.epoch, usage: s.usage });
    this.storage = new Map(s.storage);
    this.validators = new Map(s.validators);
  }
  // args: JSON-able value, string or Buffer.  o: {by, signer, pk, deposit, results, view, gas}
  // The host functions; cx is the call being executed.
  host() {
    const S = this;
    let cx = null;
    const link = (c) => { cx = c; };
    const mem = () => Buffer.from(cx.inst.exports.memory.buffer);
    const view = () => { if (cx.o.view) throw new Trap('prohibited in view'); };
    const rd = (len, ptr) => {
      if (len === U64) return reg(ptr);
      return Buffer.from(mem().subarray(Number(ptr), Number(ptr) + Number(len)));
    };
    const reg = (id) => { if (!cx.regs.has(id)) throw new Trap('invalid register'); return cx.regs.get(id); };
    const set = (id, v) => cx.regs.set(id, Buffer.from(v));
    const wr = (ptr, b) => { b.copy(mem(), Number(ptr)); };
    const wr128 = (ptr, v) => { const b = Buffer.alloc(16); b.writeBigUInt64LE(v & U64, 0); b.writeBigUInt64LE(v >> 64n, 8); wr(ptr, b); };
    const rd128 = (ptr) => { const b = rd(16n, ptr); return b.readBigUInt64LE(0) | (b.readBigUInt64LE(8) << 64n); };
    const u = (x) => BigInt.asUintN(64, x);
    const note = (k) => { if (!cx.undo.has(k)) cx.undo.set(k, this.storage.get(k)); };
    const newReceipt = (receiver, after) => {
      view();
      const i = cx.r.receipts.length;
      cx.r.receipts.push({ i, receiver, after, actions: [] });
      cx.promises.push({ kind: 'r', i });
      return BigInt(cx.promises.length - 1);
    };
    const deps = (p) => { const x = cx.promises[Number(p)]; if (!x) throw new Trap('bad promise index'); return x.kind === 'r' ? [x.i] : x.list; };
    const act = (p, a) => { view(); const x = cx.promises[Number(p)]; if (!x || x.kind !== 'r') throw new Trap('cannot append action'); cx.r.receipts[x.i].actions.push(a); };
    const spend = (v) => { if (v > cx.bal) throw new Trap('balance exceeded'); cx.bal -= v; };
    const fc = (ml, mp, al, ap, am, gas) => { const d = rd128(am); spend(d); const a = rd(al, ap); return { type: 'call', method: str(rd(ml, mp)), args: a, deposit: d, gas: u(gas) }; };
    const env = {
      read_register: (id, ptr) => wr(u(ptr), reg(u(id))),
      register_len: (id) => (cx.regs.has(u(id)) ? BigInt(cx.regs.get(u(id)).length) : BigInt.asIntN(64, U64)),
      write_register: (id, l, p) => set(u(id), rd(u(l), u(p))),
      current_account_id: (id) => set(u(id), Buffer.from(S.account)),
      signer_account_id: (id) => { view(); set(u(id), Buffer.from(cx.o.signer || cx.by)); },
      signer_account_pk: (id) => { view(); set(u(id), cx.o.pk || Buffer.concat([Buffer.from([0]), Buffer.alloc(32, 7)])); },
      predecessor_account_id: (id) => { view(); set(u(id), Buffer.from(cx.by)); },
      input: (id) => set(u(id), cx.input),
      block_index: () => S.height, block_timestamp: () => S.ts, epoch_height: () => S.epoch,
      storage_usage: () => S.usage,
      account_balance: (p) => wr128(u(p), cx.bal),
      account_locked_balance: (p) => wr128(u(p), S.locked),
      attached_deposit: (p) => { view(); wr128(u(p), cx.deposit); },
      prepaid_gas: () => { view(); return cx.o.gas || 300000000000000n; },
      used_gas: () => { view(); return 5000000000000n; },
      random_seed: (id) => set(u(id), Buffer.alloc(32, 5)),
      sha256: (l, p, id) => set(u(id), crypto.createHash('sha256').update(rd(u(l), u(p))).digest()),
      keccak256: () => { throw new Trap('keccak'); }, keccak512: () => { throw new Trap('keccak'); },
      value_return: (l, p) => { cx.r.ret = rd(u(l), u(p)); },
      panic: () => { throw new Trap('explicit panic'); },
      panic_utf8: (l, p) => { throw new Trap(str(rd(u(l), u(p)))); },
      log_utf8: (l, p) => { cx.r.logs.push(str(rd(u(l), u(p)))); }, log_utf16: () => {},
      abort: () => { throw new Trap('abort'); },
      promise_create: (al, ap, ml, mp, gl, gp, am, gas) => { const i = newReceipt(str(rd(u(al), u(ap))), []); act(i, fc(u(ml), u(mp), u(gl), u(gp), u(am), gas)); return i; },
      promise_then: (pi, al, ap, ml, mp, gl, gp, am, gas) => { const i = newReceipt(str(rd(u(al), u(ap))), deps(u(pi))); act(i, fc(u(ml), u(mp), u(gl), u(gp), u(am), gas)); return i; },
      promise_and: (p, n) => { view(); const b = rd(u(n) * 8n, u(p)); let l = []; for (let i = 0; i < Number(n); i++) l = l.concat(deps(b.readBigUInt64LE(8 * i))); cx.promises.push({ kind: 'and', list: l }); return BigInt(cx.promises.length - 1); },
      promise_batch_create: (al, ap) => newReceipt(str(rd(u(al), u(ap))), []),
      promise_batch_then: (pi, al, ap) => newReceipt(str(rd(u(al), u(ap))), deps(u(pi))),
      promise_batch_action_create_account: (p) => act(u(p), { type: 'create_account' }),
      promise_batch_action_deploy_contract: (p, l, q) => act(u(p), { type: 'deploy', code: rd(u(l), u(q)) }),
      promise_batch_action_function_call: (p, ml, mp, al, ap, am, gas) => act(u(p), fc(u(ml), u(mp), u(al), u(ap), u(am), gas)),
      promise_batch_action_transfer: (p, am) => { const d = rd128(u(am)); spend(d); act(u(p), { type: 'transfer', amount: d }); },
      promise_batch_action_stake: (p, am, kl, kp) => act(u(p), { type: 'stake', amount: rd128(u(am)), key: rd(u(kl), u(kp)) }),
      promise_batch_action_add_key_with_full_access: (p, kl, kp, n) => act(u(p), { type: 'add_full_key', key: rd(u(kl), u(kp)), nonce: u(n) }),
      promise_batch_action_add_key_with_function_call: (p, kl, kp, n, al, rl, rp, ml, mp) => act(u(p), { type: 'add_key', key: rd(u(kl), u(kp)), nonce: u(n), allowance: rd128(u(al)), receiver: str(rd(u(rl), u(rp))), methods: str(rd(u(ml), u(mp))) }),
      promise_batch_action_delete_key: (p, kl, kp) => act(u(p), { type: 'delete_key', key: rd(u(kl), u(kp)) }),
      promise_batch_action_delete_account: (p, l, q) => act(u(p), { type: 'delete_account', beneficiary: str(rd(u(l), u(q))) }),
      promise_results_count: () => { view(); return BigInt(cx.results.length); },
      promise_result: (i, id) => { view(); const x = cx.results[Number(i)]; if (x === undefined) throw new Trap('bad result index'); if (x === null) return 2n; set(u(id), x); return 1n; },
      promise_return: (p) => { view(); cx.r.retPromise = deps(u(p))[0]; },
      storage_write: (kl, kp, vl, vp, id) => {
        view(); const kb = rd(u(kl), u(kp)), k = lat(kb), v = rd(u(vl), u(vp)); note(k);
        const old = S.storage.get(k); S.storage.set(k, v);
        if (old !== undefined) { set(u(id), old); S.usage += BigInt(v.length - old.length); return 1n; }
        S.usage += BigInt(kb.length + v.length + 40); return 0n;
      },
      storage_read: (kl, kp, id) => { const k = lat(rd(u(kl), u(kp))); const v = S.storage.get(k); if (v === undefined) return 0n; set(u(id), v); return 1n; },
      storage_remove: (kl, kp, id) => { view(); const k = lat(rd(u(kl), u(kp))); const v = S.storage.get(k); if (v === undefined) return 0n; note(k); S.storage.delete(k); S.usage -= BigInt(k.length + v.length + 40); set(u(id), v); return 1n; },
      storage_has_key: (kl, kp) => (S.storage.has(lat(rd(u(kl), u(kp)))) ? 1n : 0n),
      validator_stake: (l, p, out) => { wr128(u(out), S.validators.get(str(rd(u(l), u(p)))) || 0n); },
      validator_total_stake: (out) => { let t = 0n; for (const v of S.validators.values()) t += v; wr128(u(out), t); },
    };
    return { env, link };
  }
  call(method, args = {}, o = {}) {
    if (!this.exports.has(method)) return { ok: false, missing: true, panic: 'no such method ' + method, receipts: [], logs: [] };
    const input = Buffer.isBuffer(args) ? args : Buffer.from(typeof args === 'string' ? args : JSON.stringify(args, (k, v) => (typeof v === 'bigint' ? v.toString() : v)));
    const deposit = o.deposit || 0n;
    const r = { ok: false, receipts: [], ret: undefined, retPromise: undefined, logs: [], panic: null };
    const undo = new Map();
    const usage0 = this.usage;
    // promises: {kind:'r',i} | {kind:'and', list}
    const cx = { o, r, by: o.by || this.account, deposit, input, undo, regs: new Map(), bal: this.balance + deposit, promises: [], results: o.results || [], inst: null };
    // a call runs in a fresh instance; views share one for a while
    let h = o.view ? this.viewer : null;
    if (!h || h.uses++ > 300) {
      const { env, link } = this.host();
      h = { link, inst: null, uses: 0 };
      h.inst = new WebAssembly.Instance(this.mod, { env });
    }
    this.viewer = null;
    h.link(cx); cx.inst = h.inst;
    try {
      cx.inst.exports[method]();
      r.ok = true;
      if (o.view) this.viewer = h;
      if (!o.view) this.balance = cx.bal;
    } catch (e) {
      if (e instanceof Trap || e instanceof WebAssembly.RuntimeError) {
        r.panic = e.message;
      } else if (e instanceof RangeError) { r.panic = e.message; } else throw e;
      for (const [k, v] of undo) { if (v === undefined) this.storage.delete(k); else this.storage.set(k, v); }
      this.usage = usage0;
      r.receipts = []; r.retPromise = undefined; r.ret = undefined;
    }
    r.value = undefined;
    if (r.ret !== undefined) { try { r.value = JSON.parse(str(r.ret)); } catch (e) { r.value = undefined; } }
    r.changed = r.ok ? [...undo.keys()].filter((k) => { const a = undo.get(k), b = this.storage.get(k); return a === undefined ? b !== undefined : b === undefined || !a.equals(b); }) : [];
    return r;
  }
  view(method, args = {}) {
    const r = this.call(method, args, { view: true });
    if (!r.ok) throw new Error(`view ${method}(${JSON.stringify(args)}): ${r.panic}`);
    return r.value;
  }
  // undefined when the view panics
  peek(method, args = {}) { const r = this.call(method, args, { view: true }); return r.ok ? r.value : undefined; }
}

// ---- base58 / keys ----
const B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function b58(buf) { let n = 0n; for (const x of buf) n = n * 256n + BigInt(x); let s = ''; while (n > 0n) { s = B58[Number(n % 58n)] + s; n /= 58n; } for (const x of buf) { if (x) break; s = '1' + s; } return s; }
function key(n) { const b = Buffer.alloc(32, n); b[0] = 1 + (n % 250); return { raw: Buffer.concat([Buffer.from([0]), b]), text: 'ed25519:' + b58(b) , bare: b58(b) }; }

// ---- deterministic random numbers ----
class Rng {
  constructor(seed) { this.s = crypto.createHash('sha256').update('seed ' + seed).digest().readBigUInt64LE(0); }
  next() { let z = (this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n)); z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n); z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn); return z ^ (z >> 31n); }
  int(n) { return Number(this.next() % BigInt(n)); }
  // edges, and the numbers the contract's own source mentions, come up more often than chance would have it
  big(n) {
    if (n <= 0n) return 0n;
    const k = this.int(100);
    if (k < 3) return 0n;
    if (k < 5) return n - 1n;
    if (k < 9 && Rng.words.length) { const x = this.pick(Rng.words) + BigInt(this.int(3) - 1); if (x >= 0n && x < n) return x; }
    return ((this.next() << 64n) | this.next()) % n;
  }
  chance(p) { return this.int(1000) < p * 1000; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(a) { let t = 0; for (const [w] of a) t += w; let k = this.int(t * 100) / 100; for (const [w, f] of a) { if (k < w) return f; k -= w; } return a[a.length - 1][1]; }
}

Rng.words = [];
// integer literals of a crate's source
function mine(dir) {
  const seen = new Set();
  const walk = (d) => { for (const f of fs.readdirSync(d, { withFileTypes: true })) { const p = d + '/' + f.name; if (f.isDirectory()) walk(p); else if (f.name.endsWith('.rs') && !/test/.test(f.name)) { const t = fs.readFileSync(p, 'utf8').split('#[cfg(test)]')[0]; for (const m of t.matchAll(/\b\d[\d_]*/g)) { try { seen.add(BigInt(m[0].replace(/_/g, ''))); } catch (e) {} } } } };
  try { walk(dir); } catch (e) {}
  Rng.words = [...seen].sort((a, b) => (a < b ? -1 : 1));
}

const show = (x) => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? v.toString() : v && v.type === 'Buffer' ? (v.data.length > 200 ? `<${v.data.length} bytes>` : (() => { const s = Buffer.from(v.data).toString('utf8'); return /^[\x20-\x7e]*$/.test(s) ? s : '0x' + Buffer.from(v.data).toString('hex'); })()) : v));

module.exports = { mine, Chain, Rng, Trap, key, b58, show, NEAR: 10n ** 24n };
