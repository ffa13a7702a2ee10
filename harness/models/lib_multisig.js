'use strict';
// Shared by multisig.js and multisig2.js.  Everything is judged from the getters, the receipts and the history of calls.
const { key, NEAR } = require('../near.js');
const SELF = 'wallet.near', COOL = 900000000000n, LIMIT = 12;
const ACCOUNTS = ['ann.near', 'bob.near', 'cat.near', SELF];
const B = (x) => BigInt(x);
const METHODS = ['add_request', 'add_request_and_confirm', 'confirm', 'delete_request'].join();
const bare = (s) => (typeof s === 'string' && s.startsWith('ed25519:') ? s.slice(8) : s);
function canon(x) { // key order and absent optionals do not matter
  if (Array.isArray(x)) return x.map(canon);
  if (x && typeof x === 'object') { const o = {}; for (const k of Object.keys(x).sort()) if (x[k] !== null && x[k] !== undefined) o[k] = canon(x[k]); return o; }
  return bare(x);
}
const same = (a, b) => JSON.stringify(canon(a)) === JSON.stringify(canon(b));
const PK = new Map(); for (let i = 0; i < 5; i++) PK.set(key(i).bare, key(i));
const rawOf = (s) => PK.get(bare(s)).raw;
const hexKey = (i) => key(i).raw.toString('hex');

module.exports = function make(V2) {
  const memberName = (m) => (m.account_id !== undefined ? 'a:' + m.account_id : 'k:' + bare(m.public_key));
  // who is calling, as a confirmation/creator identity
  const caller = (op) => { const k = 'k:' + bare([...PK.values()].find((x) => x.raw.toString('hex') === op.pk).bare); return V2 ? (op.by === SELF ? k : 'a:' + op.by) : k; };
  const conf = (s) => (V2 ? memberName(JSON.parse(s)) : 'k:' + bare(s));
  const everyone = [...[...PK.values()].map((k) => 'k:' + k.bare), ...(V2 ? ACCOUNTS.map((a) => 'a:' + a) : [])];
  const asMember = (n) => (n[0] === 'a' ? { account_id: n.slice(2) } : { public_key: 'ed25519:' + n.slice(2) });
  const count = (c, n) => (V2 ? c.view('get_num_requests_per_member', { member: asMember(n) }) : c.view('get_num_requests_pk', { public_key: n.slice(2) }));
  function observe(w) {
    const c = w.chain;
    if (!c.storage.has('STATE')) return { init: false };
    const o = { init: true, ids: new Set(c.view('list_request_ids')), nonce: c.view('get_request_nonce'), K: c.view('get_num_confirmations'), req: new Map(), conf: new Map(), num: new Map() };
    for (const i of new Set([...o.ids, ...((w.seen && w.seen.ids) || [])])) {
      const q = c.peek('get_request', { request_id: i }), f = c.peek('get_confirmations', { request_id: i });
      if (q !== undefined) o.req.set(i, q);
      if (f !== undefined) o.conf.set(i, new Set(f.map(conf)));
    }
    for (const n of everyone) o.num.set(n, count(c, n));
    if (V2) o.members = new Set(c.view('get_members').map(memberName));
    return o;
  }
  const WALLET = new Set(['add_request', 'add_request_and_confirm', 'confirm', 'delete_request']);
  const visible = (r) => r.receipts.filter((x) => x.actions.length);
  // the request this call executed, if any: {id, request, by}
  function executed(ev) {
    const { op, pre, post, r } = ev;
    if (!r.ok || !pre.init || !post.init) return null;
    if (op.call === 'confirm') { const id = op.args.request_id; if (!post.ids.has(id) && pre.ids.has(id)) return { id, request: pre.req.get(id), had: pre.conf.get(id) || new Set(), creator: ev.w.m.creator.get(id) }; }
    if (op.call === 'add_request_and_confirm') { const id = r.value; if (!post.ids.has(id)) return { id, request: op.args.request, had: new Set(), creator: caller(op) }; }
    return null;
  }
  const sets = (a, b) => a.size === b.size && [...a].every((x) => b.has(x));
  function votes(ev) { // C13 / C14
    const { op, pre, post, r, w } = ev;
    if (!r.ok || !post.init) return null;
    if (!pre.init) return post.ids.size ? 'requests exist after initialisation' : null;
    const me = caller(op), x = executed(ev);
    if (WALLET.has(op.call)) {
      if (!V2 && op.by !== SELF) return `${op.call} by ${op.by}`;
      if (V2 && !pre.members.has(me)) return `${op.call} by ${me}, who is not a member`;
    }
    if (visible(r).length && !x) return `receipts without a request being executed`;
    if (x) {
      if (x.had.has(me)) return `${me} had already confirmed request ${x.id}`;
      if (x.had.size + 1 < pre.K) return `request ${x.id} ran with ${x.had.size + 1} confirmations of ${pre.K}`;
      if (w.m.done.has(x.id)) return `request ${x.id} ran again`;
      if (post.conf.has(x.id) || post.req.has(x.id)) return `request ${x.id} is still there after it ran`;
    } else {
      if (post.K !== pre.K) return 'required confirmations changed without a request';
      if (V2 && !sets(pre.members, post.members)) return 'members changed without a request';
      for (const id of pre.ids) if (!post.ids.has(id) && !(op.call === 'delete_request' && op.args.request_id === id)) return `request ${id} vanished`;
    }
    if (!x && op.call === 'confirm' && pre.conf.has(op.args.request_id) && pre.conf.get(op.args.request_id).size + 1 >= pre.K) return `request ${op.args.request_id} has enough confirmations and did not run`;
    if (!x && op.call === 'add_request_and_confirm' && pre.K <= 1) return `request ${r.value} has enough confirmations and did not run`;
    for (const [id, s] of post.conf) {
      const was = pre.conf.get(id) || new Set();
      for (const n of was) if (!s.has(n)) return `confirmation of ${n} lost from request ${id}`;
      for (const n of s) if (!was.has(n)) {
        const mine = n === me && ((op.call === 'confirm' && op.args.request_id === id) || (op.call === 'add_request_and_confirm' && r.value === id));
        if (!mine) return `request ${id} gained the confirmation of ${n} in ${op.call} by ${me}`;
      }
    }
    if ((op.call === 'confirm' && !x)) { const s = post.conf.get(op.args.request_id); if (s && !s.has(me)) return `confirmation of ${me} not recorded`; }
    for (const id of post.ids) if (w.m.done.has(id)) return `request ${id} is back`;
    return null;
  }
  const deleted = (x) => { const l = []; if (x) for (const a of x.request.actions) { if (a.type === 'DeleteKey') l.push('k:' + bare(a.public_key)); if (a.type === 'DeleteMember') l.push(memberName(a.member)); } return l; };
  function books(ev) { // C15
    const { op, pre, post, r, w } = ev;
    if (!r.ok || !post.init || !pre.init) return null;
    const x = executed(ev), me = caller(op);
    const adds = op.call === 'add_request' || op.call === 'add_request_and_confirm';
    const want = new Map(pre.num), open = new Map([...w.m.creator].filter(([id]) => pre.ids.has(id)));
    if (adds) {
      const id = r.value;
      if (w.m.used.has(id)) return `request number ${id} was used before`;
      want.set(me, want.get(me) + 1); open.set(id, me);
      if (want.get(me) > w.m.limit) return `${me} has ${want.get(me)} active requests of ${w.m.limit}`;
      if (!(x && x.id === id)) {
        if (!post.req.has(id)) return `request ${id} was not stored`;
        if (!same(post.req.get(id), op.args.request)) return `request ${id} is stored as ${JSON.stringify(post.req.get(id))}`;
      }
      const s = post.conf.get(id);
      if (op.call === 'add_request' && !(s && s.size === 0)) return `request ${id} starts with confirmations`;
    }
    if (op.call === 'delete_request') {
      const id = op.args.request_id;
      if (ev.chain.ts <= w.m.added.get(id) + COOL) return `request ${id} deleted ${ev.chain.ts - w.m.added.get(id)} ns after it was added`;
      if (post.ids.has(id)) return `request ${id} was not deleted`;
      const cr = open.get(id); want.set(cr, want.get(cr) - 1); open.delete(id);
    }
    if (x) { const cr = open.get(x.id); want.set(cr, want.get(cr) - 1); open.delete(x.id); }
    for (const n of deleted(x)) { want.set(n, 0); for (const [id, cr] of [...open]) if (cr === n) open.delete(id); }
    if (!sets(new Set(open.keys()), post.ids)) return `open requests are ${[...post.ids]}, expected ${[...open.keys()]}`;
    for (const n of everyone) if (want.get(n) !== post.num.get(n)) return `${n} has ${post.num.get(n)} active requests, expected ${want.get(n)}`;
    if (!sets(post.ids, new Set(post.req.keys())) || !sets(post.ids, new Set(post.conf.keys()))) return `requests ${[...post.req.keys()]} but confirmation sets ${[...post.conf.keys()]}`;
    for (const [id, q] of post.req) if (pre.req.has(id) && !same(q, pre.req.get(id))) return `request ${id} changed`;
    return null;
  }
  const memberKey = (pk) => ({ type: 'add_key', key: rawOf(pk).toString('hex'), allowance: '0', receiver: SELF, methods: METHODS });
  function expect(req) {
    const l = []; let K, L; const plus = [], minus = [];
    for (const a of req.actions) {
      const self = () => { if (req.receiver_id !== SELF) throw new Error(`${a.type} executed for ${req.receiver_id}`); };
      switch (a.type) {
        case 'Transfer': l.push({ type: 'transfer', amount: B(a.amount).toString() }); break;
        case 'CreateAccount': l.push({ type: 'create_account' }); break;
        case 'DeployContract': l.push({ type: 'deploy', code: Buffer.from(a.code, 'base64').toString('hex') }); break;
        case 'AddKey': self();
          if (a.permission) l.push({ type: 'add_key', key: rawOf(a.public_key).toString('hex'), allowance: B(a.permission.allowance || 0).toString(), receiver: a.permission.receiver_id, methods: a.permission.method_names.join() });
          else l.push({ type: 'add_full_key', key: rawOf(a.public_key).toString('hex') });
          break;
        case 'DeleteKey': self(); l.push({ type: 'delete_key', key: rawOf(a.public_key).toString('hex') }); break;
        case 'AddMember': self(); plus.push(memberName(a.member)); if (a.member.public_key) l.push(memberKey(a.member.public_key)); break;
        case 'DeleteMember': self(); minus.push(memberName(a.member)); if (a.member.public_key) l.push({ type: 'delete_key', key: rawOf(a.member.public_key).toString('hex') }); break;
        case 'FunctionCall': l.push({ type: 'call', method: a.method_name, args: Buffer.from(a.args, 'base64').toString('hex'), deposit: B(a.deposit).toString(), gas: B(a.gas).toString() }); break;
        case 'SetNumConfirmations': self(); K = a.num_confirmations; break;
        case 'SetActiveRequestsLimit': self(); L = a.active_requests_limit; break;
      }
    }
    return { l, K, L, plus, minus };
  }
  const isMember = (a) => a.type === 'add_key' && a.receiver === SELF;
  const flat = (a, m) => { const o = {}; for (const k of Object.keys(a)) { if (k === 'nonce') continue; o[k] = Buffer.isBuffer(a[k]) ? a[k].toString('hex') : a[k].toString(); } if (m) o.methods = o.methods.split(',').sort().join(); return o; };
  const sortKeys = (o) => { const r = {}; for (const k of Object.keys(o).sort()) r[k] = o[k]; return r; };
  function effects(ev) { // C16
    const { op, pre, post, r, w } = ev;
    if (!r.ok) return null;
    if (!post.init) return null;
    const vis = visible(r);
    if (!pre.init) {
      if (!V2) return vis.length ? 'receipts at initialisation' : null;
      const got = vis.flatMap((x) => x.actions.map((a) => (x.receiver === SELF && isMember(a) ? JSON.stringify(sortKeys(flat(a, true))) : 'other: ' + a.type)));
      const want = op.args.members.filter((m) => m.public_key).map((m) => JSON.stringify(sortKeys(memberKey(m.public_key))));
      if (got.join() !== want.join()) return `keys added at initialisation: ${got}, expected ${want}`;
      return sets(post.members, new Set(op.args.members.map(memberName))) && post.K === op.args.num_confirmations ? null : 'initialised with other members or confirmations';
    }
    const x = executed(ev);
    if (!x) return vis.length ? 'receipts without a request being executed' : post.K !== pre.K || (V2 && !sets(pre.members, post.members)) ? 'settings changed without a request' : null;
    let e; try { e = expect(x.request); } catch (y) { return y.message; }
    if (e.l.length === 0 ? vis.length : vis.length !== 1 || vis[0].receiver !== x.request.receiver_id || vis[0].after.length) return `receipts to ${vis.map((v) => v.receiver)} for a request to ${x.request.receiver_id}`;
    const members = new Set(x.request.actions.filter((a) => a.type === 'AddMember' && a.member.public_key).map((a) => rawOf(a.member.public_key).toString('hex')));
    const norm = (a) => JSON.stringify(sortKeys(members.size && a.type === 'add_key' && a.methods.split(',').sort().join() === METHODS ? { ...a, methods: METHODS } : a));
    const got = vis.length ? vis[0].actions.map((a) => norm(flat(a))) : [], want = e.l.map(norm);
    if (got.join('\n') !== want.join('\n')) return `executed ${got}, requested ${want}`;
    if (post.K !== (e.K === undefined ? pre.K : e.K)) return `required confirmations are ${post.K}`;
    if (V2) { const m = new Set(pre.members); for (const a of x.request.actions) { if (a.type === 'AddMember') m.add(memberName(a.member)); if (a.type === 'DeleteMember') m.delete(memberName(a.member)); } if (!sets(m, post.members)) return `members are ${[...post.members]}, expected ${[...m]}`; }
    return null;
  }
  // what a member is entitled to
  const SELF_ONLY = new Set(['AddKey', 'DeleteKey', 'AddMember', 'DeleteMember', 'SetNumConfirmations', 'SetActiveRequestsLimit']), SETS = new Set(['SetNumConfirmations', 'SetActiveRequestsLimit']);
  function runnable(ev, q) {
    const m = new Set(ev.pre.members || []); let need = 0n;
    for (const a of q.actions) {
      if (SELF_ONLY.has(a.type) && q.receiver_id !== SELF) return false;
      if (SETS.has(a.type) && q.actions.length !== 1) return false;
      if (a.type === 'DeleteMember') { if (m.size < ev.pre.K + 1) return false; m.delete(memberName(a.member)); }
      if (a.type === 'AddMember') m.add(memberName(a.member));
      if (a.type === 'Transfer') need += B(a.amount);
      if (a.type === 'FunctionCall') need += B(a.deposit);
    }
    return need <= ev.chain.balance;
  }
  const member = ({ op, pre }) => pre.init && !op.deposit && (V2 ? pre.members.has(caller(op)) : op.by === SELF);
  const room = ({ op, pre, w }) => pre.num.get(caller(op)) + 1 <= w.m.limit;
  const starts = ({ op, pre }) => V2 && !pre.init && op.call === 'new' && op.args.num_confirmations <= op.args.members.length;
  const due = {
    [V2 ? 'C14' : 'C13']: starts,
    C15(ev) {
      const { op, pre, w } = ev;
      if (op.call === 'add_request') return member(ev) && room(ev);
      return op.call === 'delete_request' && member(ev) && pre.ids.has(op.args.request_id) && ev.chain.ts > w.m.added.get(op.args.request_id) + COOL;
    },
    C16(ev) {
      const { op, pre } = ev, id = op.args && op.args.request_id;
      if (op.call === 'add_request') return member(ev) && room(ev);
      if (op.call === 'add_request_and_confirm') return member(ev) && room(ev) && (pre.K > 1 || runnable(ev, op.args.request));
      if (op.call !== 'confirm' || !member(ev) || !pre.ids.has(id) || !pre.conf.has(id) || !pre.req.has(id) || pre.conf.get(id).has(caller(op))) return false;
      return pre.conf.get(id).size + 1 < pre.K || runnable(ev, pre.req.get(id));
    },
  };
  const monitors = {
    [V2 ? 'C14' : 'C13']: votes, C15: books, C16: effects,
    C24(ev) {
      if (!ev.pre.init && ev.op.call !== 'new' && ev.r.ok) return `${ev.op.call} worked before initialisation`;
      if (ev.pre.init && ev.op.call === 'new' && ev.r.ok) return 'initialised twice';
      return null;
    },
  };
  function after(w, ev) {
    const { op, r } = ev, m = w.m;
    if (!r.ok) return;
    const x = executed(ev);
    if (op.call === 'add_request' || op.call === 'add_request_and_confirm') { m.used.add(r.value); m.creator.set(r.value, caller(op)); m.added.set(r.value, ev.chain.ts); }
    if (x) { m.done.add(x.id); for (const a of x.request.actions) if (a.type === 'SetActiveRequestsLimit') m.limit = a.active_requests_limit; }
    if (op.call === 'delete_request') m.done.add(op.args.request_id);
  }
  function action(rng, self) {
    const k = rng.int(self ? 16 : 5), pk = () => { const x = key(rng.int(5)); return V2 ? x.text : x.bare; };
    const member = () => (rng.chance(0.5) ? { public_key: key(rng.int(5)).text } : { account_id: rng.pick(ACCOUNTS) });
    switch (k) {
      case 0: return { type: 'Transfer', amount: rng.pick([rng.big(1000n), rng.big(10n ** 25n)]) };
      case 1: return { type: 'CreateAccount' };
      case 2: return { type: 'DeployContract', code: Buffer.from('code' + rng.int(9)).toString('base64') };
      case 3: case 4: return { type: 'FunctionCall', method_name: rng.pick(['', 'm' + rng.int(9), 'new', 'transfer']), args: rng.pick([Buffer.alloc(0), Buffer.from('{"x":' + rng.int(9) + '}'), Buffer.from([0, 255, rng.int(256)])]).toString('base64'), deposit: rng.big(50n), gas: rng.pick([rng.big(10n ** 13n), rng.big(10n ** 15n)]) };
      case 5: case 6: return { type: 'AddKey', public_key: pk(), permission: rng.chance(0.5) ? null : { allowance: rng.chance(0.5) ? null : rng.pick([rng.big(100n), rng.big(10n ** 26n)]), receiver_id: rng.pick([...ACCOUNTS, SELF]), method_names: rng.pick([[], [''], ['a'], ['confirm', 'b'], ['x', 'y', 'z']]) } };
      case 7: case 8: case 9: return V2 ? { type: 'DeleteMember', member: member() } : { type: 'DeleteKey', public_key: pk() };
      case 10: case 11: return V2 ? { type: 'AddMember', member: member() } : { type: 'DeleteKey', public_key: pk() };
      case 12: case 13: return { type: 'SetNumConfirmations', num_confirmations: rng.int(4) };
      default: return { type: 'SetActiveRequestsLimit', active_requests_limit: 1 + rng.int(4) };
    }
  }
  function request(rng) {
    const receiver_id = rng.chance(0.6) ? SELF : rng.pick(ACCOUNTS);
    const n = rng.pick([0, 1, 1, 1, 1, 2, 3]), actions = [];
    for (let i = 0; i < n; i++) actions.push(action(rng, rng.chance(receiver_id === SELF ? 0.9 : 0.15)));
    for (const a of actions) if (a.permission === null) delete a.permission;
    return { receiver_id, actions };
  }
  const newArgs = (rng) => {
    if (!V2) return { num_confirmations: rng.pick([1, 2, 2, 3]) };
    const names = new Set(); for (let i = 0; i < 6; i++) names.add(rng.pick(everyone.filter((x) => x[0] === 'a' || PK.get(x.slice(2)) !== undefined)));
    return { members: [...names].map(asMember), num_confirmations: rng.pick([1, 2, 2, 3]) };
  };
  const model = {
    len: 60, monitors, due, observe, after,
    chain: () => ({ account: SELF, balance: 10n ** 26n }),
    config: () => ({}),
    start(w) { w.m = { used: new Set(), done: new Set(), creator: new Map(), added: new Map(), limit: LIMIT }; },
    first(w, rng) { return rng.chance(0.1) ? model.step(w, rng) : { call: 'new', by: 'x.near', pk: hexKey(0), args: newArgs(rng) }; },
    step(w, rng) {
      const pk = hexKey(rng.int(4));
      const by = V2 ? (rng.chance(0.5) ? SELF : rng.pick(ACCOUNTS)) : rng.chance(0.93) ? SELF : rng.pick(ACCOUNTS);
      const k = rng.int(100);
      if (k < 12) return { set: { '+ts': rng.pick([1n, rng.big(COOL * 3n), COOL / 2n, COOL - 1n, COOL, COOL + 1n, COOL * 2n]) } };
      if (k < 34) return { call: 'add_request', by, pk, args: { request: request(rng) } };
      if (k < 50) return { call: 'add_request_and_confirm', by, pk, args: { request: request(rng) } };
      const o = observe(w), ids = o.init ? [...o.ids] : [];
      const id = ids.length && rng.chance(0.85) ? rng.pick(ids) : rng.int((o.nonce || 0) + 2);
      if (k < 85) return { call: 'confirm', by, pk, args: { request_id: id } };
      if (k < 98) return { call: 'delete_request', by, pk, args: { request_id: id } };
      return { call: 'new', by, pk, args: newArgs(rng) };
    },
  };
  return model;
};
