//! Contracts for multisig/src/lib.rs
@struct MultiSigContract num_confirmations request_nonce requests confirmations num_requests_pk active_requests_limit
@struct MultiSigRequest receiver_id actions
@struct MultiSigRequestWithSigner request signer_pk added_timestamp
@struct FunctionCallPermission allowance receiver_id method_names

@prelude
pub type MS = MultiSigContract;
pub type Rq = MultiSigRequestWithSigner;
pub type Ac = MultiSigRequestAction;
// ---- what an action asks of the network
pub open spec fn act_of(a: Ac) -> Act {
  match a {
    MultiSigRequestAction::Transfer { amount } => Act::Transfer(amount.0),
    MultiSigRequestAction::CreateAccount => Act::CreateAccount,
    MultiSigRequestAction::DeployContract { code } => Act::Deploy(code.0.s@),
    MultiSigRequestAction::AddKey { public_key, permission } => match permission {
      Some(p) => Act::AddKey(public_key.0.s@, match p.allowance { Some(x) => x.0, None => 0 }, p.receiver_id.s@, str_bytes(join_s(p.method_names.s@, ","@)), 0),
      None => Act::AddFull(public_key.0.s@, 0),
    },
    MultiSigRequestAction::DeleteKey { public_key } => Act::DelKey(public_key.0.s@),
    MultiSigRequestAction::FunctionCall { method_name, args, deposit, gas } => Act::Call { m: str_bytes(method_name.s@), args: args.0.s@, dep: deposit.0, gas: gas.0 },
    _ => Act::CreateAccount,
  }
}
pub open spec fn acts_of(s: Seq<Ac>) -> Seq<Act> { s.map_values(|a: Ac| act_of(a)) }
pub open spec fn is_set(a: Ac) -> bool { a is SetNumConfirmations || a is SetActiveRequestsLimit }
pub open spec fn self_only(a: Ac) -> bool { a is AddKey || a is DeleteKey || is_set(a) }
pub open spec fn del_of(a: Ac, pk: PVec<u8>) -> bool { match a { MultiSigRequestAction::DeleteKey { public_key } => public_key.0 == pk, _ => false } }
pub open spec fn deleted(s: Seq<Ac>, pk: PVec<u8>) -> bool { exists|i: int| 0 <= i < s.len() && del_of(#[trigger] s[i], pk) }
pub open spec fn has_set(s: Seq<Ac>) -> bool { s.len() > 0 && is_set(s[0]) }
// ---- bookkeeping
pub open spec fn cntf(pk: PVec<u8>) -> spec_fn(Rq) -> int { |r: Rq| if r.signer_pk == pk { 1int } else { 0int } }
pub open spec fn cnt(m: Map<u32, Rq>, pk: PVec<u8>) -> int { sum_f(m, cntf(pk)) }
pub open spec fn slots(m: Map<PVec<u8>, u32>, pk: PVec<u8>) -> int { if m.dom().contains(pk) { m[pk] as int } else { 0 } }
// no two collections share a storage prefix
pub open spec fn apart(s: MS) -> bool { s.requests.p@ != s.confirmations.p@ && s.requests.p@ != s.num_requests_pk.p@ && s.confirmations.p@ != s.num_requests_pk.p@ }
pub open spec fn kept_p(a: MS, b: MS) -> bool { a.requests.p@ == b.requests.p@ && a.confirmations.p@ == b.confirmations.p@ && a.num_requests_pk.p@ == b.num_requests_pk.p@ }
pub open spec fn minv(s: MS) -> bool {
  &&& forall|k: u32| #[trigger] s.requests.m@.dom().contains(k) <==> s.confirmations.m@.dom().contains(k)
  &&& forall|k: u32| #[trigger] s.requests.m@.dom().contains(k) ==> k < s.request_nonce
  &&& forall|p: PVec<u8>| #[trigger] slots(s.num_requests_pk.m@, p) == cnt(s.requests.m@, p)
}
// everything except requests that are gone and the slots of deleted keys is as it was
pub open spec fn purged(a: MS, b: MS, s: Seq<Ac>) -> bool {
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !deleted(s, a.requests.m@[k].signer_pk)
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) ==> b.requests.m@[k] == a.requests.m@[k]
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s, a.requests.m@[k].signer_pk))
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) ==> b.confirmations.m@[k] == a.confirmations.m@[k]
  &&& forall|p: PVec<u8>| #[trigger] b.num_requests_pk.m@.dom().contains(p) <==> a.num_requests_pk.m@.dom().contains(p) && !deleted(s, p)
  &&& forall|p: PVec<u8>| #[trigger] b.num_requests_pk.m@.dom().contains(p) ==> b.num_requests_pk.m@[p] == a.num_requests_pk.m@[p]
}
pub open spec fn same_store(a: MS, b: MS) -> bool { a.requests.m@ =~= b.requests.m@ && a.confirmations.m@ =~= b.confirmations.m@ && a.num_requests_pk.m@ =~= b.num_requests_pk.m@ }
pub open spec fn same_rest(a: MS, b: MS) -> bool { a.request_nonce == b.request_nonce && a.num_confirmations == b.num_confirmations && a.active_requests_limit == b.active_requests_limit }
pub open spec fn same_all(a: MS, b: MS) -> bool { same_store(a, b) && same_rest(a, b) }
pub open spec fn set_to(a: MS, b: MS, act: Ac) -> bool {
  match act {
    MultiSigRequestAction::SetNumConfirmations { num_confirmations } => b.num_confirmations == num_confirmations && b.active_requests_limit == a.active_requests_limit,
    MultiSigRequestAction::SetActiveRequestsLimit { active_requests_limit } => b.active_requests_limit == active_requests_limit && b.num_confirmations == a.num_confirmations,
    _ => b.num_confirmations == a.num_confirmations && b.active_requests_limit == a.active_requests_limit,
  }
}
// the wallet and its receipts after running r from (a, w)
pub open spec fn ran_receipts(a: WV, b: WV, r: MultiSigRequest) -> bool {
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && self_only(#[trigger] r.actions.s@[i]) ==> r.receiver_id == a.c.cur
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && is_set(#[trigger] r.actions.s@[i]) ==> r.actions.s@.len() == 1
  &&& b.proms.len() == a.proms.len() + 1 && b.proms.last().to == r.receiver_id.s@ && b.proms.last().after == None::<nat> && b.proms.last().acts =~= (if has_set(r.actions.s@) { Seq::empty() } else { acts_of(r.actions.s@) })
  &&& forall|i: int| 0 <= i < a.proms.len() ==> #[trigger] b.proms[i] == a.proms[i]
}
pub open spec fn ran_config(a: MS, b: MS, r: MultiSigRequest) -> bool { a.request_nonce == b.request_nonce && set_to(a, b, if has_set(r.actions.s@) { r.actions.s@[0] } else { MultiSigRequestAction::CreateAccount }) }
pub open spec fn ended(a: MS, b: MS, id: u32) -> bool {
  a.requests.m@.dom().contains(id) && b.requests.m@ =~= a.requests.m@.remove(id) && b.confirmations.m@ =~= a.confirmations.m@.remove(id)
  && ({ let p = a.requests.m@[id].signer_pk; let n = slots(a.num_requests_pk.m@, p); b.num_requests_pk.m@ =~= a.num_requests_pk.m@.insert(p, (if n > 0 { n - 1 } else { 0 }) as u32) })
}
// what running r takes: actions on the wallet itself go to the wallet, settings go alone, and the money is there
pub open spec fn spend(a: Ac) -> nat { match a { MultiSigRequestAction::Transfer { amount } => amount.0 as nat, MultiSigRequestAction::FunctionCall { deposit, .. } => deposit.0 as nat, _ => 0 } }
pub open spec fn need(s: Seq<Ac>, i: int) -> nat decreases s.len() - i { if 0 <= i < s.len() { spend(s[i]) + need(s, i + 1) } else { 0 } }
pub open spec fn runnable(w: WV, r: MultiSigRequest) -> bool {
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && self_only(#[trigger] r.actions.s@[i]) ==> r.receiver_id == w.c.cur
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && is_set(#[trigger] r.actions.s@[i]) ==> r.actions.s@.len() == 1
  &&& need(r.actions.s@, 0) <= w.bal
}
pub proof fn cnt_zero(m: Map<u32, Rq>, p: PVec<u8>)
  requires forall|k: u32| #[trigger] m.dom().contains(k) ==> m[k].signer_pk != p
  ensures cnt(m, p) == 0
  decreases m.dom().len()
{
  if m.dom().len() > 0 {
    let k = m.dom().choose(); assert(m.dom().contains(k));
    sum_remove(m, cntf(p), k);
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    cnt_zero(m.remove(k), p);
  }
}
// dropping every request of some other key leaves a key's count alone
pub proof fn cnt_same(m: Map<u32, Rq>, n: Map<u32, Rq>, p: PVec<u8>)
  requires forall|k: u32| #[trigger] n.dom().contains(k) ==> m.dom().contains(k) && n[k] == m[k],
    forall|k: u32| #[trigger] m.dom().contains(k) && m[k].signer_pk == p ==> n.dom().contains(k),
  ensures cnt(m, p) == cnt(n, p)
  decreases m.dom().len()
{
  if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); assert(n =~= Map::empty()); }
  else {
    let k = m.dom().choose(); assert(m.dom().contains(k));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    sum_remove(m, cntf(p), k);
    if n.dom().contains(k) { sum_remove(n, cntf(p), k); cnt_same(m.remove(k), n.remove(k), p); } else { assert(n.remove(k) =~= n); cnt_same(m.remove(k), n, p); }
  }
}
pub proof fn inv_ended(a: MS, b: MS, id: u32)
  requires minv(a), ended(a, b, id), a.request_nonce == b.request_nonce
  ensures minv(b)
{
  let r = a.requests.m@[id];
  assert forall|p: PVec<u8>| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    sum_remove(a.requests.m@, cntf(p), id);
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    cnt_nonneg(b.requests.m@, p);
  }
}
pub proof fn cnt_nonneg(m: Map<u32, Rq>, p: PVec<u8>) ensures cnt(m, p) >= 0 { sum_nonneg(m, cntf(p)); }
pub proof fn inv_purged(a: MS, b: MS, s: Seq<Ac>)
  requires minv(a), purged(a, b, s), a.request_nonce == b.request_nonce
  ensures minv(b)
{
  assert forall|p: PVec<u8>| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    if deleted(s, p) { cnt_zero(b.requests.m@, p); assert(!b.num_requests_pk.m@.dom().contains(p)); }
    else { cnt_same(a.requests.m@, b.requests.m@, p); assert(b.num_requests_pk.m@.dom().contains(p) <==> a.num_requests_pk.m@.dom().contains(p)); }
  }
}
// dropping one more key's requests
pub open spec fn wiped(a: MS, b: MS, act: Ac) -> bool {
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !del_of(act, a.requests.m@[k].signer_pk)
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) ==> b.requests.m@[k] == a.requests.m@[k]
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && del_of(act, a.requests.m@[k].signer_pk))
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) ==> b.confirmations.m@[k] == a.confirmations.m@[k]
  &&& forall|p: PVec<u8>| #[trigger] b.num_requests_pk.m@.dom().contains(p) <==> a.num_requests_pk.m@.dom().contains(p) && !del_of(act, p)
  &&& forall|p: PVec<u8>| #[trigger] b.num_requests_pk.m@.dom().contains(p) ==> b.num_requests_pk.m@[p] == a.num_requests_pk.m@[p]
}
pub proof fn purged_step(a: MS, m: MS, b: MS, s: Seq<Ac>, act: Ac)
  requires purged(a, m, s), wiped(m, b, act)
  ensures purged(a, b, s.push(act))
{
  assert forall|p: PVec<u8>| true implies #[trigger] deleted(s.push(act), p) == (deleted(s, p) || del_of(act, p)) by { deleted_push(s, act, p); }
  assert forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s.push(act), a.requests.m@[k].signer_pk)) by { assert(m.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !deleted(s, a.requests.m@[k].signer_pk)); assert(m.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s, a.requests.m@[k].signer_pk))); }
  assert forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) implies b.confirmations.m@[k] == a.confirmations.m@[k] by { assert(m.confirmations.m@.dom().contains(k)); }
  assert forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) implies b.requests.m@[k] == a.requests.m@[k] by { assert(m.requests.m@.dom().contains(k)); }
  assert forall|p: PVec<u8>| #[trigger] b.num_requests_pk.m@.dom().contains(p) implies b.num_requests_pk.m@[p] == a.num_requests_pk.m@[p] by { assert(m.num_requests_pk.m@.dom().contains(p)); }
}
pub proof fn deleted_push(s: Seq<Ac>, a: Ac, p: PVec<u8>)
  ensures deleted(s.push(a), p) == (deleted(s, p) || del_of(a, p))
{
  let t = s.push(a);
  if deleted(s, p) { let i = choose|i: int| 0 <= i < s.len() && del_of(#[trigger] s[i], p); assert(t[i] == s[i]); }
  if del_of(a, p) { assert(t[s.len() as int] == a); }
  if deleted(t, p) { let i = choose|i: int| 0 <= i < t.len() && del_of(#[trigger] t[i], p); if i < s.len() { assert(s[i] == t[i]); } }
}

@fn MultiSigContract::remove_request(id)
@ens S1 == (MultiSigContract { requests: S1.requests, confirmations: S1.confirmations, num_requests_pk: S1.num_requests_pk, ..S0 })
@ens[C15] kept_p(S0, S1)
@ens ended(S0, S1, id) && ret == S0.requests.m@[id].request && W1 == W0

@fn MultiSigContract::execute_request(r)
@req[C16] old(w)@.c.mp || runnable(old(w)@, r)
@ens[C15] kept_p(S0, S1)
@ens[C16] ran_receipts(W0, W1, r)
@ens[C13,C15,C16] ran_config(S0, S1, r)
@ens[C13,C15] purged(S0, S1, r.actions.s@)
@loop 0
@brk
@inv[C15] kept_p(S0, *self)
@inv IT == r.actions.s@ && num_actions == IT.len() && receiver_id == r.receiver_id
@inv[C13,C15,C16] self.request_nonce == S0.request_nonce && self.num_confirmations == S0.num_confirmations && self.active_requests_limit == S0.active_requests_limit
@inv[C13,C15,C16] forall|i: int| 0 <= i < POS ==> !is_set(#[trigger] IT[i]) && (self_only(IT[i]) ==> r.receiver_id == W.c.cur)
@inv MUT0.id@ == W0.proms.len() && W.proms.len() == W0.proms.len() + 1
@inv[C16] W.proms.last().to == r.receiver_id.s@ && W.proms.last().after == None::<nat> && W.proms.last().acts =~= acts_of(IT.take(POS))
@inv[C16] forall|i: int| 0 <= i < W0.proms.len() ==> #[trigger] W.proms[i] == W0.proms[i]
@inv[C13,C15] purged(S0, *self, IT.take(POS))
@inv[C16] W.c.mp || (runnable(W0, r) && need(IT, POS as int) <= W.bal)
@pre[C16] assert(acts_of(IT.take(0)) =~= Seq::<Act>::empty());
@hint assert(IT.take(POS) =~= IT.take(POS - 1).push(IT[POS - 1]));
@hint[C16] assert(acts_of(IT.take(POS)) =~= acts_of(IT.take(POS - 1)).push(act_of(IT[POS - 1])));
@hint[C13,C15] assert forall|p: PVec<u8>| true implies #[trigger] deleted(IT.take(POS), p) == (deleted(IT.take(POS - 1), p) || del_of(IT[POS - 1], p)) by { deleted_push(IT.take(POS - 1), IT[POS - 1], p); };
@hint[C13,C15] purged_step(S0, BS, *self, IT.take(POS - 1), IT[POS - 1]);
@post assert(IT.take(IT.len() as int) =~= IT);
@endloop
@loop 1
@out PVec<u32>
@inv W == LW
@inv[C13,C15] kv_order(IT, LS.requests.m@) && *self == LS
@inv[C13,C15] forall|j: int| 0 <= j < OUT.len() ==> LS.requests.m@.dom().contains(#[trigger] OUT[j]) && LS.requests.m@[OUT[j]].signer_pk == pk
@inv[C13,C15] forall|i: int| 0 <= i < POS && (#[trigger] IT[i]).1.signer_pk == pk ==> OUT.contains(IT[i].0)
@hint[C13,C15] let x = IT[POS - 1]; if x.1.signer_pk == pk { assert(OUT[OUT.len() - 1] == x.0); } assert forall|i: int| 0 <= i < POS && (#[trigger] IT[i]).1.signer_pk == pk implies OUT.contains(IT[i].0) by { if i < POS - 1 { let j = choose|j: int| 0 <= j < BOUT.len() && BOUT[j] == IT[i].0; assert(OUT[j] == BOUT[j]); } };
@endloop
@loop 2
@inv W == LW
@inv[C15] kept_p(LS, *self)
@inv[C13,C15] LS == (MultiSigContract { requests: LS.requests, confirmations: LS.confirmations, ..*self })
@inv[C13,C15] forall|k: u32| #[trigger] self.requests.m@.dom().contains(k) <==> LS.requests.m@.dom().contains(k) && !IT.take(POS).contains(k)
@inv[C13,C15] forall|k: u32| #[trigger] self.requests.m@.dom().contains(k) ==> self.requests.m@[k] == LS.requests.m@[k]
@inv[C13,C15] forall|k: u32| #[trigger] self.confirmations.m@.dom().contains(k) <==> LS.confirmations.m@.dom().contains(k) && !IT.take(POS).contains(k)
@inv[C13,C15] forall|k: u32| #[trigger] self.confirmations.m@.dom().contains(k) ==> self.confirmations.m@[k] == LS.confirmations.m@[k]
@hint[C13,C15] let x = IT[POS - 1]; take_step(IT, POS);
@post[C13,C15] assert(IT.take(IT.len() as int) =~= IT); assert forall|k: u32| #[trigger] LS.requests.m@.dom().contains(k) implies (IT.contains(k) <==> LS.requests.m@[k].signer_pk == pk) by { };
@endloop

@prelude
// the wallet once request id has been taken out
pub open spec fn mid(a: MS, id: u32) -> MS {
  let p = a.requests.m@[id].signer_pk; let n = slots(a.num_requests_pk.m@, p);
  MultiSigContract {
    requests: UMap { m: Ghost(a.requests.m@.remove(id)), ..a.requests },
    confirmations: UMap { m: Ghost(a.confirmations.m@.remove(id)), ..a.confirmations },
    num_requests_pk: UMap { m: Ghost(a.num_requests_pk.m@.insert(p, (if n > 0 { n - 1 } else { 0 }) as u32)), ..a.num_requests_pk },
    ..a }
}
// the wallet once the caller's key has asked for r
pub open spec fn added(a: MS, w: WV, r: MultiSigRequest) -> MS {
  MultiSigContract {
    requests: UMap { m: Ghost(a.requests.m@.insert(a.request_nonce, MultiSigRequestWithSigner { request: r, signer_pk: w.c.pk, added_timestamp: w.c.ts })), ..a.requests },
    confirmations: UMap { m: Ghost(a.confirmations.m@.insert(a.request_nonce, HSet { s: Ghost(Set::empty()) })), ..a.confirmations },
    num_requests_pk: UMap { m: Ghost(a.num_requests_pk.m@.insert(w.c.pk, (slots(a.num_requests_pk.m@, w.c.pk) + 1) as u32)), ..a.num_requests_pk },
    request_nonce: (a.request_nonce + 1) as u32,
    ..a }
}
pub open spec fn confs(s: MS, id: u32) -> Set<PVec<u8>> { s.confirmations.m@[id].s@ }
pub open spec fn reached(s: MS, w: WV, id: u32) -> bool { confs(s, id).len() + 1 >= s.num_confirmations }
// one confirmation by the calling key, short of the required number
pub open spec fn noted(a: MS, b: MS, w: WV, id: u32) -> bool {
  b.requests.m@ =~= a.requests.m@ && b.num_requests_pk.m@ =~= a.num_requests_pk.m@ && same_rest(a, b)
  && b.confirmations.m@ =~= a.confirmations.m@.insert(id, HSet { s: Ghost(confs(a, id).insert(w.c.pk)) })
}
// what confirming request id from wallet a leaves behind
pub open spec fn confirmed(a: MS, b: MS, w: WV, id: u32) -> bool {
  &&& a.requests.m@.dom().contains(id) && !confs(a, id).contains(w.c.pk)
  &&& reached(a, w, id) ==> { let r = a.requests.m@[id].request; purged(mid(a, id), b, r.actions.s@) && ran_config(mid(a, id), b, r) }
  &&& !reached(a, w, id) ==> noted(a, b, w, id)
}
pub open spec fn new_conf(a: MS, b: MS, k: u32, p: PVec<u8>) -> bool { b.confirmations.m@.dom().contains(k) && confs(b, k).contains(p) && !(a.confirmations.m@.dom().contains(k) && confs(a, k).contains(p)) }
pub proof fn inv_confirmed(a: MS, b: MS, w: WV, id: u32)
  requires minv(a), confirmed(a, b, w, id)
  ensures minv(b)
{
  if reached(a, w, id) { inv_ended(a, mid(a, id), id); inv_purged(mid(a, id), b, a.requests.m@[id].request.actions.s@); }
  else { assert forall|p: PVec<u8>| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by { assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p)); } }
}
pub proof fn inv_added(a: MS, w: WV, r: MultiSigRequest)
  requires minv(a), a.request_nonce < u32::MAX, slots(a.num_requests_pk.m@, w.c.pk) < u32::MAX
  ensures minv(added(a, w, r))
{
  let b = added(a, w, r);
  assert forall|p: PVec<u8>| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    assert(!a.requests.m@.dom().contains(a.request_nonce));
    sum_insert(a.requests.m@, cntf(p), a.request_nonce, b.requests.m@[a.request_nonce]);
  }
}

@init
@ens[C24] !W0.c.exists
@ens[C15] apart(S1)
@ens[C13,C15,C16] minv(S1) && S1.requests.m@ =~= Map::<u32, Rq>::empty() && S1.active_requests_limit == 12 && S1.request_nonce == 0
@ens[C13,C15,C16] W1 == W0
@hint[C13,C15,C16] assert forall|p: PVec<u8>| #[trigger] slots(S1.num_requests_pk.m@, p) == cnt(S1.requests.m@, p) by { sum_empty::<u32, Rq>(cntf(p)); };
@entry new(n)
@ens[C13] S1.num_confirmations == n

@step
@req minv(S0)
@ens[C15] kept_p(S0, S1)
@ens[C13,C15] minv(S1)
@ens[C15] S1.request_nonce >= S0.request_nonce
@ens[C13] !(same_all(S0, S1) && W1.proms.len() == W0.proms.len()) ==> W0.c.pred == W0.c.cur
@ens[C13] forall|k: u32, p: PVec<u8>| #[trigger] new_conf(S0, S1, k, p) ==> p == W0.c.pk
@step except confirm add_request_and_confirm
@ens[C13,C16] W1 == W0 && S1.num_confirmations == S0.num_confirmations && S1.active_requests_limit == S0.active_requests_limit

@entry add_request(r)
@ens[C15] slots(S0.num_requests_pk.m@, W0.c.pk) + 1 <= S0.active_requests_limit
@ens[C13,C15] ret == S0.request_nonce && S0.request_nonce < u32::MAX && same_all(added(S0, W0, r), S1)
@hint[C13,C15] if S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, W0.c.pk) < u32::MAX { inv_added(S0, W0, r); assert(same_all(added(S0, W0, r), S1)); }
@entry delete_request(id)
@ens[C13,C15] ended(S0, S1, id) && same_rest(S0, S1) && ret == S0.requests.m@[id].request
@ens[C15] W0.c.ts > S0.requests.m@[id].added_timestamp + 900_000_000_000
@hint[C13,C15] if ended(S0, S1, id) { inv_ended(S0, S1, id); }
@entry confirm(id)
@ens[C13,C15] confirmed(S0, S1, W0, id)
@ens[C16] if reached(S0, W0, id) { ran_receipts(W0, W1, S0.requests.m@[id].request) && ran_config(mid(S0, id), S1, S0.requests.m@[id].request) } else { W1 == W0 && same_rest(S0, S1) }
@hint[C13,C15] if confirmed(S0, S1, W0, id) { inv_confirmed(S0, S1, W0, id); }
@entry add_request_and_confirm(r)
@ens[C15] slots(S0.num_requests_pk.m@, W0.c.pk) + 1 <= S0.active_requests_limit
@ens[C13,C15] ret == S0.request_nonce && S0.request_nonce < u32::MAX && confirmed(added(S0, W0, r), S1, W0, ret)
@ens[C16] if reached(added(S0, W0, r), W0, ret) { ran_receipts(W0, W1, r) && ran_config(mid(added(S0, W0, r), ret), S1, r) } else { W1 == W0 && same_rest(added(S0, W0, r), S1) }
@hint[C13,C15] if S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, W0.c.pk) < u32::MAX { inv_added(S0, W0, r); if confirmed(added(S0, W0, r), S1, W0, ret) { inv_confirmed(added(S0, W0, r), S1, W0, ret); } }

@entry get_request(id)
@ens[C15] S0.requests.m@.dom().contains(id) && ret == S0.requests.m@[id].request
@entry get_num_requests_pk(pk)
@ens[C15] ret == slots(S0.num_requests_pk.m@, pk.0)
@entry list_request_ids()
@ens[C15] ret.s@.no_duplicates() && ret.s@.to_set() == S0.requests.m@.dom()
@entry get_confirmations(id)
@ens[C13] S0.confirmations.m@.dom().contains(id) && ret.s@.len() == confs(S0, id).len() && forall|p: PVec<u8>| #[trigger] confs(S0, id).contains(p) ==> ret.s@.contains(Base58PublicKey(p))
@entry get_num_confirmations()
@ens[C13] ret == S0.num_confirmations
@entry get_request_nonce()
@ens[C15] ret == S0.request_nonce
@loops MultiSigContract::get_confirmations(id)
@loop 0
@out PVec<Base58PublicKey>
@inv[C13] OUT.len() == POS && forall|i: int| 0 <= i < POS ==> (#[trigger] OUT[i]).0 == IT[i]
@inv[C15] W.c.mp || forall|i: int| 0 <= i < IT.len() ==> pk_ok((#[trigger] IT[i]).s@)
@pre[C15] assert forall|i: int| 0 <= i < IT.len() implies (W.c.mp || pk_ok((#[trigger] IT[i]).s@)) by { if !W.c.mp { assert(IT.to_set().contains(IT[i])); assert(confs(LS, id).contains(IT[i])); } };
@post[C13] let cs = LS.confirmations.m@[id].s@; assert(IT.to_set() == cs); assert forall|p: PVec<u8>| #[trigger] cs.contains(p) implies OUT.contains(Base58PublicKey(p)) by { assert(IT.to_set().contains(p)); let i = choose|i: int| 0 <= i < IT.len() && IT[i] == p; assert(OUT[i] == Base58PublicKey(p)); };
@endloop

//! the wallet's own keys are never locked out: a request within the limit is accepted, a confirmation that is due is counted, and the one that completes the set runs the request
@nopanic add_request(r)
@req[C15] minv(S0) && W0.c.pred == W0.c.cur && W0.c.deposit == 0 && S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, W0.c.pk) + 1 <= S0.active_requests_limit
@nopanic confirm(id)
@req[C16] minv(S0) && W0.c.pred == W0.c.cur && W0.c.deposit == 0 && S0.requests.m@.dom().contains(id) && !confs(S0, id).contains(W0.c.pk) && confs(S0, id).len() < u32::MAX && (reached(S0, W0, id) ==> runnable(W0, S0.requests.m@[id].request))
@nopanic add_request_and_confirm(r)
@req[C16] minv(S0) && W0.c.pred == W0.c.cur && W0.c.deposit == 0 && S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, W0.c.pk) + 1 <= S0.active_requests_limit && (S0.num_confirmations <= 1 ==> runnable(W0, r))
@nopanic delete_request(id)
@req[C15] minv(S0) && W0.c.pred == W0.c.cur && W0.c.deposit == 0 && S0.requests.m@.dom().contains(id) && W0.c.ts > S0.requests.m@[id].added_timestamp + 900_000_000_000 && S0.requests.m@[id].added_timestamp <= u64::MAX - 900_000_000_000
//! the views answer
@nopanic get_request(id)
@req[C15] S0.requests.m@.dom().contains(id)
@nopanic get_confirmations(id)
@req[C15] S0.confirmations.m@.dom().contains(id) && forall|k: PVec<u8>| #[trigger] confs(S0, id).contains(k) ==> pk_ok(k.s@)
@nopanic get_num_requests_pk(pk)
@req[C15] true
@nopanic list_request_ids()
@req[C15] true
@nopanic get_num_confirmations()
@req[C15] true
@nopanic get_request_nonce()
@req[C15] true
