//! Contracts for multisig2/src/lib.rs
@struct MultiSigContract members num_confirmations request_nonce requests confirmations num_requests_pk active_requests_limit
@struct MultiSigRequest receiver_id actions
@struct MultiSigRequestWithSigner request member added_timestamp
@struct FunctionCallPermission allowance receiver_id method_names

@prelude
pub type MS = MultiSigContract;
pub type Rq = MultiSigRequestWithSigner;
pub type Mb = MultisigMember;
pub type Ac = MultiSigRequestAction;
// a member is identified by its JSON text, which determines it
pub open spec fn mstr(m: Mb) -> Str { Str { s: Ghost(json_str(m.js())) } }
pub proof fn mstr_inj(a: Mb, b: Mb)
  ensures mstr(a) == mstr(b) ==> a == b
{
  broadcast use rt::axiom_json_str;
  lit_facts();
  if mstr(a) == mstr(b) {
    assert(a.js() == b.js());
    match (a, b) {
      (MultisigMember::AccessKey { public_key: x }, MultisigMember::AccessKey { public_key: y }) => {
        assert(a.js()->O_0["public_key"@] == x.js() && b.js()->O_0["public_key"@] == y.js());
        let f = |c: u8| c.js();
        let (p, q) = (x.s@.map_values(f), y.s@.map_values(f));
        assert(x.js()->A_0 == p && y.js()->A_0 == q);
        assert forall|i: int| 0 <= i < p.len() implies x.s@[i] == y.s@[i] by { assert(p[i] == q[i]); }
        assert(x.s@ =~= y.s@); assert(x == y);
      }
      (MultisigMember::Account { account_id: x }, MultisigMember::Account { account_id: y }) => {
        assert(a.js()->O_0["account_id"@] == x.js() && b.js()->O_0["account_id"@] == y.js());
        assert(x == y);
      }
      _ => { assert(a.js()->O_0.dom().contains("public_key"@) != b.js()->O_0.dom().contains("public_key"@)); }
    }
  }
}
pub proof fn mstr_all() ensures forall|a: Mb, b: Mb| #![trigger mstr(a), mstr(b)] mstr(a) == mstr(b) ==> a == b
{ assert forall|a: Mb, b: Mb| #![trigger mstr(a), mstr(b)] mstr(a) == mstr(b) implies a == b by { mstr_inj(a, b); } }
// who is calling: the account, or the signing key when the wallet calls itself
pub open spec fn cm(w: WV) -> Mb { if w.c.cur == w.c.pred { MultisigMember::AccessKey { public_key: w.c.pk } } else { MultisigMember::Account { account_id: w.c.pred } } }
pub open spec fn methods() -> Seq<u8> { str_bytes("add_request,delete_request,confirm,add_request_and_confirm"@) }
pub open spec fn key_act(m: Mb, cur: Str) -> Seq<Act> { match m { MultisigMember::AccessKey { public_key } => seq![Act::AddKey(public_key.s@, 0, cur.s@, methods(), 0)], _ => Seq::empty() } }
// ---- what an action asks of the network
pub open spec fn keys_of(s: Seq<Mb>, cur: Str) -> Seq<Act> decreases s.len() { if s.len() == 0 { Seq::empty() } else { keys_of(s.drop_last(), cur) + key_act(s.last(), cur) } }
pub open spec fn act_of(a: Ac, cur: Str) -> Seq<Act> {
  match a {
    MultiSigRequestAction::Transfer { amount } => seq![Act::Transfer(amount.0)],
    MultiSigRequestAction::CreateAccount => seq![Act::CreateAccount],
    MultiSigRequestAction::DeployContract { code } => seq![Act::Deploy(code.0.s@)],
    MultiSigRequestAction::AddMember { member } => key_act(member, cur),
    MultiSigRequestAction::DeleteMember { member } => match member { MultisigMember::AccessKey { public_key } => seq![Act::DelKey(public_key.s@)], _ => Seq::empty() },
    MultiSigRequestAction::AddKey { public_key, permission } => match permission {
      Some(p) => seq![Act::AddKey(public_key.s@, match p.allowance { Some(x) => x.0, None => 0 }, p.receiver_id.s@, str_bytes(join_s(p.method_names.s@, ","@)), 0)],
      None => seq![Act::AddFull(public_key.s@, 0)],
    },
    MultiSigRequestAction::FunctionCall { method_name, args, deposit, gas } => seq![Act::Call { m: str_bytes(method_name.s@), args: args.0.s@, dep: deposit.0, gas: gas.0 }],
    _ => Seq::empty(),
  }
}
pub open spec fn acts_of(s: Seq<Ac>, cur: Str) -> Seq<Act> decreases s.len() { if s.len() == 0 { Seq::empty() } else { acts_of(s.drop_last(), cur) + act_of(s.last(), cur) } }
pub proof fn acts_push(s: Seq<Ac>, a: Ac, cur: Str) ensures acts_of(s.push(a), cur) == acts_of(s, cur) + act_of(a, cur) { assert(s.push(a).drop_last() =~= s); }
// the members after a list of actions
pub open spec fn mem_of(s: Set<Mb>, a: Ac) -> Set<Mb> { match a { MultiSigRequestAction::AddMember { member } => s.insert(member), MultiSigRequestAction::DeleteMember { member } => s.remove(member), _ => s } }
pub open spec fn mems_of(s: Seq<Ac>, m: Set<Mb>) -> Set<Mb> decreases s.len() { if s.len() == 0 { m } else { mem_of(mems_of(s.drop_last(), m), s.last()) } }
pub proof fn mems_push(s: Seq<Ac>, a: Ac, m: Set<Mb>) ensures mems_of(s.push(a), m) == mem_of(mems_of(s, m), a) { assert(s.push(a).drop_last() =~= s); }
pub open spec fn is_set(a: Ac) -> bool { a is SetNumConfirmations || a is SetActiveRequestsLimit }
pub open spec fn self_only(a: Ac) -> bool { a is AddMember || a is DeleteMember || a is AddKey || is_set(a) }
pub open spec fn del_of(a: Ac, pk: Mb) -> bool { match a { MultiSigRequestAction::DeleteMember { member } => member == pk, _ => false } }
pub open spec fn deleted(s: Seq<Ac>, pk: Mb) -> bool { exists|i: int| 0 <= i < s.len() && del_of(#[trigger] s[i], pk) }
pub open spec fn has_del(s: Seq<Ac>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is DeleteMember }
pub proof fn del_step(s: Seq<Ac>, a: Ac) ensures has_del(s.push(a)) == (has_del(s) || a is DeleteMember)
{
  let t = s.push(a);
  if has_del(s) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is DeleteMember; assert(t[i] is DeleteMember); }
  if a is DeleteMember { assert(t[s.len() as int] is DeleteMember); }
  if has_del(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is DeleteMember; if i < s.len() { assert(s[i] is DeleteMember); } }
}
pub open spec fn has_set(s: Seq<Ac>) -> bool { s.len() > 0 && is_set(s[0]) }
// what running r takes: actions on the wallet itself go to the wallet, settings go alone, enough members stay, and the money is there
pub open spec fn spend(a: Ac) -> nat { match a { MultiSigRequestAction::Transfer { amount } => amount.0 as nat, MultiSigRequestAction::FunctionCall { deposit, .. } => deposit.0 as nat, _ => 0 } }
pub open spec fn need(s: Seq<Ac>, i: int) -> nat decreases s.len() - i { if 0 <= i < s.len() { spend(s[i]) + need(s, i + 1) } else { 0 } }
pub open spec fn runnable(a: MS, w: WV, r: MultiSigRequest) -> bool {
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && self_only(#[trigger] r.actions.s@[i]) ==> r.receiver_id == w.c.cur
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && is_set(#[trigger] r.actions.s@[i]) ==> r.actions.s@.len() == 1
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && (#[trigger] r.actions.s@[i]) is DeleteMember ==> mems_of(r.actions.s@.take(i), a.members.s@).len() >= a.num_confirmations + 1
  &&& need(r.actions.s@, 0) <= w.bal
}
// ---- bookkeeping
pub open spec fn cntf(pk: Mb) -> spec_fn(Rq) -> int { |r: Rq| if r.member == pk { 1int } else { 0int } }
pub open spec fn cnt(m: Map<u32, Rq>, pk: Mb) -> int { sum_f(m, cntf(pk)) }
pub open spec fn slots(m: Map<Str, u32>, p: Mb) -> int { if m.dom().contains(mstr(p)) { m[mstr(p)] as int } else { 0 } }
// no two collections share a storage prefix
pub open spec fn apart(s: MS) -> bool { s.requests.p@ != s.confirmations.p@ && s.requests.p@ != s.num_requests_pk.p@ && s.requests.p@ != s.members.p@ && s.confirmations.p@ != s.num_requests_pk.p@ && s.confirmations.p@ != s.members.p@ && s.num_requests_pk.p@ != s.members.p@ }
pub open spec fn kept_p(a: MS, b: MS) -> bool { a.requests.p@ == b.requests.p@ && a.confirmations.p@ == b.confirmations.p@ && a.num_requests_pk.p@ == b.num_requests_pk.p@ && a.members.p@ == b.members.p@ }
pub open spec fn minv(s: MS) -> bool {
  &&& forall|k: u32| #[trigger] s.requests.m@.dom().contains(k) <==> s.confirmations.m@.dom().contains(k)
  &&& forall|k: u32| #[trigger] s.requests.m@.dom().contains(k) ==> k < s.request_nonce
  &&& forall|p: Mb| #[trigger] slots(s.num_requests_pk.m@, p) == cnt(s.requests.m@, p)
}
// everything except requests that are gone and the slots of deleted keys is as it was
pub open spec fn purged(a: MS, b: MS, s: Seq<Ac>) -> bool {
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !deleted(s, a.requests.m@[k].member)
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) ==> b.requests.m@[k] == a.requests.m@[k]
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s, a.requests.m@[k].member))
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) ==> b.confirmations.m@[k] == a.confirmations.m@[k]
  &&& forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == (if deleted(s, p) { 0 } else { slots(a.num_requests_pk.m@, p) })
}
pub open spec fn same_store(a: MS, b: MS) -> bool { a.requests.m@ =~= b.requests.m@ && a.confirmations.m@ =~= b.confirmations.m@ && a.num_requests_pk.m@ =~= b.num_requests_pk.m@ }
pub open spec fn same_rest(a: MS, b: MS) -> bool { a.request_nonce == b.request_nonce && a.num_confirmations == b.num_confirmations && a.active_requests_limit == b.active_requests_limit && a.members.s@ =~= b.members.s@ }
pub open spec fn same_all(a: MS, b: MS) -> bool { same_store(a, b) && same_rest(a, b) }
pub open spec fn set_to(a: MS, b: MS, act: Ac) -> bool {
  match act {
    MultiSigRequestAction::SetNumConfirmations { num_confirmations } => b.num_confirmations == num_confirmations && b.active_requests_limit == a.active_requests_limit,
    MultiSigRequestAction::SetActiveRequestsLimit { active_requests_limit } => b.active_requests_limit == active_requests_limit && b.num_confirmations == a.num_confirmations,
    _ => b.num_confirmations == a.num_confirmations && b.active_requests_limit == a.active_requests_limit,
  }
}
// the wallet and its receipts after running r from (a, w)
pub open spec fn ran_receipts(a: WV, b: WV, r: MultiSigRequest) -> bool {
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && self_only(#[trigger] r.actions.s@[i]) ==> r.receiver_id == a.c.cur
  &&& forall|i: int| 0 <= i < r.actions.s@.len() && is_set(#[trigger] r.actions.s@[i]) ==> r.actions.s@.len() == 1
  &&& b.proms.len() == a.proms.len() + 1 && b.proms.last().to == r.receiver_id.s@ && b.proms.last().after == None::<nat> && b.proms.last().acts =~= (if has_set(r.actions.s@) { Seq::empty() } else { acts_of(r.actions.s@, a.c.cur) })
  &&& forall|i: int| 0 <= i < a.proms.len() ==> #[trigger] b.proms[i] == a.proms[i]
}
pub open spec fn ran_config(a: MS, b: MS, r: MultiSigRequest) -> bool { a.request_nonce == b.request_nonce && b.members.s@ =~= mems_of(r.actions.s@, a.members.s@) && (has_del(r.actions.s@) ==> b.members.s@.len() >= a.num_confirmations) && set_to(a, b, if has_set(r.actions.s@) { r.actions.s@[0] } else { MultiSigRequestAction::CreateAccount }) }
pub open spec fn ended(a: MS, b: MS, id: u32) -> bool {
  a.requests.m@.dom().contains(id) && b.requests.m@ =~= a.requests.m@.remove(id) && b.confirmations.m@ =~= a.confirmations.m@.remove(id)
  && ({ let p = a.requests.m@[id].member; let n = slots(a.num_requests_pk.m@, p); b.num_requests_pk.m@ =~= a.num_requests_pk.m@.insert(mstr(p), (if n > 0 { n - 1 } else { 0 }) as u32) })
}
pub proof fn cnt_zero(m: Map<u32, Rq>, p: Mb)
  requires forall|k: u32| #[trigger] m.dom().contains(k) ==> m[k].member != p
  ensures cnt(m, p) == 0
  decreases m.dom().len()
{
  if m.dom().len() > 0 {
    let k = m.dom().choose(); assert(m.dom().contains(k));
    sum_remove(m, cntf(p), k);
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    cnt_zero(m.remove(k), p);
  }
}
// dropping every request of some other key leaves a key's count alone
pub proof fn cnt_same(m: Map<u32, Rq>, n: Map<u32, Rq>, p: Mb)
  requires forall|k: u32| #[trigger] n.dom().contains(k) ==> m.dom().contains(k) && n[k] == m[k],
    forall|k: u32| #[trigger] m.dom().contains(k) && m[k].member == p ==> n.dom().contains(k),
  ensures cnt(m, p) == cnt(n, p)
  decreases m.dom().len()
{
  if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); assert(n =~= Map::empty()); }
  else {
    let k = m.dom().choose(); assert(m.dom().contains(k));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    sum_remove(m, cntf(p), k);
    if n.dom().contains(k) { sum_remove(n, cntf(p), k); cnt_same(m.remove(k), n.remove(k), p); } else { assert(n.remove(k) =~= n); cnt_same(m.remove(k), n, p); }
  }
}
pub proof fn inv_ended(a: MS, b: MS, id: u32)
  requires minv(a), ended(a, b, id), a.request_nonce == b.request_nonce
  ensures minv(b)
{
  mstr_all();
  let r = a.requests.m@[id];
  assert forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    sum_remove(a.requests.m@, cntf(p), id);
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    cnt_nonneg(b.requests.m@, p);
  }
}
pub proof fn cnt_nonneg(m: Map<u32, Rq>, p: Mb) ensures cnt(m, p) >= 0 { sum_nonneg(m, cntf(p)); }
pub proof fn inv_purged(a: MS, b: MS, s: Seq<Ac>)
  requires minv(a), purged(a, b, s), a.request_nonce == b.request_nonce
  ensures minv(b)
{
  mstr_all();
  assert forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    if deleted(s, p) { cnt_zero(b.requests.m@, p); }
    else { cnt_same(a.requests.m@, b.requests.m@, p); }
  }
}
// dropping one more key's requests
pub open spec fn wiped(a: MS, b: MS, act: Ac) -> bool {
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !del_of(act, a.requests.m@[k].member)
  &&& forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) ==> b.requests.m@[k] == a.requests.m@[k]
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && del_of(act, a.requests.m@[k].member))
  &&& forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) ==> b.confirmations.m@[k] == a.confirmations.m@[k]
  &&& forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == (if del_of(act, p) { 0 } else { slots(a.num_requests_pk.m@, p) })
}
pub proof fn purged_step(a: MS, m: MS, b: MS, s: Seq<Ac>, act: Ac)
  requires purged(a, m, s), wiped(m, b, act)
  ensures purged(a, b, s.push(act))
{
  assert forall|p: Mb| true implies #[trigger] deleted(s.push(act), p) == (deleted(s, p) || del_of(act, p)) by { deleted_push(s, act, p); }
  assert forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s.push(act), a.requests.m@[k].member)) by { assert(m.requests.m@.dom().contains(k) <==> a.requests.m@.dom().contains(k) && !deleted(s, a.requests.m@[k].member)); assert(m.confirmations.m@.dom().contains(k) <==> a.confirmations.m@.dom().contains(k) && !(a.requests.m@.dom().contains(k) && deleted(s, a.requests.m@[k].member))); }
  assert forall|k: u32| #[trigger] b.confirmations.m@.dom().contains(k) implies b.confirmations.m@[k] == a.confirmations.m@[k] by { assert(m.confirmations.m@.dom().contains(k)); }
  assert forall|k: u32| #[trigger] b.requests.m@.dom().contains(k) implies b.requests.m@[k] == a.requests.m@[k] by { assert(m.requests.m@.dom().contains(k)); }
  assert forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == (if deleted(s.push(act), p) { 0 } else { slots(a.num_requests_pk.m@, p) }) by { assert(slots(m.num_requests_pk.m@, p) == (if deleted(s, p) { 0 } else { slots(a.num_requests_pk.m@, p) })); }
}
pub proof fn deleted_push(s: Seq<Ac>, a: Ac, p: Mb)
  ensures deleted(s.push(a), p) == (deleted(s, p) || del_of(a, p))
{
  let t = s.push(a);
  if deleted(s, p) { let i = choose|i: int| 0 <= i < s.len() && del_of(#[trigger] s[i], p); assert(t[i] == s[i]); }
  if del_of(a, p) { assert(t[s.len() as int] == a); }
  if deleted(t, p) { let i = choose|i: int| 0 <= i < t.len() && del_of(#[trigger] t[i], p); if i < s.len() { assert(s[i] == t[i]); } }
}

@api new(members: Vec<MultisigMember>, num_confirmations: u32)

@fn MultisigMember::to_string()
@ens ret.s@ == json_str(S0.js())

@fn MultiSigContract::current_member()
@ens W1 == W0
@ens ret == (if S0.members.s@.contains(cm(W0)) { Some(cm(W0)) } else { None })

@fn MultiSigContract::remove_request(id)
@ens S1 == (MultiSigContract { requests: S1.requests, confirmations: S1.confirmations, num_requests_pk: S1.num_requests_pk, ..S0 })
@ens[C15] kept_p(S0, S1)
@ens ended(S0, S1, id) && ret == S0.requests.m@[id].request && W1 == W0

@fn MultiSigContract::add_member(p, m)
@req valid_prom(p, old(w)@) && (old(w)@.c.mp || true)
@ens[C15] kept_p(S0, S1)
@ens S1 == (MultiSigContract { members: S1.members, ..S0 }) && S1.members.s@ == S0.members.s@.insert(m)
@ens ret == p
@ens W1.proms.len() == W0.proms.len()
@ens[C16] W1 == (match m { MultisigMember::AccessKey { public_key } => add_act(W0, p.id@, Act::AddKey(public_key.s@, 0, W0.c.cur.s@, methods(), 0)), _ => W0 })

@fn MultiSigContract::delete_member(p, m)
@req valid_prom(p, old(w)@) && (old(w)@.c.mp || old(self).members.s@.len() >= old(self).num_confirmations + 1)
@ens[C15] kept_p(S0, S1)
@ens same_rest(S0, MultiSigContract { members: S0.members, ..S1 })
@ens[C14,C15] wiped(S0, S1, MultiSigRequestAction::DeleteMember { member: m })
@ens S1.members.s@ == S0.members.s@.remove(m) && S1.members.s@.len() >= S0.num_confirmations
@ens ret == p
@ens W1.proms.len() == W0.proms.len()
@ens[C16] W1 == (match m { MultisigMember::AccessKey { public_key } => add_act(W0, p.id@, Act::DelKey(public_key.s@)), _ => W0 })
@loop 0
@out PVec<u32>
@inv W == LW
@inv kv_order(IT, LS.requests.m@) && *self == LS
@inv forall|j: int| 0 <= j < OUT.len() ==> LS.requests.m@.dom().contains(#[trigger] OUT[j]) && LS.requests.m@[OUT[j]].member == m
@inv forall|i: int| 0 <= i < POS && (#[trigger] IT[i]).1.member == m ==> OUT.contains(IT[i].0)
@hint let x = IT[POS - 1]; if x.1.member == m { assert(OUT[OUT.len() - 1] == x.0); } assert forall|i: int| 0 <= i < POS && (#[trigger] IT[i]).1.member == m implies OUT.contains(IT[i].0) by { if i < POS - 1 { let j = choose|j: int| 0 <= j < BOUT.len() && BOUT[j] == IT[i].0; assert(OUT[j] == BOUT[j]); } };
@endloop
@loop 1
@inv W == LW
@inv[C15] kept_p(LS, *self)
@inv LS == (MultiSigContract { requests: LS.requests, confirmations: LS.confirmations, ..*self })
@inv forall|k: u32| #[trigger] self.requests.m@.dom().contains(k) <==> LS.requests.m@.dom().contains(k) && !IT.take(POS).contains(k)
@inv forall|k: u32| #[trigger] self.requests.m@.dom().contains(k) ==> self.requests.m@[k] == LS.requests.m@[k]
@inv forall|k: u32| #[trigger] self.confirmations.m@.dom().contains(k) <==> LS.confirmations.m@.dom().contains(k) && !IT.take(POS).contains(k)
@inv forall|k: u32| #[trigger] self.confirmations.m@.dom().contains(k) ==> self.confirmations.m@[k] == LS.confirmations.m@[k]
@hint let x = IT[POS - 1]; take_step(IT, POS);
@post assert(IT.take(IT.len() as int) =~= IT); assert forall|k: u32| #[trigger] LS.requests.m@.dom().contains(k) implies (IT.contains(k) <==> LS.requests.m@[k].member == m) by { if LS.requests.m@[k].member == m { } };
@post mstr_all(); let q = mstr(m); assert(forall|p: Mb| #[trigger] mstr(p) == q ==> p == m);
@endloop

@fn MultiSigContract::execute_request(r)
@req[C16] old(w)@.c.mp || runnable(*old(self), old(w)@, r)
@ens[C15] kept_p(S0, S1)
@ens[C16] ran_receipts(W0, W1, r)
@ens[C14,C15,C16] ran_config(S0, S1, r)
@ens[C14,C15] purged(S0, S1, r.actions.s@)
@loop 0
@brk
@inv[C15] kept_p(S0, *self)
@inv IT == r.actions.s@ && num_actions == IT.len() && receiver_id == r.receiver_id
@inv[C14,C15,C16] self.request_nonce == S0.request_nonce && self.num_confirmations == S0.num_confirmations && self.active_requests_limit == S0.active_requests_limit
@inv[C14,C15,C16] self.members.s@ =~= mems_of(IT.take(POS), S0.members.s@) && (has_del(IT.take(POS)) ==> self.members.s@.len() >= S0.num_confirmations)
@inv[C14,C15,C16] forall|i: int| 0 <= i < POS ==> !is_set(#[trigger] IT[i]) && (self_only(IT[i]) ==> r.receiver_id == W.c.cur)
@inv MUT0.id@ == W0.proms.len() && W.proms.len() == W0.proms.len() + 1
@inv[C16] W.proms.last().to == r.receiver_id.s@ && W.proms.last().after == None::<nat> && W.proms.last().acts =~= acts_of(IT.take(POS), W.c.cur)
@inv[C16] forall|i: int| 0 <= i < W0.proms.len() ==> #[trigger] W.proms[i] == W0.proms[i]
@inv[C14,C15] purged(S0, *self, IT.take(POS))
@inv[C16] W.c.mp || (runnable(S0, W0, r) && need(IT, POS as int) <= W.bal)
@pre[C14,C15,C16] assert(IT.take(0) =~= Seq::empty());
@hint assert(IT.take(POS) =~= IT.take(POS - 1).push(IT[POS - 1])); mems_push(IT.take(POS - 1), IT[POS - 1], S0.members.s@);
@hint del_step(IT.take(POS - 1), IT[POS - 1]);
@hint[C16] acts_push(IT.take(POS - 1), IT[POS - 1], W.c.cur);
@hint[C14,C15] purged_step(S0, BS, *self, IT.take(POS - 1), IT[POS - 1]);
@post assert(IT.take(IT.len() as int) =~= IT);
@endloop

@prelude
// the wallet once request id has been taken out
pub open spec fn mid(a: MS, id: u32) -> MS {
  let p = a.requests.m@[id].member; let n = slots(a.num_requests_pk.m@, p);
  MultiSigContract {
    requests: UMap { m: Ghost(a.requests.m@.remove(id)), ..a.requests },
    confirmations: UMap { m: Ghost(a.confirmations.m@.remove(id)), ..a.confirmations },
    num_requests_pk: UMap { m: Ghost(a.num_requests_pk.m@.insert(mstr(p), (if n > 0 { n - 1 } else { 0 }) as u32)), ..a.num_requests_pk },
    ..a }
}
// the wallet once the caller's key has asked for r
pub open spec fn added(a: MS, w: WV, r: MultiSigRequest) -> MS {
  MultiSigContract {
    requests: UMap { m: Ghost(a.requests.m@.insert(a.request_nonce, MultiSigRequestWithSigner { request: r, member: cm(w), added_timestamp: w.c.ts })), ..a.requests },
    confirmations: UMap { m: Ghost(a.confirmations.m@.insert(a.request_nonce, HSet { s: Ghost(Set::empty()) })), ..a.confirmations },
    num_requests_pk: UMap { m: Ghost(a.num_requests_pk.m@.insert(mstr(cm(w)), (slots(a.num_requests_pk.m@, cm(w)) + 1) as u32)), ..a.num_requests_pk },
    request_nonce: (a.request_nonce + 1) as u32,
    ..a }
}
pub open spec fn confs(s: MS, id: u32) -> Set<Str> { s.confirmations.m@[id].s@ }
pub open spec fn reached(s: MS, w: WV, id: u32) -> bool { confs(s, id).len() + 1 >= s.num_confirmations }
// one confirmation by the calling key, short of the required number
pub open spec fn noted(a: MS, b: MS, w: WV, id: u32) -> bool {
  b.requests.m@ =~= a.requests.m@ && b.num_requests_pk.m@ =~= a.num_requests_pk.m@ && same_rest(a, b)
  && b.confirmations.m@ =~= a.confirmations.m@.insert(id, HSet { s: Ghost(confs(a, id).insert(mstr(cm(w)))) })
}
// what confirming request id from wallet a leaves behind
pub open spec fn confirmed(a: MS, b: MS, w: WV, id: u32) -> bool {
  &&& a.requests.m@.dom().contains(id) && !confs(a, id).contains(mstr(cm(w))) && a.members.s@.contains(cm(w))
  &&& reached(a, w, id) ==> { let r = a.requests.m@[id].request; purged(mid(a, id), b, r.actions.s@) && ran_config(mid(a, id), b, r) }
  &&& !reached(a, w, id) ==> noted(a, b, w, id)
}
pub open spec fn new_conf(a: MS, b: MS, k: u32, p: Str) -> bool { b.confirmations.m@.dom().contains(k) && confs(b, k).contains(p) && !(a.confirmations.m@.dom().contains(k) && confs(a, k).contains(p)) }
pub proof fn inv_confirmed(a: MS, b: MS, w: WV, id: u32)
  requires minv(a), confirmed(a, b, w, id)
  ensures minv(b)
{
  mstr_all();
  if reached(a, w, id) { inv_ended(a, mid(a, id), id); inv_purged(mid(a, id), b, a.requests.m@[id].request.actions.s@); }
  else { assert forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by { assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p)); } }
}
pub proof fn inv_added(a: MS, w: WV, r: MultiSigRequest)
  requires minv(a), a.request_nonce < u32::MAX, slots(a.num_requests_pk.m@, cm(w)) < u32::MAX
  ensures minv(added(a, w, r))
{
  mstr_all();
  let b = added(a, w, r);
  assert forall|p: Mb| #[trigger] slots(b.num_requests_pk.m@, p) == cnt(b.requests.m@, p) by {
    assert(slots(a.num_requests_pk.m@, p) == cnt(a.requests.m@, p));
    assert(!a.requests.m@.dom().contains(a.request_nonce));
    sum_insert(a.requests.m@, cntf(p), a.request_nonce, b.requests.m@[a.request_nonce]);
  }
}

@init
@ens[C24] !W0.c.exists
@ens[C15] apart(S1)
@ens[C14,C15,C16] minv(S1) && S1.requests.m@ =~= Map::<u32, Rq>::empty() && S1.active_requests_limit == 12 && S1.request_nonce == 0
@hint[C15] assert(S1.requests.p@ == S1.confirmations.p@ ==> S1.requests.p@[0] == S1.confirmations.p@[0]); assert(S1.requests.p@ == S1.num_requests_pk.p@ ==> S1.requests.p@[0] == S1.num_requests_pk.p@[0]); assert(S1.requests.p@ == S1.members.p@ ==> S1.requests.p@[0] == S1.members.p@[0]); assert(S1.confirmations.p@ == S1.num_requests_pk.p@ ==> S1.confirmations.p@[0] == S1.num_requests_pk.p@[0]); assert(S1.confirmations.p@ == S1.members.p@ ==> S1.confirmations.p@[0] == S1.members.p@[0]); assert(S1.num_requests_pk.p@ == S1.members.p@ ==> S1.num_requests_pk.p@[0] == S1.members.p@[0]);
@hint[C14,C15,C16] assert forall|p: Mb| #[trigger] slots(S1.num_requests_pk.m@, p) == cnt(S1.requests.m@, p) by { sum_empty::<u32, Rq>(cntf(p)); };
@entry new(ms, n)
@ens[C14] S1.num_confirmations == n && n <= ms.s@.len() && S1.members.s@ =~= ms.s@.to_set()
@ens[C16] W1.proms.len() == 1 && W1.proms[0].to == W0.c.cur.s@ && W1.proms[0].acts =~= keys_of(ms.s@, W0.c.cur)
@loops MultiSigContract::new(ms, n)
@loop 0
@inv IT == ms.s@ && MUT0.id@ == 0 && W.proms.len() == 1
@inv[C15] kept_p(LMUT1, MUT1)
@inv MUT1.num_confirmations == n && MUT1.requests.m@ == LMUT1.requests.m@ && MUT1.confirmations.m@ == LMUT1.confirmations.m@ && MUT1.num_requests_pk.m@ == LMUT1.num_requests_pk.m@ && MUT1.request_nonce == 0 && MUT1.active_requests_limit == 12
@inv[C14] MUT1.members.s@ =~= IT.take(POS).to_set()
@inv[C16] W.proms[0].to == W.c.cur.s@ && W.proms[0].acts =~= keys_of(IT.take(POS), W.c.cur)
@pre assert(IT.take(0) =~= Seq::empty());
@hint take_step(IT, POS);
@hint[C16] assert(IT.take(POS).drop_last() =~= IT.take(POS - 1));
@post assert(IT.take(IT.len() as int) =~= IT);
@endloop

@step
@req minv(S0)
@ens[C15] kept_p(S0, S1)
@ens[C14,C15] minv(S1)
@ens[C15] S1.request_nonce >= S0.request_nonce
@ens[C14] !(same_all(S0, S1) && W1.proms.len() == W0.proms.len()) ==> S0.members.s@.contains(cm(W0))
@ens[C14] forall|k: u32, p: Str| #[trigger] new_conf(S0, S1, k, p) ==> p == mstr(cm(W0))
@step except confirm add_request_and_confirm
@ens[C14,C16] W1 == W0 && S1.num_confirmations == S0.num_confirmations && S1.active_requests_limit == S0.active_requests_limit && S1.members.s@ =~= S0.members.s@

@entry add_request(r)
@ens[C15] slots(S0.num_requests_pk.m@, cm(W0)) + 1 <= S0.active_requests_limit
@ens[C14,C15] ret == S0.request_nonce && S0.request_nonce < u32::MAX && same_all(added(S0, W0, r), S1)
@hint[C14,C15] if S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, cm(W0)) < u32::MAX { inv_added(S0, W0, r); assert(same_all(added(S0, W0, r), S1)); }
@entry delete_request(id)
@ens[C14,C15] ended(S0, S1, id) && same_rest(S0, S1)
@ens[C15] W0.c.ts > S0.requests.m@[id].added_timestamp + 900_000_000_000
@hint[C14,C15] if ended(S0, S1, id) { inv_ended(S0, S1, id); }
@entry confirm(id)
@ens[C14,C15] confirmed(S0, S1, W0, id)
@ens[C16] if reached(S0, W0, id) { ran_receipts(W0, W1, S0.requests.m@[id].request) && ran_config(mid(S0, id), S1, S0.requests.m@[id].request) } else { W1 == W0 && same_rest(S0, S1) }
@hint[C14,C15] if confirmed(S0, S1, W0, id) { inv_confirmed(S0, S1, W0, id); }
@entry add_request_and_confirm(r)
@ens[C15] slots(S0.num_requests_pk.m@, cm(W0)) + 1 <= S0.active_requests_limit
@ens[C14,C15] ret == S0.request_nonce && S0.request_nonce < u32::MAX && confirmed(added(S0, W0, r), S1, W0, ret)
@ens[C16] if reached(added(S0, W0, r), W0, ret) { ran_receipts(W0, W1, r) && ran_config(mid(added(S0, W0, r), ret), S1, r) } else { W1 == W0 && same_rest(added(S0, W0, r), S1) }
@hint[C14,C15] if S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, cm(W0)) < u32::MAX { inv_added(S0, W0, r); if confirmed(added(S0, W0, r), S1, W0, ret) { inv_confirmed(added(S0, W0, r), S1, W0, ret); } }

@entry get_request(id)
@ens[C15] S0.requests.m@.dom().contains(id) && ret == S0.requests.m@[id].request
@entry get_num_requests_per_member(m)
@ens[C15] ret == slots(S0.num_requests_pk.m@, m)
@entry get_members()
@ens[C14] ret.s@.no_duplicates() && ret.s@.to_set() == S0.members.s@
@entry list_request_ids()
@ens[C15] ret.s@.no_duplicates() && ret.s@.to_set() == S0.requests.m@.dom()
@entry get_confirmations(id)
@ens[C14] S0.confirmations.m@.dom().contains(id) && ret.s@.no_duplicates() && ret.s@.to_set() == confs(S0, id)
@entry get_num_confirmations()
@ens[C14] ret == S0.num_confirmations
@entry get_request_nonce()
@ens[C15] ret == S0.request_nonce

//! no member is ever locked out: a request within the limit is accepted, a confirmation that is due is counted, and the one that completes the set runs the request
@nopanic new(ms, n)
@req[C14] !W0.c.exists && W0.c.deposit == 0 && n <= ms.s@.len()
@nopanic add_request(r)
@req[C15] minv(S0) && pk_ok(W0.c.pk.s@) && S0.members.s@.contains(cm(W0)) && W0.c.deposit == 0 && S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, cm(W0)) + 1 <= S0.active_requests_limit
@nopanic confirm(id)
@req[C16] minv(S0) && pk_ok(W0.c.pk.s@) && S0.members.s@.contains(cm(W0)) && W0.c.deposit == 0 && S0.requests.m@.dom().contains(id) && !confs(S0, id).contains(mstr(cm(W0))) && confs(S0, id).len() < u32::MAX && (reached(S0, W0, id) ==> runnable(S0, W0, S0.requests.m@[id].request))
@nopanic add_request_and_confirm(r)
@req[C16] minv(S0) && pk_ok(W0.c.pk.s@) && S0.members.s@.contains(cm(W0)) && W0.c.deposit == 0 && S0.request_nonce < u32::MAX && slots(S0.num_requests_pk.m@, cm(W0)) + 1 <= S0.active_requests_limit && (S0.num_confirmations <= 1 ==> runnable(S0, W0, r))
@nopanic delete_request(id)
@req[C15] minv(S0) && pk_ok(W0.c.pk.s@) && S0.members.s@.contains(cm(W0)) && W0.c.deposit == 0 && S0.requests.m@.dom().contains(id) && W0.c.ts > S0.requests.m@[id].added_timestamp + 900_000_000_000 && S0.requests.m@[id].added_timestamp <= u64::MAX - 900_000_000_000
//! the views answer
@nopanic get_request(id)
@req[C15] S0.requests.m@.dom().contains(id)
@nopanic get_confirmations(id)
@req[C15] S0.confirmations.m@.dom().contains(id)
@nopanic get_num_requests_per_member(m)
@req[C15] true
@nopanic list_request_ids()
@req[C15] true
@nopanic get_num_confirmations()
@req[C15] true
@nopanic get_request_nonce()
@req[C15] true
@nopanic get_members()
@req[C14] true
