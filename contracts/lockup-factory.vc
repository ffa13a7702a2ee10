//! Contracts for lockup-factory/src/*.rs
@struct LockupFactory whitelist_account_id foundation_account_id
@struct VestingSchedule start_timestamp cliff_timestamp end_timestamp
@prelude
pub open spec fn min_deposit() -> int { 3_500_000_000_000_000_000_000_000 }
// the account a lockup for this owner lives under: hex of the first 20 bytes of the owner's hash
pub open spec fn lockup_id(owner: Str, parent: Str) -> Seq<char> { hex_s(sha256_s(str_bytes(owner.s@)).subrange(0, 20)) + "."@ + parent.s@ }
pub open spec fn n64(x: U64) -> JV { JV::S(num_str(x.0 as int)) }
pub open spec fn opt64(x: Option<U64>) -> JV { match x { Some(v) => n64(v), None => JV::Null } }
pub open spec fn is_obj1(j: JV, k: Seq<char>) -> bool { j is O && j->O_0.dom() =~= set![k] }
pub open spec fn transfers_started(j: JV) -> bool { is_obj1(j, "TransfersEnabled"@) && ({ let t = j->O_0["TransfersEnabled"@]; is_obj1(t, "transfers_timestamp"@) && t->O_0["transfers_timestamp"@] == JV::S(num_str(1602614338293769340)) }) }
pub open spec fn schedule_js(j: JV, v: Option<VestingScheduleOrHash>) -> bool {
  match v {
    None => j == JV::Null,
    Some(VestingScheduleOrHash::VestingHash(h)) => is_obj1(j, "VestingHash"@) && j->O_0["VestingHash"@] == JV::Bytes(h.0.s@),
    Some(VestingScheduleOrHash::VestingSchedule(s)) => is_obj1(j, "VestingSchedule"@) && j->O_0["VestingSchedule"@] is O && j->O_0["VestingSchedule"@]->O_0 =~= map!["start_timestamp"@ => n64(s.start_timestamp), "cliff_timestamp"@ => n64(s.cliff_timestamp), "end_timestamp"@ => n64(s.end_timestamp)],
  }
}

@init
@ens[C24] !W0.c.exists
@ens[C20] W1 == W0
@entry new(wl, fnd)
@ens[C20] S1.whitelist_account_id == wl && S1.foundation_account_id == fnd

@step
@ens[C20] can_run(W1.proms) && gas_out(W1.proms) <= 295_000_000_000_000
@ens[C20] S1 == S0
@step except create on_lockup_create
@ens[C20] W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal

@entry create(owner, dur, lts, vs, rel, wl)
@ens[C20] W0.c.deposit >= min_deposit()
@ens[C20] W1.proms.len() == 2 && W1.proms[0].to =~= lockup_id(owner, W0.c.cur) && W1.proms[0].after is None && W1.proms[0].acts.len() == 4
@ens[C20] ({ let a = W1.proms[0].acts; let code = Act::Deploy(wasm_of("../../lockup/res/lockup_contract.wasm"@)); a[0] is CreateAccount && ((a[1] == code && a[2] == Act::Transfer(W0.c.deposit)) || (a[2] == code && a[1] == Act::Transfer(W0.c.deposit))) }) && W1.bal == W0.bal - W0.c.deposit
@ens[C20] W1.proms[0].acts[3] is Call && W1.proms[0].acts[3]->m == str_bytes("new"@) && W1.proms[0].acts[3]->dep == 0
@ens[C20] ({ let j = json_unbytes(W1.proms[0].acts[3]->args); j is O && ({ let o = j->O_0; o.dom() =~= set!["owner_account_id"@, "lockup_duration"@, "lockup_timestamp"@, "transfers_information"@, "vesting_schedule"@, "release_duration"@, "staking_pool_whitelist_account_id"@, "foundation_account_id"@] })})
@ens[C20] ({ let o = json_unbytes(W1.proms[0].acts[3]->args)->O_0; o["owner_account_id"@] == JV::S(owner.s@) && o["lockup_duration"@] == n64(dur) && o["lockup_timestamp"@] == opt64(lts) && o["release_duration"@] == opt64(rel) })
@ens[C20] ({ let o = json_unbytes(W1.proms[0].acts[3]->args)->O_0; transfers_started(o["transfers_information"@]) && schedule_js(o["vesting_schedule"@], vs) })
@ens[C20] ({ let o = json_unbytes(W1.proms[0].acts[3]->args)->O_0; o["staking_pool_whitelist_account_id"@] == JV::S(match wl { Some(x) => x.s@, None => S0.whitelist_account_id.s@ }) && o["foundation_account_id"@] == (if vs is Some { JV::S(S0.foundation_account_id.s@) } else { JV::Null }) })
@ens[C20] W1.proms[1].acts.len() == 1 && W1.proms[1].to == W0.c.cur.s@ && W1.proms[1].after == Some(0nat) && W1.proms[1].acts[0] is Call && W1.proms[1].acts[0]->m == str_bytes("on_lockup_create"@) && W1.proms[1].acts[0]->dep == 0
@ens[C20] ({ let j = json_unbytes(W1.proms[1].acts[0]->args); j is O && j->O_0.dom() =~= set!["lockup_account_id"@, "attached_deposit"@, "predecessor_account_id"@] && j->O_0["lockup_account_id"@] is S && j->O_0["lockup_account_id"@]->S_0 =~= lockup_id(owner, W0.c.cur) && j->O_0["attached_deposit"@] == JV::S(num_str(W0.c.deposit as int)) && j->O_0["predecessor_account_id"@] == JV::S(W0.c.pred.s@) })
@ens[C20] ret.id@ == 1

@entry on_lockup_create(id, amount, payer)
@ens[C20] W0.c.pred == W0.c.cur && W0.c.results.len() >= 1 && ret == (W0.c.results[0] is Successful)
@ens[C20] W0.c.results[0] is Successful ==> W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal
@ens[C20] !(W0.c.results[0] is Successful) ==> W1.bal == W0.bal - amount.0 && W1.proms.len() == 1 && W1.proms[0].to == payer.s@ && W1.proms[0].acts =~= seq![Act::Transfer(amount.0)]
@nopanic on_lockup_create(id, amount, payer)
@req[C20] W0.c.deposit == 0 && W0.c.pred == W0.c.cur && W0.c.results.len() == 1 && amount.0 <= W0.bal

@entry get_foundation_account_id()
@ens[C20] ret == S0.foundation_account_id
@entry get_lockup_master_account_id()
@ens[C20] ret == W0.c.cur
@entry get_min_attached_balance()
@ens[C20] ret.0 == min_deposit()
//! a funded request is carried out
@nopanic create(owner, dur, lts, vs, rel, wl)
@req[C20] W0.c.deposit >= min_deposit() && W0.c.deposit <= W0.bal
@nopanic get_foundation_account_id()
@req[C20] true
@nopanic get_lockup_master_account_id()
@req[C20] true
@nopanic get_min_attached_balance()
@req[C20] true
