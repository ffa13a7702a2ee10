//! Contracts for lockup/src/*.rs
@struct LockupContract owner_account_id lockup_information vesting_information staking_pool_whitelist_account_id staking_information foundation_account_id
@struct LockupInformation lockup_amount termination_withdrawn_tokens lockup_duration release_duration lockup_timestamp transfers_information
@struct StakingInformation staking_pool_account_id status deposit_amount
@struct VestingSchedule start_timestamp cliff_timestamp end_timestamp
@struct TerminationInformation unvested_amount status
@struct VestingScheduleWithSalt vesting_schedule salt

@prelude
pub type LC = LockupContract;
pub type VI = VestingInformation;
pub type TS = TerminationStatus;
// ---- the agreed schedule
pub open spec fn sat64(x: int) -> int { if x > u64::MAX { u64::MAX as int } else { x } }
pub open spec fn pos(x: int) -> int { if x > 0 { x } else { 0 } }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn enabled(s: LC) -> bool { s.lockup_information.transfers_information is TransfersEnabled }
pub open spec fn opens_at(s: LC) -> int { mx(sat64(s.lockup_information.transfers_information->transfers_timestamp.0 + s.lockup_information.lockup_duration), match s.lockup_information.lockup_timestamp { Some(t) => t as int, None => 0 }) }
pub open spec fn unreleased(s: LC, now: int) -> int {
  match s.lockup_information.release_duration {
    Some(d) => if now >= sat64(opens_at(s) + d) { 0 } else { s.lockup_information.lockup_amount * (sat64(opens_at(s) + d) - now) / (d as int) },
    None => 0,
  }
}
pub open spec fn vs_ok(v: VestingSchedule) -> bool { v.start_timestamp.0 <= v.cliff_timestamp.0 <= v.end_timestamp.0 && v.start_timestamp.0 < v.end_timestamp.0 }
pub open spec fn by_schedule(amount: int, v: VestingSchedule, now: int) -> int {
  if now < v.cliff_timestamp.0 { amount } else if now >= v.end_timestamp.0 { 0 } else { amount * (v.end_timestamp.0 - now) / (v.end_timestamp.0 - v.start_timestamp.0) }
}
pub open spec fn unvested(s: LC, v: VestingSchedule, now: int) -> int {
  match s.vesting_information { VestingInformation::Terminating(t) => t.unvested_amount.0 as int, VestingInformation::None => 0, _ => by_schedule(s.lockup_information.lockup_amount as int, v, now) }
}
pub open spec fn own_unvested(s: LC, now: int) -> int {
  match s.vesting_information { VestingInformation::VestingSchedule(v) => unvested(s, v, now), VestingInformation::Terminating(t) => t.unvested_amount.0 as int, _ => 0 }
}
pub open spec fn locked(s: LC, now: int) -> int {
  if enabled(s) && opens_at(s) <= now { mx(pos(unreleased(s, now) - s.lockup_information.termination_withdrawn_tokens), own_unvested(s, now)) }
  else { s.lockup_information.lockup_amount - s.lockup_information.termination_withdrawn_tokens }
}
// ---- standing invariant: what termination gave back or holds is part of the lockup amount
pub open spec fn linv(s: LC) -> bool {
  match s.vesting_information {
    VestingInformation::None => s.lockup_information.termination_withdrawn_tokens <= s.lockup_information.lockup_amount,
    VestingInformation::VestingHash(_) => s.lockup_information.termination_withdrawn_tokens == 0,
    VestingInformation::VestingSchedule(v) => s.lockup_information.termination_withdrawn_tokens == 0 && vs_ok(v),
    VestingInformation::Terminating(t) => s.lockup_information.termination_withdrawn_tokens + t.unvested_amount.0 <= s.lockup_information.lockup_amount,
  }
}
// ---- arithmetic facts (proved)
pub proof fn frac_facts(a: int, x: int, d: int)
  requires a >= 0, 0 <= x <= d, d > 0
  ensures 0 <= a * x / d <= a, 0 <= a * x <= a * d, a * x <= u128::MAX * u64::MAX || a > u128::MAX || x > u64::MAX
{
  assert(0 <= a * x <= a * d) by(nonlinear_arith) requires a >= 0, 0 <= x <= d;
  assert(0 <= a * x / d && d * (a * x / d) <= a * x) by(nonlinear_arith) requires a * x >= 0, d > 0;
  let q = a * x / d;
  assert(q <= a) by(nonlinear_arith) requires d * q <= a * x, a * x <= a * d, d > 0;
  if a <= u128::MAX && x <= u64::MAX { assert(a * x <= u128::MAX * u64::MAX) by(nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= x <= u64::MAX; }
}
pub proof fn frac_mono(a: int, x: int, y: int, d: int)
  requires a >= 0, 0 <= x <= y, d > 0
  ensures a * x / d <= a * y / d
{
  assert(a * x <= a * y) by(nonlinear_arith) requires a >= 0, x <= y;
  assert(0 <= a * x) by(nonlinear_arith) requires a >= 0, 0 <= x;
  let p = a * x / d; let q = a * y / d;
  assert(d * p <= a * x && a * y < d * q + d) by(nonlinear_arith) requires d > 0, p == a * x / d, q == a * y / d, a * x >= 0, a * y >= 0;
  assert(p <= q) by(nonlinear_arith) requires d * p <= a * x, a * x <= a * y, a * y < d * q + d, d > 0;
}
pub proof fn by_schedule_facts(amount: int, v: VestingSchedule, t1: int, t2: int)
  requires amount >= 0, vs_ok(v), 0 <= t1 <= t2
  ensures 0 <= by_schedule(amount, v, t1) <= amount, by_schedule(amount, v, t2) <= by_schedule(amount, v, t1)
{
  let d = v.end_timestamp.0 - v.start_timestamp.0; let e = v.end_timestamp.0 as int;
  if v.cliff_timestamp.0 <= t1 < e { frac_facts(amount, e - t1, d); }
  if v.cliff_timestamp.0 <= t2 < e { frac_facts(amount, e - t2, d); if v.cliff_timestamp.0 <= t1 { frac_mono(amount, e - t2, e - t1, d); } }
}
pub proof fn unreleased_facts(s: LC, t1: int, t2: int)
  requires opens_at(s) <= t1 <= t2
  ensures 0 <= unreleased(s, t1) <= s.lockup_information.lockup_amount, unreleased(s, t2) <= unreleased(s, t1)
{
  match s.lockup_information.release_duration {
    Some(d) => {
      let e = sat64(opens_at(s) + d);
      if t1 < e { frac_facts(s.lockup_information.lockup_amount as int, e - t1, d as int); if t2 < e { frac_mono(s.lockup_information.lockup_amount as int, e - t2, e - t1, d as int); } }
    }
    None => {}
  }
}
// the locked amount is never more than the lockup amount and never grows while the contract is unchanged
pub proof fn locked_facts(s: LC, t1: int, t2: int)
  requires linv(s), 0 <= t1 <= t2
  ensures 0 <= locked(s, t1) <= s.lockup_information.lockup_amount, locked(s, t2) <= locked(s, t1)
{
  if enabled(s) && opens_at(s) <= t2 { unreleased_facts(s, t2, t2); if opens_at(s) <= t1 { unreleased_facts(s, t1, t2); } }
  if let VestingInformation::VestingSchedule(v) = s.vesting_information { by_schedule_facts(s.lockup_information.lockup_amount as int, v, t1, t2); }
}
// ---- balances
pub open spec fn reserve() -> int { 3_500_000_000_000_000_000_000_000 }
pub open spec fn liquid(w: WV) -> int { pos(w.bal - reserve()) }
pub open spec fn deposited(s: LC) -> int { match s.staking_information { Some(i) => i.deposit_amount.0 as int, None => 0 } }
pub open spec fn owners(s: LC, w: WV) -> int { pos(w.bal + deposited(s) - locked(s, w.c.ts as int)) }
// ---- the staking pool
pub open spec fn idle(s: LC) -> bool { s.staking_information is Some && s.staking_information->Some_0.status is Idle }
pub open spec fn busy(s: LC) -> bool { s.staking_information is Some && s.staking_information->Some_0.status is Busy }
pub open spec fn pool(s: LC) -> Str { s.staking_information->Some_0.staking_pool_account_id }
pub open spec fn with_staking(s: LC, st: TransactionStatus, dep: int) -> LC {
  LockupContract { staking_information: Some(StakingInformation { staking_pool_account_id: pool(s), status: st, deposit_amount: U128(dep as u128) }), ..s }
}
pub open spec fn started(a: LC, b: LC) -> bool { idle(a) && b == with_staking(a, TransactionStatus::Busy, deposited(a)) }
pub open spec fn settled(a: LC, b: LC, dep: int) -> bool { a.staking_information is Some && b == with_staking(a, TransactionStatus::Idle, dep) }
pub open spec fn terminating(s: LC) -> bool { s.vesting_information is Terminating }
pub open spec fn tstatus(s: LC) -> TS { s.vesting_information->Terminating_0.status }
pub open spec fn tamount(s: LC) -> int { s.vesting_information->Terminating_0.unvested_amount.0 as int }
pub open spec fn with_term(s: LC, amount: int, st: TS) -> LC { LockupContract { vesting_information: VestingInformation::Terminating(TerminationInformation { unvested_amount: U128(amount as u128), status: st }), ..s } }
pub open spec fn owner_may(s: LC, w: WV) -> bool { w.c.pred == s.owner_account_id && !terminating(s) }
// ---- receipts
pub open spec fn is_call(p: Prom, to: Str, m: Seq<u8>, args: Seq<u8>, dep: int, after: Option<nat>) -> bool {
  p.to == to.s@ && p.acts.len() == 1 && p.acts[0] is Call && p.acts[0]->m == m && p.acts[0]->args == args && p.acts[0]->dep == dep && p.after == after
}
pub open spec fn no_args() -> Seq<u8> { Seq::empty() }
pub open spec fn js1(k: Seq<char>, v: JV) -> Seq<u8> { json_bytes(JV::O(map![k => v])) }
pub open spec fn js2(k: Seq<char>, v: JV, l: Seq<char>, x: JV) -> Seq<u8> { json_bytes(JV::O(map![k => v, l => x])) }
// a call to another contract whose answer comes back to one of our own methods
pub open spec fn ask(p: Seq<Prom>, cur: Str, to: Str, m: Seq<char>, args: Seq<u8>, dep: int, cb: Seq<char>, cargs: Seq<u8>) -> bool {
  p.len() == 2 && is_call(p[0], to, str_bytes(m), args, dep, None) && is_call(p[1], cur, str_bytes(cb), cargs, 0, Some(0))
}
pub open spec fn ok(w: WV) -> bool { w.c.results[0] is Successful }
pub open spec fn only_calls(p: Seq<Prom>) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].acts.len() ==> (#[trigger] p[i].acts[j]) is Call }
// ---- in flight: the self-calls a call leaves behind, each delivered once, later, with the arguments it was given
pub enum Cb { Whitelist(Str), Deposit(U128), DepositStake(U128), Withdraw(U128), Stake(U128), Unstake(U128), UnstakeAll, Total, UnstakedOwner, Poll, TStaked, TUnstake(U128), TUnstaked, TWithdraw(U128), Returned(U128, Str) }
pub open spec fn cb_name(c: Cb) -> Seq<char> {
  match c {
    Cb::Whitelist(_) => "on_whitelist_is_whitelisted"@, Cb::Poll => "on_get_result_from_transfer_poll"@, Cb::Returned(_, _) => "on_withdraw_unvested_amount"@,
    Cb::Deposit(_) => "on_staking_pool_deposit"@,
    Cb::DepositStake(_) => "on_staking_pool_deposit_and_stake"@,
    Cb::Withdraw(_) => "on_staking_pool_withdraw"@,
    Cb::Stake(_) => "on_staking_pool_stake"@,
    Cb::Unstake(_) => "on_staking_pool_unstake"@,
    Cb::UnstakeAll => "on_staking_pool_unstake_all"@,
    Cb::Total => "on_get_account_total_balance"@,
    Cb::UnstakedOwner => "on_get_account_unstaked_balance_to_withdraw_by_owner"@,
    Cb::TStaked => "on_get_account_staked_balance_to_unstake"@,
    Cb::TUnstake(_) => "on_staking_pool_unstake_for_termination"@,
    Cb::TUnstaked => "on_get_account_unstaked_balance_to_withdraw"@,
    Cb::TWithdraw(_) => "on_staking_pool_withdraw_for_termination"@,
  }
}
pub open spec fn cb_args(c: Cb) -> Seq<u8> {
  match c {
    Cb::Whitelist(id) => js1("staking_pool_account_id"@, id.js()),
    Cb::Returned(a, to) => js2("amount"@, a.js(), "receiver_id"@, to.js()),
    Cb::Deposit(a) | Cb::DepositStake(a) | Cb::Withdraw(a) | Cb::Stake(a) | Cb::Unstake(a) | Cb::TUnstake(a) | Cb::TWithdraw(a) => js1("amount"@, a.js()),
    _ => no_args(),
  }
}
pub open spec fn pool_cb(c: Cb) -> bool { !(c is Whitelist) && !(c is Poll) && !(c is Returned) }
pub open spec fn asks(p: Seq<Prom>, cur: Str, to: Str, m: Seq<char>, args: Seq<u8>, dep: int, c: Cb) -> bool { ask(p, cur, to, m, args, dep, cb_name(c), cb_args(c)) }
pub enum Op { Select(Str), Unselect, Deposit(U128), DepositStake(U128), Refresh, Withdraw(U128), WithdrawAll, Stake(U128), Unstake(U128), UnstakeAll, CheckVote, Transfer, AddKey, Terminate, Prepare, Return(Str), Answer(Cb, U128) }
// the self-call a call leaves behind
pub open spec fn out(op: Op, a: LC, w: WV) -> Option<Cb> {
  match op {
    Op::Select(id) => Some(Cb::Whitelist(id)), Op::Deposit(x) => Some(Cb::Deposit(x)), Op::DepositStake(x) => Some(Cb::DepositStake(x)), Op::Refresh => Some(Cb::Total),
    Op::Withdraw(x) => Some(Cb::Withdraw(x)), Op::WithdrawAll => Some(Cb::UnstakedOwner), Op::Stake(x) => Some(Cb::Stake(x)), Op::Unstake(x) => Some(Cb::Unstake(x)), Op::UnstakeAll => Some(Cb::UnstakeAll),
    Op::CheckVote => Some(Cb::Poll), Op::Prepare => Some(if tstatus(a) is VestingTerminatedWithDeficit { Cb::TStaked } else { Cb::TUnstaked }),
    Op::Return(to) => Some(Cb::Returned(U128(mn(tamount(a), liquid(w)) as u128), to)),
    Op::Answer(Cb::UnstakedOwner, b) => if b.0 > 0 { Some(Cb::Withdraw(b)) } else { None },
    Op::Answer(Cb::TStaked, b) => if b.0 > 0 { Some(Cb::TUnstake(b)) } else { None },
    Op::Answer(Cb::TUnstaked, b) => if b.0 > 0 { Some(Cb::TWithdraw(b)) } else { None },
    _ => None,
  }
}
pub open spec fn silent(p: Seq<Prom>) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].acts.len() ==> !((#[trigger] p[i].acts[j]) is Call) }
// what each exported call does to the state and which receipts it creates
pub open spec fn did(op: Op, a: LC, w: WV, b: LC, x: WV) -> bool {
  match op {
    Op::Select(id) => a.staking_information is None && b == a && asks(x.proms, w.c.cur, a.staking_pool_whitelist_account_id, "is_whitelisted"@, js1("staking_pool_account_id"@, id.js()), 0, Cb::Whitelist(id)),
    Op::Unselect => idle(a) && deposited(a) == 0 && b == (LockupContract { staking_information: None, ..a }) && x == w,
    Op::Deposit(n) => started(a, b) && n.0 > 0 && asks(x.proms, w.c.cur, pool(a), "deposit"@, no_args(), n.0 as int, Cb::Deposit(n)),
    Op::DepositStake(n) => started(a, b) && n.0 > 0 && asks(x.proms, w.c.cur, pool(a), "deposit_and_stake"@, no_args(), n.0 as int, Cb::DepositStake(n)),
    Op::Refresh => started(a, b) && asks(x.proms, w.c.cur, pool(a), "get_account_total_balance"@, js1("account_id"@, w.c.cur.js()), 0, Cb::Total),
    Op::Withdraw(n) => started(a, b) && n.0 > 0 && asks(x.proms, w.c.cur, pool(a), "withdraw"@, js1("amount"@, n.js()), 0, Cb::Withdraw(n)),
    Op::WithdrawAll => started(a, b) && asks(x.proms, w.c.cur, pool(a), "get_account_unstaked_balance"@, js1("account_id"@, w.c.cur.js()), 0, Cb::UnstakedOwner),
    Op::Stake(n) => started(a, b) && n.0 > 0 && asks(x.proms, w.c.cur, pool(a), "stake"@, js1("amount"@, n.js()), 0, Cb::Stake(n)),
    Op::Unstake(n) => started(a, b) && n.0 > 0 && asks(x.proms, w.c.cur, pool(a), "unstake"@, js1("amount"@, n.js()), 0, Cb::Unstake(n)),
    Op::UnstakeAll => started(a, b) && asks(x.proms, w.c.cur, pool(a), "unstake_all"@, no_args(), 0, Cb::UnstakeAll),
    Op::CheckVote => !enabled(a) && b == a && asks(x.proms, w.c.cur, a.lockup_information.transfers_information->transfer_poll_account_id, "get_result"@, no_args(), 0, Cb::Poll),
    Op::Transfer | Op::AddKey => b == a && silent(x.proms),
    Op::Terminate => (a.vesting_information is VestingSchedule || a.vesting_information is VestingHash) && terminating(b) && b == with_term(a, tamount(b), tstatus(b)) && (tstatus(b) is VestingTerminatedWithDeficit || tstatus(b) is ReadyToWithdraw) && x == w,
    Op::Prepare => idle(a) && terminating(a) && ((tstatus(a) is VestingTerminatedWithDeficit && b == with_term(with_staking(a, TransactionStatus::Busy, deposited(a)), tamount(a), TS::UnstakingInProgress) && asks(x.proms, w.c.cur, pool(a), "get_account_staked_balance"@, js1("account_id"@, w.c.cur.js()), 0, Cb::TStaked))
      || (tstatus(a) is EverythingUnstaked && b == with_term(with_staking(a, TransactionStatus::Busy, deposited(a)), tamount(a), TS::WithdrawingFromStakingPoolInProgress) && asks(x.proms, w.c.cur, pool(a), "get_account_unstaked_balance"@, js1("account_id"@, w.c.cur.js()), 0, Cb::TUnstaked))),
    Op::Return(to) => terminating(a) && tstatus(a) is ReadyToWithdraw && b == with_term(a, tamount(a), TS::WithdrawingFromAccountInProgress)
      && ({ let n = mn(tamount(a), liquid(w)); n > 0 && x.bal == w.bal - n && x.proms.len() == 2 && x.proms[0].to == to.s@ && x.proms[0].acts =~= seq![Act::Transfer(n as u128)] && is_call(x.proms[1], w.c.cur, str_bytes(cb_name(Cb::Returned(U128(n as u128), to))), cb_args(Cb::Returned(U128(n as u128), to)), 0, Some(0)) }),
    Op::Answer(c, got) => w.c.results.len() >= 1 && match c {
      Cb::Whitelist(id) => ok(w) && a.staking_information is None && !terminating(a) && x == w && b == (LockupContract { staking_information: Some(StakingInformation { staking_pool_account_id: id, status: TransactionStatus::Idle, deposit_amount: U128(0) }), ..a }),
      Cb::Deposit(n) | Cb::DepositStake(n) => settled(a, b, deposited(a) + (if ok(w) { n.0 as int } else { 0 })) && deposited(b) == deposited(a) + (if ok(w) { n.0 as int } else { 0 }) && x == w,
      Cb::Withdraw(n) => settled(a, b, if ok(w) { pos(deposited(a) - n.0) } else { deposited(a) }) && x == w,
      Cb::Stake(_) | Cb::Unstake(_) | Cb::UnstakeAll => settled(a, b, deposited(a)) && x == w,
      Cb::Total => ok(w) && settled(a, b, got.0 as int) && x == w,
      Cb::UnstakedOwner => ok(w) && (if got.0 > 0 { b == a && asks(x.proms, w.c.cur, pool(a), "withdraw"@, js1("amount"@, got.js()), 0, Cb::Withdraw(got)) } else { settled(a, b, deposited(a)) && x == w }),
      Cb::Poll => !enabled(a) && ok(w) && x == w && b == (LockupContract { lockup_information: b.lockup_information, ..a }),
      Cb::TStaked => ok(w) && (if got.0 > 0 { b == a && asks(x.proms, w.c.cur, pool(a), "unstake"@, js1("amount"@, got.js()), 0, Cb::TUnstake(got)) } else { b == with_term(with_staking(a, TransactionStatus::Idle, deposited(a)), tamount(a), TS::EverythingUnstaked) && x == w }),
      Cb::TUnstake(_) => terminating(a) && x == w && b == with_term(with_staking(a, TransactionStatus::Idle, deposited(a)), tamount(a), if ok(w) { TS::EverythingUnstaked } else { TS::VestingTerminatedWithDeficit }),
      Cb::TUnstaked => ok(w) && (if got.0 > 0 { b == a && asks(x.proms, w.c.cur, pool(a), "withdraw"@, js1("amount"@, got.js()), 0, Cb::TWithdraw(got)) } else { b == with_term(with_staking(a, TransactionStatus::Idle, deposited(a)), tamount(a), TS::ReadyToWithdraw) && x == w }),
      Cb::TWithdraw(n) => x == w && b == (if ok(w) { with_term(with_staking(a, TransactionStatus::Idle, pos(deposited(a) - n.0)), tamount(a), TS::ReadyToWithdraw) } else { with_term(with_staking(a, TransactionStatus::Idle, deposited(a)), tamount(a), TS::EverythingUnstaked) }),
      Cb::Returned(n, _) => x == w && (!ok(w) ==> b == with_term(a, tamount(a), TS::ReadyToWithdraw))
        && (ok(w) && n.0 < tamount(a) ==> b == with_term(LockupContract { lockup_information: b.lockup_information, ..a }, tamount(a) - n.0, TS::ReadyToWithdraw))
        && (ok(w) && n.0 == tamount(a) ==> b == (LockupContract { lockup_information: b.lockup_information, vesting_information: VI::None, foundation_account_id: None, ..a })),
    },
  }
}
// what a pending answer relies on when it arrives
pub open spec fn rely(c: Cb, s: LC) -> bool {
  match c {
    Cb::Whitelist(_) | Cb::Poll => true,
    Cb::TStaked | Cb::TUnstake(_) => busy(s) && terminating(s) && tstatus(s) is UnstakingInProgress,
    Cb::TUnstaked | Cb::TWithdraw(_) => busy(s) && terminating(s) && tstatus(s) is WithdrawingFromStakingPoolInProgress,
    Cb::Returned(n, _) => terminating(s) && tstatus(s) is WithdrawingFromAccountInProgress && 0 < n.0 <= tamount(s),
    _ => busy(s),
  }
}
// one slot for the pool operation and one for the return: `in_flight` shows there is never a second one
pub struct Fly { pub pool: Option<Cb>, pub ret: Option<Cb> }
pub open spec fn fly_ok(s: LC, f: Fly) -> bool {
  (f.pool matches Some(c) ==> pool_cb(c) && rely(c, s)) && (f.ret matches Some(c) ==> c is Returned && rely(c, s))
}
pub open spec fn delivered(op: Op, f: Fly) -> bool {
  match op { Op::Answer(c, _) => if pool_cb(c) { f.pool == Some(c) } else if c is Returned { f.ret == Some(c) } else { true }, _ => true }
}
pub open spec fn taken(op: Op, f: Fly) -> Fly {
  match op { Op::Answer(c, _) => if pool_cb(c) { Fly { pool: None, ..f } } else if c is Returned { Fly { ret: None, ..f } } else { f }, _ => f }
}
pub open spec fn fly_next(op: Op, a: LC, w: WV, f: Fly) -> Fly {
  match out(op, a, w) { Some(c) => if pool_cb(c) { Fly { pool: Some(c), ..taken(op, f) } } else if c is Returned { Fly { ret: Some(c), ..taken(op, f) } } else { taken(op, f) }, None => taken(op, f) }
}
pub proof fn in_flight(op: Op, a: LC, w: WV, b: LC, x: WV, f: Fly)
  requires fly_ok(a, f), delivered(op, f), did(op, a, w, b, x)
  ensures
    fly_ok(b, fly_next(op, a, w, f)),
    // the slot is free, and the self-call that was sent is the one recorded
    out(op, a, w) matches Some(c) ==> (pool_cb(c) ==> taken(op, f).pool is None) && (c is Returned ==> taken(op, f).ret is None) && x.proms.len() == 2 && is_call(x.proms[1], w.c.cur, str_bytes(cb_name(c)), cb_args(c), 0, Some(0)),
    out(op, a, w) is None ==> x.proms == w.proms || silent(x.proms),
    op matches Op::Answer(c, _) ==> rely(c, a),
{}
// a call that panics changes nothing; its answer, if it was one, is used up
pub proof fn in_flight_panic(op: Op, a: LC, f: Fly) requires fly_ok(a, f) ensures fly_ok(a, taken(op, f)) {}
pub proof fn in_flight_start(a: LC) ensures fly_ok(a, Fly { pool: None, ret: None }) {}
pub open spec fn self_call(w: WV) -> bool { w.c.pred == w.c.cur }

@api new(owner_account_id: String, lockup_duration: U64, lockup_timestamp: Option<U64>, transfers_information: TransfersInformation, vesting_schedule: Option<VestingScheduleOrHash>, release_duration: Option<U64>, staking_pool_whitelist_account_id: String, foundation_account_id: Option<String>)

@fn LockupContract::get_account_balance()
@req W0.c.mp || !W0.c.mp
@ens ret.0 == liquid(W0) && W1 == W0
@fn LockupContract::get_unvested_amount(v)
@req W0.c.mp || vs_ok(v)
@ens vs_ok(v) ==> ret.0 == unvested(S0, v, W0.c.ts as int)
@ens W1 == W0
@pre if vs_ok(v) { by_schedule_facts(S0.lockup_information.lockup_amount as int, v, W0.c.ts as int, W0.c.ts as int); let d = v.end_timestamp.0 - v.start_timestamp.0; let x = v.end_timestamp.0 - W0.c.ts; if 0 <= x <= d { frac_facts(S0.lockup_information.lockup_amount as int, x, d); } }
@fn LockupContract::get_locked_amount()
@req W0.c.mp || linv(S0)
@ens linv(S0) ==> ret.0 == locked(S0, W0.c.ts as int)
@ens W1 == W0
@pre if linv(S0) { let t = W0.c.ts as int; locked_facts(S0, t, t); if enabled(S0) && opens_at(S0) <= t { unreleased_facts(S0, t, t); match S0.lockup_information.release_duration { Some(d) => { let x = sat64(opens_at(S0) + d) - t; if 0 < x { frac_facts(S0.lockup_information.lockup_amount as int, x, d as int); } } None => {} } } }
@fn LockupContract::get_known_deposited_balance()
@req W0.c.mp || !W0.c.mp
@ens ret.0 == deposited(S0) && W1 == W0
@fn LockupContract::get_owners_balance()
@ens linv(S0) ==> ret.0 == owners(S0, W0)
@ens W1 == W0
@fn LockupContract::get_liquid_owners_balance()
@ens linv(S0) ==> ret.0 == mn(owners(S0, W0), liquid(W0))
@ens W1 == W0

@init
@ens[C24] !W0.c.exists
@ens[C07] linv(S1)
@ens[C12] S1.lockup_information.lockup_amount == W0.bal && S1.lockup_information.termination_withdrawn_tokens == 0
@ens[C10] S1.staking_information is None
@ens W1 == W0
@entry new(owner, dur, lts, ti, vs, rel, wl, fnd)
@ens[C09] S1.owner_account_id == owner && S1.foundation_account_id == fnd
@ens[C10] S1.staking_pool_whitelist_account_id == wl
@ens[C12] S1.lockup_information.transfers_information == ti && S1.lockup_information.lockup_duration == dur.0
@ens[C12] S1.lockup_information.release_duration == (match rel { Some(d) => Some(d.0), None => None }) && S1.lockup_information.lockup_timestamp == (match lts { Some(d) => Some(d.0), None => None })
@ens[C07,C12] match vs { None => S1.vesting_information is None && fnd is None, Some(VestingScheduleOrHash::VestingHash(h)) => S1.vesting_information == VI::VestingHash(h) && fnd is Some, Some(VestingScheduleOrHash::VestingSchedule(v)) => S1.vesting_information == VI::VestingSchedule(v) && fnd is Some }

@step
@req[C07,C08,C11] linv(S0)
@ens[C07,C08,C11] linv(S1)
@ens[C10,C11,C12] can_run(W1.proms) && gas_out(W1.proms) <= 295_000_000_000_000
//! a callback that sends calls of its own is given the gas for them
@ens[C10] gas_for(W1.proms, W0.c.cur, "on_get_account_unstaked_balance_to_withdraw_by_owner"@, 105_000_000_000_000)
@ens[C11] gas_for(W1.proms, W0.c.cur, "on_get_account_staked_balance_to_unstake"@, 105_000_000_000_000) && gas_for(W1.proms, W0.c.cur, "on_get_account_unstaked_balance_to_withdraw"@, 105_000_000_000_000)
@ens[C09] !(S1 == S0 && W1 == W0) ==> W0.c.pred == S0.owner_account_id || S0.foundation_account_id == Some(W0.c.pred) || self_call(W0)
@ens[C09] S1.owner_account_id == S0.owner_account_id && S1.staking_pool_whitelist_account_id == S0.staking_pool_whitelist_account_id
@ens[C09] S0.foundation_account_id == S1.foundation_account_id || (self_call(W0) && terminating(S0) && S1.foundation_account_id is None && S1.vesting_information is None)
@ens[C09] S1.vesting_information != S0.vesting_information ==> S0.foundation_account_id == Some(W0.c.pred) || self_call(W0)
@ens[C09] S1.lockup_information != S0.lockup_information ==> self_call(W0)
@ens[C12] enabled(S0) ==> S1.lockup_information.transfers_information == S0.lockup_information.transfers_information
@ens[C12] S1.lockup_information == (LockupInformation { transfers_information: S1.lockup_information.transfers_information, termination_withdrawn_tokens: S1.lockup_information.termination_withdrawn_tokens, ..S0.lockup_information })
@ens[C12] S1.lockup_information.termination_withdrawn_tokens >= S0.lockup_information.termination_withdrawn_tokens
@ens[C11,C12] S1.vesting_information != S0.vesting_information ==> terminating(S1) || (terminating(S0) && S1.vesting_information is None)
@step except on_get_result_from_transfer_poll
@ens[C12] S1.lockup_information.transfers_information == S0.lockup_information.transfers_information
@step except on_withdraw_unvested_amount
@ens[C11,C12] S1.lockup_information.termination_withdrawn_tokens == S0.lockup_information.termination_withdrawn_tokens
@ens[C11] terminating(S0) ==> terminating(S1) && tamount(S1) == tamount(S0)
@ens[C11] terminating(S0) && tstatus(S0) is WithdrawingFromAccountInProgress ==> S1.vesting_information == S0.vesting_information
@step except terminate_vesting termination_prepare_to_withdraw termination_withdraw on_get_account_staked_balance_to_unstake on_staking_pool_unstake_for_termination on_get_account_unstaked_balance_to_withdraw on_staking_pool_withdraw_for_termination on_withdraw_unvested_amount
@ens[C11,C12] S1.vesting_information == S0.vesting_information
@step except transfer add_full_access_key termination_withdraw
@ens[C08,C11] only_calls(W1.proms)
@step except transfer termination_withdraw deposit_to_staking_pool deposit_and_stake
@ens[C08,C10,C11] W1.bal == W0.bal
@step except on_whitelist_is_whitelisted
@ens[C10] S1.staking_information is Some ==> S0.staking_information is Some && pool(S1) == pool(S0)
@step except unselect_staking_pool
@ens[C10] S0.staking_information is Some ==> S1.staking_information is Some && pool(S1) == pool(S0)
@step except on_whitelist_is_whitelisted unselect_staking_pool on_staking_pool_deposit on_staking_pool_deposit_and_stake on_staking_pool_withdraw on_staking_pool_withdraw_for_termination on_get_account_total_balance
@ens[C10] deposited(S1) == deposited(S0)
@step except on_whitelist_is_whitelisted on_staking_pool_deposit on_staking_pool_deposit_and_stake on_staking_pool_withdraw on_staking_pool_stake on_staking_pool_unstake on_staking_pool_unstake_all on_get_account_total_balance on_get_account_unstaked_balance_to_withdraw_by_owner on_get_account_staked_balance_to_unstake on_staking_pool_unstake_for_termination on_get_account_unstaked_balance_to_withdraw on_staking_pool_withdraw_for_termination
@ens[C10] busy(S0) ==> S1.staking_information == S0.staking_information
@step except select_staking_pool check_transfers_vote transfer termination_withdraw
@ens[C10] forall|i: int| 0 <= i < W1.proms.len() ==> (#[trigger] W1.proms[i]).to == W0.c.cur.s@ || (S0.staking_information is Some && W1.proms[i].to == pool(S0).s@ && busy(S1))

@step only select_staking_pool unselect_staking_pool deposit_to_staking_pool deposit_and_stake refresh_staking_pool_balance withdraw_from_staking_pool withdraw_all_from_staking_pool stake unstake unstake_all check_transfers_vote transfer add_full_access_key
@ens[C09] W0.c.pred == S0.owner_account_id
@ens[C08,C10,C11] !terminating(S0)
@step only terminate_vesting termination_prepare_to_withdraw termination_withdraw
@ens[C09,C11] S0.foundation_account_id == Some(W0.c.pred)
@step only on_whitelist_is_whitelisted on_staking_pool_deposit on_staking_pool_deposit_and_stake on_staking_pool_withdraw on_staking_pool_stake on_staking_pool_unstake on_staking_pool_unstake_all on_get_result_from_transfer_poll on_get_account_total_balance on_get_account_unstaked_balance_to_withdraw_by_owner on_get_account_staked_balance_to_unstake on_staking_pool_unstake_for_termination on_get_account_unstaked_balance_to_withdraw on_staking_pool_withdraw_for_termination on_withdraw_unvested_amount
@ens[C09,C10,C11,C12] self_call(W0)
@step only deposit_to_staking_pool deposit_and_stake refresh_staking_pool_balance withdraw_from_staking_pool withdraw_all_from_staking_pool stake unstake unstake_all
@ens[C10] started(S0, S1)

//! ---- staking pool operations of the owner
@entry select_staking_pool(id)
@ens[C10] did(Op::Select(id), S0, W0, S1, W1)
@entry unselect_staking_pool()
@ens[C10] did(Op::Unselect, S0, W0, S1, W1)
@entry deposit_to_staking_pool(amount)
@ens[C10] did(Op::Deposit(amount), S0, W0, S1, W1)
@ens[C08,C10] W1.bal == W0.bal - amount.0 && W1.bal >= reserve()
@entry deposit_and_stake(amount)
@ens[C10] did(Op::DepositStake(amount), S0, W0, S1, W1)
@ens[C08,C10] W1.bal == W0.bal - amount.0 && W1.bal >= reserve()
@entry refresh_staking_pool_balance()
@ens[C10] did(Op::Refresh, S0, W0, S1, W1)
@entry withdraw_from_staking_pool(amount)
@ens[C10] did(Op::Withdraw(amount), S0, W0, S1, W1)
@entry withdraw_all_from_staking_pool()
@ens[C10] did(Op::WithdrawAll, S0, W0, S1, W1)
@entry stake(amount)
@ens[C10] did(Op::Stake(amount), S0, W0, S1, W1)
@entry unstake(amount)
@ens[C10] did(Op::Unstake(amount), S0, W0, S1, W1)
@entry unstake_all()
@ens[C10] did(Op::UnstakeAll, S0, W0, S1, W1)
//! ---- their answers
@entry on_whitelist_is_whitelisted(yes, id)
@ens[C10] did(Op::Answer(Cb::Whitelist(id), U128(0)), S0, W0, S1, W1) && yes
@entry on_staking_pool_deposit(amount)
@ens[C10] did(Op::Answer(Cb::Deposit(amount), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_staking_pool_deposit_and_stake(amount)
@ens[C10] did(Op::Answer(Cb::DepositStake(amount), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_staking_pool_withdraw(amount)
@ens[C10] did(Op::Answer(Cb::Withdraw(amount), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_staking_pool_stake(amount)
@ens[C10] did(Op::Answer(Cb::Stake(amount), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_staking_pool_unstake(amount)
@ens[C10] did(Op::Answer(Cb::Unstake(amount), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_staking_pool_unstake_all()
@ens[C10] did(Op::Answer(Cb::UnstakeAll, U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@entry on_get_account_total_balance(b)
@ens[C10] did(Op::Answer(Cb::Total, b), S0, W0, S1, W1)
@entry on_get_account_unstaked_balance_to_withdraw_by_owner(b)
@ens[C10] gas_out(W1.proms) <= 100_000_000_000_000
@req[C10] self_call(W0) ==> rely(Cb::UnstakedOwner, S0)
@ens[C10] did(Op::Answer(Cb::UnstakedOwner, b), S0, W0, S1, W1)

//! an answer, good or bad, never leaves the pool operation unfinished
@nopanic on_staking_pool_deposit(amount)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1 && deposited(S0) + amount.0 <= u128::MAX
@nopanic on_staking_pool_deposit_and_stake(amount)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1 && deposited(S0) + amount.0 <= u128::MAX
@nopanic on_staking_pool_withdraw(amount)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1
@nopanic on_staking_pool_stake(amount)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1
@nopanic on_staking_pool_unstake(amount)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1
@nopanic on_staking_pool_unstake_all()
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1
@nopanic on_get_account_total_balance(b)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1 && ok(W0) && json_ok::<U128>(W0.c.results[0]->Successful_0.s@)
@nopanic on_get_account_unstaked_balance_to_withdraw_by_owner(b)
@req[C10] W0.c.deposit == 0 && self_call(W0) && busy(S0) && W0.c.results.len() == 1 && ok(W0) && json_ok::<U128>(W0.c.results[0]->Successful_0.s@)

//! ---- transfers
@entry check_transfers_vote()
@ens[C12] did(Op::CheckVote, S0, W0, S1, W1)
@entry on_get_result_from_transfer_poll(r)
@ens[C12] did(Op::Answer(Cb::Poll, U128(0)), S0, W0, S1, W1)
@ens[C12] !enabled(S0) && W0.c.results.len() > 0 && ok(W0) && W1 == W0 && ret == (r is Some)
@ens[C12] S1 == (match r { Some(t) => LockupContract { lockup_information: LockupInformation { transfers_information: TransfersInformation::TransfersEnabled { transfers_timestamp: t }, ..S0.lockup_information }, ..S0 }, None => S0 })
@entry transfer(amount, to)
@ens[C08] did(Op::Transfer, S0, W0, S1, W1)
@ens[C08] enabled(S0) && !busy(S0) && !terminating(S0) && amount.0 > 0 && valid_id(to) && S1 == S0
@ens[C08] amount.0 + locked(S0, W0.c.ts as int) <= W0.bal + deposited(S0) && W0.bal - amount.0 >= reserve()
@ens[C08] W1.proms.len() == 1 && W1.proms[0].to == to.s@ && W1.proms[0].acts =~= seq![Act::Transfer(amount.0)] && W1.bal == W0.bal - amount.0
@entry add_full_access_key(key)
@ens[C08] did(Op::AddKey, S0, W0, S1, W1)
@ens[C08] enabled(S0) && !busy(S0) && !terminating(S0) && locked(S0, W0.c.ts as int) == 0 && S1 == S0
@ens[C08] W1.proms.len() == 1 && W1.proms[0].to == W0.c.cur.s@ && W1.proms[0].acts =~= seq![Act::AddFull(key.0.s@, 0)]

//! ---- termination
@entry terminate_vesting(vs)
@ens[C11] did(Op::Terminate, S0, W0, S1, W1)
@ens[C11] W1 == W0 && (S0.vesting_information is VestingSchedule || S0.vesting_information is VestingHash)
@ens[C11] terminating(S1) && tamount(S1) > 0 && S1 == with_term(S0, tamount(S1), tstatus(S1))
@ens[C11] match S0.vesting_information { VestingInformation::VestingSchedule(v) => vs is None && tamount(S1) == unvested(S0, v, W0.c.ts as int), VestingInformation::VestingHash(h) => vs is Some && sha256_s(borsh(vs->Some_0)) == h.0.s@ && tamount(S1) == unvested(S0, vs->Some_0.vesting_schedule, W0.c.ts as int), _ => false }
@ens[C11] tstatus(S1) == (if tamount(S1) > liquid(W0) && S0.staking_information is Some { TS::VestingTerminatedWithDeficit } else { TS::ReadyToWithdraw })
@hint[C07,C08,C11] match S0.vesting_information { VestingInformation::VestingSchedule(v) => by_schedule_facts(S0.lockup_information.lockup_amount as int, v, W0.c.ts as int, W0.c.ts as int), VestingInformation::VestingHash(h) => if vs is Some && vs_ok(vs->Some_0.vesting_schedule) { by_schedule_facts(S0.lockup_information.lockup_amount as int, vs->Some_0.vesting_schedule, W0.c.ts as int, W0.c.ts as int) }, _ => {} }
@entry termination_prepare_to_withdraw()
@ens[C11] did(Op::Prepare, S0, W0, S1, W1)
@ens[C10,C11] idle(S0) && terminating(S0)
@entry on_get_account_staked_balance_to_unstake(b)
@ens[C11] gas_out(W1.proms) <= 100_000_000_000_000
@ens[C10] b.0 == 0 ==> idle(S1)
@req[C10,C11] self_call(W0) ==> rely(Cb::TStaked, S0)
@ens[C11] did(Op::Answer(Cb::TStaked, b), S0, W0, S1, W1)
@entry on_staking_pool_unstake_for_termination(amount)
@ens[C10] idle(S1) && deposited(S1) == deposited(S0)
@req[C10,C11] self_call(W0) ==> rely(Cb::TUnstake(amount), S0)
@ens[C11] did(Op::Answer(Cb::TUnstake(amount), U128(0)), S0, W0, S1, W1)
@entry on_get_account_unstaked_balance_to_withdraw(b)
@ens[C11] gas_out(W1.proms) <= 100_000_000_000_000
@ens[C10] b.0 == 0 ==> idle(S1)
@req[C10,C11] self_call(W0) ==> rely(Cb::TUnstaked, S0)
@ens[C11] did(Op::Answer(Cb::TUnstaked, b), S0, W0, S1, W1)
@entry on_staking_pool_withdraw_for_termination(amount)
@ens[C10] idle(S1)
@req[C10,C11] self_call(W0) ==> rely(Cb::TWithdraw(amount), S0)
@ens[C10,C11] did(Op::Answer(Cb::TWithdraw(amount), U128(0)), S0, W0, S1, W1)
@entry termination_withdraw(to)
@ens[C11] did(Op::Return(to), S0, W0, S1, W1) && valid_id(to)
@entry on_withdraw_unvested_amount(amount, to)
@req self_call(W0) ==> rely(Cb::Returned(amount, to), S0)
@ens[C11] did(Op::Answer(Cb::Returned(amount, to), U128(0)), S0, W0, S1, W1) && ret == ok(W0)
@ens[C11] S1.lockup_information == (LockupInformation { termination_withdrawn_tokens: (S0.lockup_information.termination_withdrawn_tokens + (if ok(W0) { amount.0 as int } else { 0 })) as u128, ..S0.lockup_information }) && S1.lockup_information.termination_withdrawn_tokens == S0.lockup_information.termination_withdrawn_tokens + (if ok(W0) { amount.0 as int } else { 0 })
@nopanic on_staking_pool_unstake_for_termination(amount)
@req[C11] linv(S0) && W0.c.deposit == 0 && self_call(W0) && busy(S0) && terminating(S0) && W0.c.results.len() == 1
@nopanic on_staking_pool_withdraw_for_termination(amount)
@req[C11] linv(S0) && W0.c.deposit == 0 && self_call(W0) && busy(S0) && terminating(S0) && W0.c.results.len() == 1
@nopanic on_withdraw_unvested_amount(amount, to)
@req[C11] linv(S0) && W0.c.deposit == 0 && self_call(W0) && W0.c.results.len() == 1 && terminating(S0) && tstatus(S0) is WithdrawingFromAccountInProgress && 0 < amount.0 <= tamount(S0)

//! ---- views
@entry get_locked_amount()
@ens[C07] ret.0 == locked(S0, W0.c.ts as int) && ret.0 <= S0.lockup_information.lockup_amount && forall|t: int| W0.c.ts <= t ==> #[trigger] locked(S0, t) <= ret.0
@hint[C07] assert forall|t: int| W0.c.ts <= t implies #[trigger] locked(S0, t) <= ret.0 by { locked_facts(S0, W0.c.ts as int, t); }; locked_facts(S0, W0.c.ts as int, W0.c.ts as int);
@nopanic get_locked_amount()
@req[C07] linv(S0)
@entry get_unvested_amount(v)
@ens[C07] vs_ok(v) ==> ret.0 == unvested(S0, v, W0.c.ts as int) && ret.0 <= S0.lockup_information.lockup_amount
@hint if vs_ok(v) { by_schedule_facts(S0.lockup_information.lockup_amount as int, v, W0.c.ts as int, W0.c.ts as int); }
@nopanic get_unvested_amount(v)
@req[C07] linv(S0) && vs_ok(v)
@entry get_locked_vested_amount(v)
@ens[C07] vs_ok(v) ==> ret.0 == locked(S0, W0.c.ts as int) - unvested(S0, v, W0.c.ts as int)
@entry get_owners_balance()
@ens[C07,C08] ret.0 == owners(S0, W0)
@entry get_liquid_owners_balance()
@ens[C07,C08] ret.0 == mn(owners(S0, W0), liquid(W0))
@entry get_balance()
@ens[C08] ret.0 == W0.bal + deposited(S0)
@entry get_owner_account_id()
@ens[C09] ret == S0.owner_account_id
@entry get_staking_pool_account_id()
@ens[C10] ret == (match S0.staking_information { Some(i) => Some(i.staking_pool_account_id), None => None })
@entry get_known_deposited_balance()
@ens[C10] ret.0 == deposited(S0)
@entry get_termination_status()
@ens[C11] ret == (if terminating(S0) { Some(tstatus(S0)) } else { None })
@entry get_terminated_unvested_balance()
@ens[C11] ret.0 == (if terminating(S0) { tamount(S0) } else { 0 })
@entry get_terminated_unvested_balance_deficit()
@ens[C11] ret.0 == pos((if terminating(S0) { tamount(S0) } else { 0 }) - liquid(W0))
@entry get_vesting_information()
@ens[C11,C12] ret == S0.vesting_information
@entry are_transfers_enabled()
@ens[C12] ret == enabled(S0)

//! ---- what the owner or the foundation is entitled to always goes through
@prelude
pub open spec fn by_owner(s: LC, w: WV) -> bool { w.c.deposit == 0 && owner_may(s, w) }
pub open spec fn by_foundation(s: LC, w: WV) -> bool { w.c.deposit == 0 && s.foundation_account_id == Some(w.c.pred) }
// amounts stay far below what the number types hold
pub open spec fn fits(s: LC, w: WV) -> bool { linv(s) && w.bal + deposited(s) <= u128::MAX && s.lockup_information.lockup_amount <= u128::MAX - w.bal }
pub open spec fn answered<T: PJson>(w: WV) -> bool { w.c.deposit == 0 && self_call(w) && w.c.results.len() == 1 && ok(w) && json_ok::<T>(w.c.results[0]->Successful_0.s@) }

@nopanic select_staking_pool(id)
@req[C10] by_owner(S0, W0) && S0.staking_information is None && valid_id(id)
@nopanic unselect_staking_pool()
@req[C10] by_owner(S0, W0) && idle(S0) && deposited(S0) == 0
@nopanic deposit_to_staking_pool(amount)
@req[C10] by_owner(S0, W0) && idle(S0) && 0 < amount.0 <= liquid(W0)
@nopanic deposit_and_stake(amount)
@req[C10] by_owner(S0, W0) && idle(S0) && 0 < amount.0 <= liquid(W0)
@nopanic refresh_staking_pool_balance()
@req[C10] by_owner(S0, W0) && idle(S0)
@nopanic withdraw_from_staking_pool(amount)
@req[C10] by_owner(S0, W0) && idle(S0) && 0 < amount.0
@nopanic withdraw_all_from_staking_pool()
@req[C10] by_owner(S0, W0) && idle(S0)
@nopanic stake(amount)
@req[C10] by_owner(S0, W0) && idle(S0) && 0 < amount.0
@nopanic unstake(amount)
@req[C10] by_owner(S0, W0) && idle(S0) && 0 < amount.0
@nopanic unstake_all()
@req[C10] by_owner(S0, W0) && idle(S0)
@nopanic on_whitelist_is_whitelisted(yes, id)
@req[C10] answered::<bool>(W0) && json_parse::<bool>(W0.c.results[0]->Successful_0.s@) && S0.staking_information is None && !terminating(S0)
@nopanic check_transfers_vote()
@req[C12] by_owner(S0, W0) && !enabled(S0)
@nopanic on_get_result_from_transfer_poll(r)
@req[C12] answered::<Option<U64>>(W0) && !enabled(S0)
@nopanic transfer(amount, to)
@req[C08] by_owner(S0, W0) && fits(S0, W0) && enabled(S0) && !busy(S0) && valid_id(to) && 0 < amount.0 <= mn(owners(S0, W0), liquid(W0))
@nopanic add_full_access_key(key)
@req[C08] by_owner(S0, W0) && fits(S0, W0) && enabled(S0) && !busy(S0) && locked(S0, W0.c.ts as int) == 0
@nopanic terminate_vesting(vs)
@req[C11] by_foundation(S0, W0) && fits(S0, W0) && match S0.vesting_information { VestingInformation::VestingSchedule(v) => vs is None && unvested(S0, v, W0.c.ts as int) > 0, VestingInformation::VestingHash(h) => vs is Some && sha256_s(borsh(vs->Some_0)) == h.0.s@ && vs_ok(vs->Some_0.vesting_schedule) && unvested(S0, vs->Some_0.vesting_schedule, W0.c.ts as int) > 0, _ => false }
@nopanic termination_prepare_to_withdraw()
@req[C11] by_foundation(S0, W0) && idle(S0) && terminating(S0) && (tstatus(S0) is VestingTerminatedWithDeficit || tstatus(S0) is EverythingUnstaked)
@nopanic on_get_account_staked_balance_to_unstake(b)
@req[C11] answered::<U128>(W0) && rely(Cb::TStaked, S0)
@nopanic on_get_account_unstaked_balance_to_withdraw(b)
@req[C11] answered::<U128>(W0) && rely(Cb::TUnstaked, S0)
@nopanic termination_withdraw(to)
@req[C11] by_foundation(S0, W0) && terminating(S0) && tstatus(S0) is ReadyToWithdraw && valid_id(to) && mn(tamount(S0), liquid(W0)) > 0
//! the views answer
@nopanic get_owners_balance()
@req[C08] fits(S0, W0)
@nopanic get_liquid_owners_balance()
@req[C08] fits(S0, W0)
@nopanic get_balance()
@req[C08] fits(S0, W0)
@nopanic get_vesting_information()
@req[C07] true
@nopanic get_termination_status()
@req[C11] true
@nopanic get_terminated_unvested_balance()
@req[C11] true
@nopanic get_terminated_unvested_balance_deficit()
@req[C11] fits(S0, W0)
@nopanic get_known_deposited_balance()
@req[C10] true
@nopanic get_staking_pool_account_id()
@req[C10] true
@nopanic get_owner_account_id()
@req[C09] true
@nopanic are_transfers_enabled()
@req[C12] true
