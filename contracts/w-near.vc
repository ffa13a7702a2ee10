//! Contracts for w-near/src/*.rs and the fungible token code it is built from (near-contract-standards)
@struct Contract ft
@struct FungibleToken accounts total_supply account_storage_usage
@prelude
pub open spec fn wf() -> spec_fn(u128) -> int { |v: u128| v as int }
pub open spec fn minted(m: Map<Str, u128>) -> int { sum_f(m, wf()) }
// the supply is exactly what the accounts hold
pub open spec fn winv(s: Contract) -> bool { s.ft.total_supply == minted(s.ft.accounts.m@) }
pub open spec fn reg(s: Contract, a: Str) -> bool { s.ft.accounts.m@.dom().contains(a) }
pub open spec fn held(s: Contract, a: Str) -> int { if reg(s, a) { s.ft.accounts.m@[a] as int } else { 0 } }
pub open spec fn min_storage(s: Contract, c: Ctx) -> int { s.ft.account_storage_usage * c.byte_cost }
// what the contract owes: one yoctoNEAR per token and the storage deposit of every registered account
pub open spec fn owed(s: Contract, c: Ctx) -> int { s.ft.total_supply + s.ft.accounts.m@.dom().len() * min_storage(s, c) }
pub open spec fn same_ft(a: Contract, b: Contract) -> bool { a.ft.accounts.m@ =~= b.ft.accounts.m@ && a.ft.total_supply == b.ft.total_supply }
pub open spec fn unused(c: Ctx, amount: int) -> int {
  if c.results[0] is Successful && json_ok::<U128>(c.results[0]->Successful_0.s@) { let u = json_parse::<U128>(c.results[0]->Successful_0.s@).0; if u < amount { u as int } else { amount } } else { amount }
}
pub open spec fn refund_of(s: Contract, receiver: Str, c: Ctx, amount: int) -> int { let u = unused(c, amount); if held(s, receiver) < u { held(s, receiver) } else { u } }
pub open spec fn pays(p: Prom, to: Str, amount: int) -> bool { p.to == to.s@ && p.after is None && p.acts.len() == 1 && p.acts[0] is Transfer && p.acts[0]->Transfer_0 == amount }
pub open spec fn calls(p: Prom, to: Str, m: Seq<char>, args: Map<Seq<char>, JV>, after: Option<nat>) -> bool {
  p.to == to.s@ && p.after == after && p.acts.len() == 1 && p.acts[0] is Call && p.acts[0]->m == str_bytes(m) && p.acts[0]->dep == 0 && has_args(p.acts[0]->args, args)
}
pub open spec fn moved(s: Contract, t: Contract, from: Str, to: Str, amount: int) -> bool {
  &&& from != to && amount > 0 && reg(s, from) && reg(s, to) && held(s, from) >= amount
  &&& t.ft.accounts.m@ =~= s.ft.accounts.m@.insert(from, (held(s, from) - amount) as u128).insert(to, (held(s, to) + amount) as u128)
  &&& t.ft.total_supply == s.ft.total_supply
}
pub proof fn move_keeps(s: Contract, from: Str, to: Str, amount: int)
  requires winv(s), from != to, reg(s, from), reg(s, to), 0 <= amount <= held(s, from)
  ensures minted(s.ft.accounts.m@.insert(from, (held(s, from) - amount) as u128).insert(to, (held(s, to) + amount) as u128)) == minted(s.ft.accounts.m@), held(s, from) + held(s, to) <= s.ft.total_supply
{
  let m = s.ft.accounts.m@;
  assert forall|v: u128| #[trigger] wf()(v) >= 0 by {};
  sum_remove(m, wf(), from);
  sum_remove(m.remove(from), wf(), to);
  sum_nonneg(m.remove(from).remove(to), wf());
  sum_insert(m, wf(), from, (held(s, from) - amount) as u128);
  sum_insert(m.insert(from, (held(s, from) - amount) as u128), wf(), to, (held(s, to) + amount) as u128);
}
pub proof fn mul_step(n: int, k: int, m: int) ensures (n + 1) * m == n * m + m, k * m == m * k { assert((n + 1) * m == n * m + m) by (nonlinear_arith); assert(k * m == m * k) by (nonlinear_arith); }
pub proof fn owed_keys(s: Contract, t: Contract, a: Str, c: Ctx)
  requires t.ft.account_storage_usage == s.ft.account_storage_usage
  ensures
    t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom() ==> owed(t, c) - owed(s, c) == t.ft.total_supply - s.ft.total_supply,
    !reg(s, a) && t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom().insert(a) ==> owed(t, c) - owed(s, c) == t.ft.total_supply - s.ft.total_supply + min_storage(s, c),
    reg(s, a) && t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom().remove(a) ==> owed(t, c) - owed(s, c) == t.ft.total_supply - s.ft.total_supply - min_storage(s, c),
{
  mul_step(s.ft.accounts.m@.dom().len() as int, 0, min_storage(s, c));
  mul_step(t.ft.accounts.m@.dom().len() as int, 0, min_storage(s, c));
  if t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom() { assert(t.ft.accounts.m@.dom() == s.ft.accounts.m@.dom()); }
  if t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom().insert(a) { assert(t.ft.accounts.m@.dom() == s.ft.accounts.m@.dom().insert(a)); }
  if t.ft.accounts.m@.dom() =~= s.ft.accounts.m@.dom().remove(a) { assert(t.ft.accounts.m@.dom() == s.ft.accounts.m@.dom().remove(a)); }
}

@init
@ens[C24] !W0.c.exists
@ens[C22] S1.ft.total_supply == 0 && S1.ft.accounts.m@ =~= Map::<Str, u128>::empty() && winv(S1)
@ens[C22] W1 == W0
@hint[C22] sum_empty::<Str, u128>(wf());

@step
@req[C22] winv(S0)
@ens[C22] winv(S1)
@ens[C22] S1.ft.account_storage_usage == S0.ft.account_storage_usage && S1.ft.accounts.p@ == S0.ft.accounts.p@
//! a call never adds more to what the contract owes than the NEAR it brings in and leaves there
@ens[C22] owed(S1, W0.c) - owed(S0, W0.c) <= W0.c.deposit - (W0.bal - W1.bal)
@hint[C22] owed_keys(S0, S1, W0.c.pred, W0.c);
@step except ft_resolve_transfer
@ens[C22] forall|a: Str| a != W0.c.pred ==> #[trigger] held(S1, a) >= held(S0, a) && (reg(S0, a) ==> reg(S1, a))
@step except near_deposit near_withdraw storage_unregister ft_resolve_transfer
@ens[C22] S1.ft.total_supply == S0.ft.total_supply
@step except near_withdraw storage_unregister storage_deposit ft_transfer_call
@ens[C22] W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal

@entry near_deposit()
@ens[C22] W0.c.deposit > 0
@ens[C22] ({ let a = W0.c.pred; let amt = if reg(S0, a) { W0.c.deposit as int } else { W0.c.deposit - min_storage(S0, W0.c) }; amt >= 0 && S1.ft.total_supply == S0.ft.total_supply + amt && S1.ft.accounts.m@ =~= S0.ft.accounts.m@.insert(a, (held(S0, a) + amt) as u128) && held(S0, a) + amt <= u128::MAX })
@hint[C22] sum_insert(S0.ft.accounts.m@, wf(), W0.c.pred, self.ft.accounts.m@[W0.c.pred]); assert(self.ft.accounts.m@ =~= S0.ft.accounts.m@.insert(W0.c.pred, self.ft.accounts.m@[W0.c.pred]));

@entry near_withdraw(amount)
@ens[C22] W0.c.deposit == 1
@ens[C22] ({ let a = W0.c.pred; reg(S0, a) && held(S0, a) >= amount.0 && S1.ft.total_supply == S0.ft.total_supply - amount.0 && S1.ft.accounts.m@ =~= S0.ft.accounts.m@.insert(a, (held(S0, a) - amount.0) as u128) })
@ens[C22] W1.bal == W0.bal - (amount.0 + 1) && W1.proms.len() == 1 && pays(W1.proms[0], W0.c.pred, amount.0 + 1) && ret.id@ == 0
@hint[C22] sum_insert(S0.ft.accounts.m@, wf(), W0.c.pred, (held(S0, W0.c.pred) - amount.0) as u128);

@entry ft_transfer(to, amount, memo)
@ens[C22] W0.c.deposit == 1 && moved(S0, S1, W0.c.pred, to, amount.0 as int)
@hint[C22] move_keeps(S0, W0.c.pred, to, amount.0 as int);

@entry ft_transfer_call(to, amount, memo, msg)
@ens[C22] W0.c.deposit == 1 && moved(S0, S1, W0.c.pred, to, amount.0 as int)
@ens[C22] W1.bal == W0.bal && W1.proms.len() == 2
@ens[C22] calls(W1.proms[0], to, "ft_on_transfer"@, map!["sender_id"@ => JV::S(W0.c.pred.s@), "amount"@ => JV::S(num_str(amount.0 as int)), "msg"@ => JV::S(msg.s@)], None)
@ens[C22] calls(W1.proms[1], W0.c.cur, "ft_resolve_transfer"@, map!["sender_id"@ => JV::S(W0.c.pred.s@), "receiver_id"@ => JV::S(to.s@), "amount"@ => JV::S(num_str(amount.0 as int))], Some(0nat))
@ens[C22] ret is Promise && ret->Promise_0.id@ == 1
@hint[C22] move_keeps(S0, W0.c.pred, to, amount.0 as int);

@entry ft_resolve_transfer(from, to, amount)
@ens[C22] W0.c.pred == W0.c.cur && W0.c.results.len() > 0
@ens[C22] ({ let r = refund_of(S0, to, W0.c, amount.0 as int); 0 <= r && r <= amount.0 && (r == 0 ==> same_ft(S0, S1) && ret.0 == amount.0) })
@ens[C22] ({ let r = refund_of(S0, to, W0.c, amount.0 as int); r > 0 && from != to && reg(S0, from) ==> moved(S0, S1, to, from, r) && ret.0 == amount.0 - r })
@ens[C22] ({ let r = refund_of(S0, to, W0.c, amount.0 as int); r > 0 && from != to && !reg(S0, from) ==> S1.ft.total_supply == S0.ft.total_supply - r && S1.ft.accounts.m@ =~= S0.ft.accounts.m@.insert(to, (held(S0, to) - r) as u128) && ret.0 == amount.0 })
@hint[C22] let r = refund_of(S0, to, W0.c, amount.0 as int); if reg(S0, to) { sum_insert(S0.ft.accounts.m@, wf(), to, (held(S0, to) - r) as u128); if from == to { sum_insert(S0.ft.accounts.m@.insert(to, (held(S0, to) - r) as u128), wf(), to, held(S0, to) as u128); assert(S0.ft.accounts.m@.insert(to, (held(S0, to) - r) as u128).insert(to, held(S0, to) as u128) =~= S0.ft.accounts.m@); } else if reg(S0, from) { move_keeps(S0, to, from, r); } }
@nopanic ft_resolve_transfer(from, to, amount)
@req[C22] winv(S0) && W0.c.deposit == 0 && W0.c.pred == W0.c.cur && W0.c.results.len() > 0 && !(W0.c.results[0] is NotReady)
@pre[C22] if reg(S0, from) && reg(S0, to) && from != to { move_keeps(S0, from, to, 0); } assert forall|v: u128| #[trigger] wf()(v) >= 0 by {}; if reg(S0, to) { sum_ge(S0.ft.accounts.m@, wf(), to); }

@entry storage_deposit(who, only)
@ens[C22] ({ let a = match who { Some(x) => x, None => W0.c.pred }; reg(S1, a) && (reg(S0, a) ==> same_ft(S0, S1)) && (!reg(S0, a) ==> W0.c.deposit >= min_storage(S0, W0.c) && S1.ft.accounts.m@ =~= S0.ft.accounts.m@.insert(a, 0u128)) })
@ens[C22] ({ let a = match who { Some(x) => x, None => W0.c.pred }; let back = if reg(S0, a) { W0.c.deposit as int } else { W0.c.deposit - min_storage(S0, W0.c) }; W1.bal == W0.bal - back && (back > 0 ==> W1.proms.len() == 1 && pays(W1.proms[0], W0.c.pred, back)) && (back == 0 ==> W1.proms.len() == 0) })
@hint[C22] let a = match who { Some(x) => x, None => W0.c.pred }; sum_insert(S0.ft.accounts.m@, wf(), a, 0u128); owed_keys(S0, S1, a, W0.c);

@entry storage_unregister(force)
@ens[C22] W0.c.deposit == 1 && ret == reg(S0, W0.c.pred) && (!ret ==> same_ft(S0, S1) && W1.bal == W0.bal && W1.proms.len() == 0)
@ens[C22] ret ==> (held(S0, W0.c.pred) == 0 || force == Some(true)) && S1.ft.accounts.m@ =~= S0.ft.accounts.m@.remove(W0.c.pred) && S1.ft.total_supply == S0.ft.total_supply - held(S0, W0.c.pred) && W1.bal == W0.bal - (min_storage(S0, W0.c) + 1) && W1.proms.len() == 1 && pays(W1.proms[0], W0.c.pred, min_storage(S0, W0.c) + 1)
@hint[C22] if reg(S0, W0.c.pred) { sum_remove(S0.ft.accounts.m@, wf(), W0.c.pred); }

@entry ft_total_supply()
@ens[C22] ret.0 == S0.ft.total_supply
@entry ft_balance_of(a)
@ens[C22] ret.0 == held(S0, a)
@entry storage_balance_bounds()
@ens[C22] ret.min.0 == min_storage(S0, W0.c)

//! what a caller is entitled to always goes through
@nopanic near_deposit()
@req[C22] winv(S0) && W0.c.deposit > 0 && min_storage(S0, W0.c) <= u128::MAX && (reg(S0, W0.c.pred) || W0.c.deposit >= min_storage(S0, W0.c)) && S0.ft.total_supply + W0.c.deposit <= u128::MAX
@pre[C22] assert forall|v: u128| #[trigger] wf()(v) >= 0 by {}; if reg(S0, W0.c.pred) { sum_ge(S0.ft.accounts.m@, wf(), W0.c.pred); }
@nopanic near_withdraw(amount)
@req[C22] winv(S0) && W0.c.deposit == 1 && reg(S0, W0.c.pred) && held(S0, W0.c.pred) >= amount.0 && amount.0 + 1 <= W0.bal
@pre[C22] assert forall|v: u128| #[trigger] wf()(v) >= 0 by {}; sum_ge(S0.ft.accounts.m@, wf(), W0.c.pred);
@nopanic ft_transfer(to, amount, memo)
@req[C22] winv(S0) && W0.c.deposit == 1 && reg(S0, W0.c.pred) && reg(S0, to) && to != W0.c.pred && 0 < amount.0 <= held(S0, W0.c.pred)
@pre[C22] move_keeps(S0, W0.c.pred, to, amount.0 as int);
@nopanic storage_deposit(who, only)
@req[C22] min_storage(S0, W0.c) <= u128::MAX && W0.c.deposit >= min_storage(S0, W0.c) && W0.c.deposit <= W0.bal
@nopanic ft_transfer_call(to, amount, memo, msg)
@req[C22] winv(S0) && W0.c.deposit == 1 && reg(S0, W0.c.pred) && reg(S0, to) && to != W0.c.pred && 0 < amount.0 <= held(S0, W0.c.pred) && W0.c.prepaid >= 30_000_000_000_001
@pre[C22] move_keeps(S0, W0.c.pred, to, amount.0 as int);
@nopanic storage_unregister(force)
@req[C22] winv(S0) && W0.c.deposit == 1 && reg(S0, W0.c.pred) && (held(S0, W0.c.pred) == 0 || force == Some(true)) && min_storage(S0, W0.c) + 1 <= W0.bal && W0.bal <= 0x1000_0000_0000_0000_0000_0000_0000_0000
@pre[C22] assert forall|v: u128| #[trigger] wf()(v) >= 0 by {}; sum_ge(S0.ft.accounts.m@, wf(), W0.c.pred);
@nopanic ft_balance_of(a)
@req[C22] winv(S0)
@nopanic ft_total_supply()
@req[C22] winv(S0)
@nopanic storage_balance_bounds()
@req[C22] min_storage(S0, W0.c) <= u128::MAX
