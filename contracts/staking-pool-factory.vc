//! Contracts for staking-pool-factory/src/*.rs
@struct StakingPoolFactory staking_pool_whitelist_account_id staking_pool_account_ids
@struct RewardFeeFraction numerator denominator
@prelude
pub open spec fn sub_account(name: Seq<char>, parent: Str) -> Seq<char> { name + "."@ + parent.s@ }
pub open spec fn min_deposit() -> int { 30_000_000_000_000_000_000_000_000 }
pub open spec fn is_call(p: Prom, to: Str, m: Seq<char>, args: Map<Seq<char>, JV>, after: Option<nat>) -> bool {
  p.to == to.s@ && p.after == after && p.acts.len() == 1 && p.acts[0] is Call && p.acts[0]->m == str_bytes(m) && p.acts[0]->dep == 0 && has_args(p.acts[0]->args, args)
}

@init
@ens[C24] !W0.c.exists
@ens[C19] S1.staking_pool_account_ids.s@ =~= Set::<Str>::empty() && valid_id(S1.staking_pool_whitelist_account_id) && W1 == W0
@entry new(wl)
@ens[C19] S1.staking_pool_whitelist_account_id == wl

@step
@ens[C19] can_run(W1.proms) && gas_out(W1.proms) <= 295_000_000_000_000
@ens[C19] gas_for(W1.proms, W0.c.cur, "on_staking_pool_create"@, 30_000_000_000_000)
@ens[C19] S1.staking_pool_whitelist_account_id == S0.staking_pool_whitelist_account_id && S1.staking_pool_account_ids.p@ == S0.staking_pool_account_ids.p@
@step except create_staking_pool on_staking_pool_create
@ens[C19] S1.staking_pool_account_ids.s@ =~= S0.staking_pool_account_ids.s@
@ens[C19] W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal

@entry create_staking_pool(id, owner, key, fee)
@ens[C19] W0.c.deposit >= min_deposit()
@ens[C19] !id.s@.contains('.') && valid_acct(str_bytes(sub_account(id.s@, W0.c.cur))) && valid_id(owner) && fee.denominator > 0 && fee.numerator <= fee.denominator
@ens[C19] ({ let a = mk_str(sub_account(id.s@, W0.c.cur)); !S0.staking_pool_account_ids.s@.contains(a) && S1.staking_pool_account_ids.s@ =~= S0.staking_pool_account_ids.s@.insert(a) })
@ens[C19] W1.proms.len() == 2 && W1.proms[0].to =~= sub_account(id.s@, W0.c.cur) && W1.proms[0].after is None && W1.proms[0].acts.len() == 4
@ens[C19] ({ let a = W1.proms[0].acts; let code = Act::Deploy(wasm_of("../../staking-pool/res/staking_pool.wasm"@)); a[0] is CreateAccount && ((a[1] == code && a[2] == Act::Transfer(W0.c.deposit)) || (a[2] == code && a[1] == Act::Transfer(W0.c.deposit))) }) && W1.bal == W0.bal - W0.c.deposit
@ens[C19] W1.proms[0].acts[3] is Call && W1.proms[0].acts[3]->m == str_bytes("new"@) && W1.proms[0].acts[3]->dep == 0
@ens[C19] ({ let j = json_unbytes(W1.proms[0].acts[3]->args); j is O && j->O_0.dom() =~= set!["owner_id"@, "stake_public_key"@, "reward_fee_fraction"@] && j->O_0["owner_id"@] == JV::S(owner.s@) && j->O_0["stake_public_key"@] == JV::S(pk_str(key.0.s@)) && j->O_0["reward_fee_fraction"@] is O && j->O_0["reward_fee_fraction"@]->O_0 =~= map!["numerator"@ => JV::N(fee.numerator as int), "denominator"@ => JV::N(fee.denominator as int)] })
@ens[C19] W1.proms[1].acts.len() == 1 && W1.proms[1].to == W0.c.cur.s@ && W1.proms[1].after == Some(0nat) && W1.proms[1].acts[0] is Call && W1.proms[1].acts[0]->m == str_bytes("on_staking_pool_create"@) && W1.proms[1].acts[0]->dep == 0
@ens[C19] ({ let j = json_unbytes(W1.proms[1].acts[0]->args); j is O && j->O_0.dom() =~= set!["staking_pool_account_id"@, "attached_deposit"@, "predecessor_account_id"@] && j->O_0["staking_pool_account_id"@] is S && j->O_0["staking_pool_account_id"@]->S_0 =~= sub_account(id.s@, W0.c.cur) && j->O_0["attached_deposit"@] == JV::S(num_str(W0.c.deposit as int)) && j->O_0["predecessor_account_id"@] == JV::S(W0.c.pred.s@) })
@ens[C19] ret.id@ == 1

@entry on_staking_pool_create(id, amount, creator)
@ens[C19] gas_out(W1.proms) <= 25_000_000_000_000
@ens[C19] W0.c.pred == W0.c.cur && W0.c.results.len() >= 1
@ens[C19] W0.c.results[0] is Successful ==> S1.staking_pool_account_ids.s@ =~= S0.staking_pool_account_ids.s@ && W1.bal == W0.bal && W1.proms.len() == 1 && is_call(W1.proms[0], S0.staking_pool_whitelist_account_id, "add_staking_pool"@, map!["staking_pool_account_id"@ => JV::S(id.s@)], None) && ret is Promise && ret->Promise_0.id@ == 0
@ens[C19] !(W0.c.results[0] is Successful) ==> S1.staking_pool_account_ids.s@ =~= S0.staking_pool_account_ids.s@.remove(id) && W1.bal == W0.bal - amount.0 && W1.proms.len() == 1 && W1.proms[0].to == creator.s@ && W1.proms[0].acts =~= seq![Act::Transfer(amount.0)] && ret is Value && !ret->Value_0
@nopanic on_staking_pool_create(id, amount, creator)
@req[C19] W0.c.deposit == 0 && W0.c.pred == W0.c.cur && W0.c.results.len() == 1 && amount.0 <= W0.bal

@entry get_min_attached_balance()
@ens[C19] ret.0 == min_deposit()
@entry get_number_of_staking_pools_created()
@ens[C19] ret == S0.staking_pool_account_ids.s@.len()
//! a well-formed request for an unused name succeeds
@nopanic create_staking_pool(id, owner, key, fee)
@req[C19] W0.c.deposit >= min_deposit() && W0.c.deposit <= W0.bal && !id.s@.contains('.') && valid_acct(str_bytes(sub_account(id.s@, W0.c.cur))) && valid_id(owner) && fee.denominator > 0 && fee.numerator <= fee.denominator && !S0.staking_pool_account_ids.s@.contains(mk_str(sub_account(id.s@, W0.c.cur)))
@nopanic get_min_attached_balance()
@req[C19] true
@nopanic get_number_of_staking_pools_created()
@req[C19] true
