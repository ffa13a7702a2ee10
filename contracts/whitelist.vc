//! Contracts for whitelist/src/lib.rs
@struct WhitelistContract foundation_account_id whitelist factory_whitelist
@prelude[C18]
pub open spec fn same_lists(a: WhitelistContract, b: WhitelistContract) -> bool { a.whitelist.s@ =~= b.whitelist.s@ && a.factory_whitelist.s@ =~= b.factory_whitelist.s@ }

@api is_whitelisted(staking_pool_account_id: String)
@api add_staking_pool(staking_pool_account_id: String)

@init
@ens[C24] !W0.c.exists
@ens[C18] valid_id(S1.foundation_account_id)
@ens[C18] S1.whitelist.s@ =~= Set::<Str>::empty() && S1.factory_whitelist.s@ =~= Set::<Str>::empty()
@ens[C18] S1.whitelist.p@ != S1.factory_whitelist.p@

@entry new(f)
@ens[C18] S1.foundation_account_id == f

@step
@ens[C18] S1.foundation_account_id == S0.foundation_account_id
@ens[C18] S1.whitelist.p@ == S0.whitelist.p@ && S1.factory_whitelist.p@ == S0.factory_whitelist.p@
@ens[C18] W1.proms =~= Seq::<Prom>::empty()

@step except add_staking_pool remove_staking_pool
@ens[C18] S1.whitelist.s@ =~= S0.whitelist.s@
@step except add_factory remove_factory
@ens[C18] S1.factory_whitelist.s@ =~= S0.factory_whitelist.s@

@entry add_staking_pool(a)
@ens[C18] S0.factory_whitelist.s@.contains(W0.c.pred) || W0.c.pred == S0.foundation_account_id
@ens[C18] S1.whitelist.s@ =~= S0.whitelist.s@.insert(a)
@ens[C18] ret == !S0.whitelist.s@.contains(a)
@ens[C18] valid_id(a)

@entry remove_staking_pool(a)
@ens[C18] W0.c.pred == S0.foundation_account_id
@ens[C18] S1.whitelist.s@ =~= S0.whitelist.s@.remove(a)
@ens[C18] ret == S0.whitelist.s@.contains(a)

@entry add_factory(a)
@ens[C18] W0.c.pred == S0.foundation_account_id
@ens[C18] S1.factory_whitelist.s@ =~= S0.factory_whitelist.s@.insert(a)
@ens[C18] ret == !S0.factory_whitelist.s@.contains(a)

@entry remove_factory(a)
@ens[C18] W0.c.pred == S0.foundation_account_id
@ens[C18] S1.factory_whitelist.s@ =~= S0.factory_whitelist.s@.remove(a)
@ens[C18] ret == S0.factory_whitelist.s@.contains(a)

@entry is_whitelisted(a)
@ens[C18] ret == S0.whitelist.s@.contains(a)
@entry is_factory_whitelisted(a)
@ens[C18] ret == S0.factory_whitelist.s@.contains(a)

//! every authorised call on a valid account ID succeeds
@nopanic add_staking_pool(a)
@req[C18] W0.c.deposit == 0 && valid_id(a) && (S0.factory_whitelist.s@.contains(W0.c.pred) || W0.c.pred == S0.foundation_account_id)
@nopanic remove_staking_pool(a)
@req[C18] W0.c.deposit == 0 && valid_id(a) && W0.c.pred == S0.foundation_account_id
@nopanic add_factory(a)
@req[C18] W0.c.deposit == 0 && valid_id(a) && W0.c.pred == S0.foundation_account_id
@nopanic remove_factory(a)
@req[C18] W0.c.deposit == 0 && valid_id(a) && W0.c.pred == S0.foundation_account_id
@nopanic is_whitelisted(a)
@req[C18] valid_id(a)
@nopanic is_factory_whitelisted(a)
@req[C18] valid_id(a)
@nopanic new(f)
@req[C18] valid_id(f) && !W0.c.exists && W0.c.deposit == 0
