//! Contracts for multisig-factory/src/lib.rs
@prelude
pub open spec fn sub_account(name: Seq<char>, parent: Str) -> Seq<char> { name + "."@ + parent.s@ }
pub open spec fn member_js(m: MultisigMember) -> JV {
  match m { MultisigMember::AccessKey { public_key } => JV::O(map!["public_key"@ => JV::S(pk_str(public_key.0.s@))]), MultisigMember::Account { account_id } => JV::O(map!["account_id"@ => JV::S(account_id.s@)]) }
}
@step except create
@ens[C21] W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal
@entry create(name, members, n)
@ens[C21] W1.proms.len() == 1 && W1.proms[0].to =~= sub_account(name.s@, W0.c.cur) && W1.proms[0].after is None && W1.proms[0].acts.len() == 4
@ens[C21] ({ let a = W1.proms[0].acts; let code = Act::Deploy(wasm_of("../../multisig2/res/multisig2.wasm"@)); a[0] is CreateAccount && ((a[1] == code && a[2] == Act::Transfer(W0.c.deposit)) || (a[2] == code && a[1] == Act::Transfer(W0.c.deposit))) }) && W1.bal == W0.bal - W0.c.deposit
@ens[C21] W1.proms[0].acts[3] is Call && W1.proms[0].acts[3]->m == str_bytes("new"@) && W1.proms[0].acts[3]->dep == 0
@ens[C21] ({ let j = json_unbytes(W1.proms[0].acts[3]->args); j is O && j->O_0.dom() =~= set!["members"@, "num_confirmations"@] && j->O_0["num_confirmations"@] == JV::N(n as int) && j->O_0["members"@] is A && j->O_0["members"@]->A_0 =~= members.s@.map_values(|m: MultisigMember| member_js(m)) })
//! the initialiser gets gas to run on, and no more than the call brought along
@ens[C21] W1.proms[0].acts[3]->gas + 20_000_000_000_000 <= W0.c.prepaid && (W0.c.prepaid >= 200_000_000_000_000 ==> W1.proms[0].acts[3]->gas >= 50_000_000_000_000)
@ens[C21] ret.id@ == 0
@nopanic create(name, members, n)
@req[C21] W0.c.deposit <= W0.bal && W0.c.prepaid >= 100_000_000_000_000
