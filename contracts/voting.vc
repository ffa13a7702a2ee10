//! Contracts for voting/src/lib.rs
@struct VotingContract votes total_voted_stake result last_epoch_height
@prelude
pub open spec fn vf() -> spec_fn(u128) -> int { |v: u128| v as int }
pub open spec fn tally(m: Map<Str, u128>) -> int { sum_f(m, vf()) }
pub open spec fn vinv(s: VotingContract) -> bool {
  &&& s.total_voted_stake == tally(s.votes.m@)
  &&& forall|k: Str| #[trigger] s.votes.m@.dom().contains(k) ==> s.votes.m@[k] > 0
}
pub open spec fn over(total: u128, c: Ctx) -> bool { 3 * total > 2 * c.vtotal }
// the votes after the first processing in a new epoch: current stakes of those who voted and still have stake
pub open spec fn base(s: VotingContract, c: Ctx) -> Map<Str, u128> {
  if c.epoch == s.last_epoch_height { s.votes.m@ } else { Map::new(s.votes.m@.dom().filter(|k: Str| (c.vstake)(k) > 0), |k: Str| (c.vstake)(k)) }
}
// a new epoch closes the poll by itself when the recomputed tally is over two thirds
pub open spec fn base_over(s: VotingContract, c: Ctx) -> bool { c.epoch != s.last_epoch_height && 3 * tally(base(s, c)) > 2 * c.vtotal }
pub open spec fn same_poll(a: VotingContract, b: VotingContract) -> bool { a.votes.m@ =~= b.votes.m@ && a.total_voted_stake == b.total_voted_stake && a.result == b.result }

// what the network reports: no set of validators has more stake than all of them, and all of it leaves room for the arithmetic
pub open spec fn stakes_fit(c: Ctx) -> bool { 3 * c.vtotal <= u128::MAX && forall|m: Map<Str, u128>| (forall|k: Str| #[trigger] m.dom().contains(k) ==> m[k] == (c.vstake)(k)) ==> #[trigger] tally(m) <= c.vtotal }

pub open spec fn next_fits(m: Map<Str, u128>, x: Str, c: Ctx) -> bool { let st = (c.vstake)(x); tally(m.insert(x, st)) <= c.vtotal && tally(m.insert(x, st)) == tally(m) + st }
pub proof fn next_fits_by(m: Map<Str, u128>, x: Str, c: Ctx)
  requires stakes_fit(c), !m.dom().contains(x), forall|k: Str| #[trigger] m.dom().contains(k) ==> m[k] == (c.vstake)(k)
  ensures next_fits(m, x, c)
{
  let n = m.insert(x, (c.vstake)(x));
  sum_insert(m, vf(), x, (c.vstake)(x));
  assert forall|k: Str| #[trigger] n.dom().contains(k) implies n[k] == (c.vstake)(k) by { if k != x { assert(m.dom().contains(k)); } };
  assert(tally(n) <= c.vtotal);
}

@api vote(is_vote: bool)

@fn VotingContract::ping()
@req[C17] vinv(*old(self))
@req old(w)@.c.mp
@ens[C17] vinv(S1)
@ens[C17] S0.result is None
@ens[C17] S1.last_epoch_height == W0.c.epoch
@ens[C17] S1.votes.m@ =~= base(S0, W0.c)
@ens[C17] S1.result == (if base_over(S0, W0.c) { Some(U64(W0.c.ts)) } else { None })
@ens[C17] W1 == W0
@loop 0
@ins self.votes
@pre[C17] sum_empty::<Str, u128>(vf()); if !W.c.mp && 0 < IT.len() { next_fits_by(INS.m@, IT[0].key(), W.c); }
@inv[C17] forall|k: Str| #[trigger] INS.m@.dom().contains(k) ==> INS.m@[k] > 0
@inv[C17] W.c.mp || (stakes_fit(W.c) && (POS < IT.len() ==> next_fits(INS.m@, IT[POS].key(), W.c)))
@try[C17] self.total_voted_stake == tally(INS.m@)
@try[C17] ACC == tally(INS.m@)
@inv[C17] key_seq(IT, S0.votes.m@)
@inv[C17] self.result == LS.result && LS.result == S0.result && self.last_epoch_height == LS.last_epoch_height
@inv W == LW && W == W0
@inv[C17] forall|k: Str| #[trigger] INS.m@.dom().contains(k) <==> (exists|i: int| 0 <= i < POS && (#[trigger] IT[i]).key() == k && (W.c.vstake)(k) > 0)
@inv[C17] forall|k: Str| #[trigger] INS.m@.dom().contains(k) ==> INS.m@[k] == (W.c.vstake)(k)
@hint[C17] let x = IT[POS - 1].key(); let st = (W.c.vstake)(x); assert(!BINS.dom().contains(x)); sum_insert(BINS, vf(), x, st); assert forall|k: Str| #[trigger] INS.m@.dom().contains(k) <==> (exists|i: int| 0 <= i < POS && (#[trigger] IT[i]).key() == k && (W.c.vstake)(k) > 0) by { if INS.m@.dom().contains(k) && k != x { assert(BINS.dom().contains(k)); } if (exists|i: int| 0 <= i < POS && (#[trigger] IT[i]).key() == k && (W.c.vstake)(k) > 0) && k != x { assert(BINS.dom().contains(k)); } }; if !W.c.mp && POS < IT.len() { assert(!INS.m@.dom().contains(IT[POS].key())); next_fits_by(INS.m@, IT[POS].key(), W.c); }
@post[C17] assert(INS.m@ =~= base(S0, W0.c));
@endloop

@init
@ens[C24] !W0.c.exists
@ens[C17] vinv(S1) && S1.votes.m@ =~= Map::<Str, u128>::empty() && S1.result is None
@hint[C17] sum_empty::<Str, u128>(vf());

@step
@req[C17] vinv(S0)
@ens[C17] vinv(S1)
@ens[C17] S0.result is Some ==> same_poll(S0, S1)
@ens[C17] W1 == W0

@entry ping()
@ens[C17] S0.result is None
@ens[C17] S1.votes.m@ =~= base(S0, W0.c)
@ens[C17] S1.result == (if base_over(S0, W0.c) { Some(U64(W0.c.ts)) } else { None })

@entry vote(yes)
@ens[C17] S0.result is None
@ens[C17] S1.last_epoch_height == W0.c.epoch
@ens[C17] base_over(S0, W0.c) ==> S1.votes.m@ =~= base(S0, W0.c) && S1.result == Some(U64(W0.c.ts))
@ens[C17] !base_over(S0, W0.c) && yes ==> (W0.c.vstake)(W0.c.pred) > 0 && S1.votes.m@ =~= base(S0, W0.c).insert(W0.c.pred, (W0.c.vstake)(W0.c.pred)) && S1.result == (if over(S1.total_voted_stake, W0.c) { Some(U64(W0.c.ts)) } else { None })
@ens[C17] !base_over(S0, W0.c) && !yes ==> S1.votes.m@ =~= base(S0, W0.c).remove(W0.c.pred) && S1.result is None
@hint[C17] sum_insert(base(S0, W0.c), vf(), W0.c.pred, (W0.c.vstake)(W0.c.pred)); if base(S0, W0.c).dom().contains(W0.c.pred) { sum_remove(base(S0, W0.c), vf(), W0.c.pred); } else { assert(base(S0, W0.c).remove(W0.c.pred) =~= base(S0, W0.c)); } assert(base(S0, W0.c).remove(W0.c.pred).insert(W0.c.pred, (W0.c.vstake)(W0.c.pred)) =~= base(S0, W0.c).insert(W0.c.pred, (W0.c.vstake)(W0.c.pred)));

@entry get_result()
@ens[C17] ret == S0.result
@entry get_total_voted_stake()
@ens[C17] ret.0 .0 == S0.total_voted_stake && ret.1 .0 == W0.c.vtotal
@entry get_votes()
@ens[C17] ret.m@.dom() =~= S0.votes.m@.dom() && forall|k: Str| #[trigger] ret.m@.dom().contains(k) ==> ret.m@[k].0 == S0.votes.m@[k]

@loops VotingContract::get_votes()
@loop 0
@out PVec<(Str, U128)>
@inv[C17] OUT.len() == POS
@inv[C17] kv_order(IT, LS.votes.m@)
@inv[C17] forall|i: int| 0 <= i < POS ==> (#[trigger] OUT[i]).0 == IT[i].0 && OUT[i].1.0 == IT[i].1
@post[C17] assert(distinct_keys(OUT)) by { assert forall|i: int, j: int| 0 <= i < OUT.len() && 0 <= j < OUT.len() && i != j implies (#[trigger] OUT[i]).0 != (#[trigger] OUT[j]).0 by { assert(IT[i].0 != IT[j].0); } }; let sm = seq_map(OUT); assert(kvp(OUT, sm)); assert forall|k: Str| LS.votes.m@.dom().contains(k) implies #[trigger] sm.dom().contains(k) by { let i = choose|i: int| 0 <= i < IT.len() && (#[trigger] IT[i]).0 == k; assert(OUT[i].0 == k); }; assert forall|k: Str| #[trigger] sm.dom().contains(k) implies LS.votes.m@.dom().contains(k) && sm[k].0 == LS.votes.m@[k] by { let i = choose|i: int| 0 <= i < OUT.len() && (#[trigger] OUT[i]).0 == k; assert(IT[i].0 == k); };
@endloop

//! while the poll is open, whoever may vote can vote and withdraw, and anyone can ping
@nopanic ping()
@req[C17] vinv(S0) && W0.c.deposit == 0 && S0.result is None && stakes_fit(W0.c) && S0.total_voted_stake <= W0.c.vtotal
@nopanic vote(yes)
@req[C17] vinv(S0) && W0.c.deposit == 0 && S0.result is None && stakes_fit(W0.c) && S0.total_voted_stake <= W0.c.vtotal && (yes ==> (W0.c.vstake)(W0.c.pred) > 0)
@pre[C17] let b = base(S0, W0.c); if W0.c.epoch != S0.last_epoch_height { assert forall|k: Str| #[trigger] b.dom().contains(k) implies b[k] == (W0.c.vstake)(k) by {}; assert(tally(b) <= W0.c.vtotal); } assert forall|v: u128| #[trigger] vf()(v) >= 0 by {}; if b.dom().contains(W0.c.pred) { sum_ge(b, vf(), W0.c.pred); } sum_empty::<Str, u128>(vf()); next_fits_by(Map::<Str, u128>::empty(), W0.c.pred, W0.c);
//! the views answer
@nopanic get_result()
@req[C17] true
@nopanic get_total_voted_stake()
@req[C17] true
@nopanic get_votes()
@req[C17] true
