//! Contracts for staking-pool/src/lib.rs and staking-pool/src/internal.rs
@struct StakingContract owner_id stake_public_key last_epoch_height last_total_balance total_stake_shares total_staked_balance reward_fee_fraction accounts paused
@struct Account unstaked stake_shares unstaked_available_epoch_height
@struct RewardFeeFraction numerator denominator
@struct HumanReadableAccount account_id unstaked_balance staked_balance can_withdraw

@prelude
pub type SC = StakingContract;
// ---- conversions between stake shares and amounts at total stake t and total shares s
pub open spec fn nsd(t: int, s: int, a: int) -> int { s * a / t }
pub open spec fn nsu(t: int, s: int, a: int) -> int { (s * a + (t - 1)) / t }
pub open spec fn amd(t: int, s: int, n: int) -> int { t * n / s }
pub open spec fn amu(t: int, s: int, n: int) -> int { (t * n + (s - 1)) / s }
// ---- accounts
pub open spec fn nil() -> Account { Account { unstaked: 0, stake_shares: 0, unstaked_available_epoch_height: 0 } }
pub open spec fn acct(m: Map<Str, Account>, k: Str) -> Account { if m.dom().contains(k) { m[k] } else { nil() } }
pub open spec fn put(m: Map<Str, Account>, k: Str, a: Account) -> Map<Str, Account> { if a.unstaked > 0 || a.stake_shares > 0 { m.insert(k, a) } else { m.remove(k) } }
pub open spec fn shf() -> spec_fn(Account) -> int { |a: Account| a.stake_shares as int }
pub open spec fn unf() -> spec_fn(Account) -> int { |a: Account| a.unstaked as int }
pub open spec fn sh(s: SC) -> int { sum_f(s.accounts.m@, shf()) }
pub open spec fn un(s: SC) -> int { sum_f(s.accounts.m@, unf()) }
pub proof fn put_sums(m: Map<Str, Account>, k: Str, a: Account)
  ensures sum_f(put(m, k, a), shf()) == sum_f(m, shf()) - acct(m, k).stake_shares + a.stake_shares,
    sum_f(put(m, k, a), unf()) == sum_f(m, unf()) - acct(m, k).unstaked + a.unstaked,
{
  sum_insert(m, shf(), k, a); sum_insert(m, unf(), k, a);
  if m.dom().contains(k) { sum_remove(m, shf(), k); sum_remove(m, unf(), k); } else { assert(m.remove(k) =~= m); }
}
// ---- the epoch's reward, the owner's fee and the pool right after distribution
pub open spec fn fresh(s: SC, c: Ctx) -> bool { s.last_epoch_height != c.epoch }
pub open spec fn newtotal(w: WV) -> int { w.c.locked + w.bal - w.c.deposit }
pub open spec fn reward(s: SC, w: WV) -> int { if fresh(s, w.c) { newtotal(w) - s.last_total_balance } else { 0 } }
pub open spec fn fee(s: SC, w: WV) -> int { s.reward_fee_fraction.numerator * reward(s, w) / (s.reward_fee_fraction.denominator as int) }
pub open spec fn fee_shares(s: SC, w: WV) -> int { if reward(s, w) > 0 { nsd(s.total_staked_balance + (reward(s, w) - fee(s, w)), s.total_stake_shares as int, fee(s, w)) } else { 0 } }
pub open spec fn p_t(s: SC, w: WV) -> int { s.total_staked_balance + reward(s, w) }
pub open spec fn p_s(s: SC, w: WV) -> int { s.total_stake_shares + fee_shares(s, w) }
pub open spec fn p_l(s: SC, w: WV) -> int { if fresh(s, w.c) { newtotal(w) } else { s.last_total_balance as int } }
pub open spec fn p_m(s: SC, w: WV) -> Map<Str, Account> {
  if fee_shares(s, w) > 0 { let a = acct(s.accounts.m@, s.owner_id); put(s.accounts.m@, s.owner_id, Account { stake_shares: (a.stake_shares + fee_shares(s, w)) as u128, ..a }) } else { s.accounts.m@ }
}
pub open spec fn fee_ok(f: RewardFeeFraction) -> bool { f.denominator > 0 && f.numerator <= f.denominator }
// ---- the pool's standing invariant: price at least one, the pool's own shares can never be unstaked
pub open spec fn pinv(s: SC) -> bool { s.total_staked_balance >= s.total_stake_shares && sh(s) < s.total_stake_shares && fee_ok(s.reward_fee_fraction) }
pub open spec fn price_le(t0: int, s0: int, t1: int, s1: int) -> bool { t0 * s1 <= t1 * s0 }
pub open spec fn same_config(a: SC, b: SC) -> bool { a.owner_id == b.owner_id && a.stake_public_key == b.stake_public_key && a.reward_fee_fraction == b.reward_fee_fraction && a.paused == b.paused }
pub open spec fn same_book(a: SC, b: SC) -> bool { a.total_staked_balance == b.total_staked_balance && a.total_stake_shares == b.total_stake_shares && a.last_total_balance == b.last_total_balance && a.last_epoch_height == b.last_epoch_height && a.accounts.m@ =~= b.accounts.m@ && a.accounts.p@ == b.accounts.p@ }
// the amount a staking / unstaking call asks for
pub open spec fn stake_n(t: int, s: int, a: int) -> int { nsd(t, s, a) }

// ---- arithmetic facts (proved)
pub proof fn floor_facts(x: int, d: int)
  requires d > 0, x >= 0
  ensures d * (x / d) <= x, x < d * (x / d) + d, x / d >= 0
{ assert(d * (x / d) <= x && x < d * (x / d) + d && x / d >= 0) by(nonlinear_arith) requires d > 0, x >= 0; }
pub proof fn ceil_facts(x: int, d: int)
  requires d > 0, x >= 0
  ensures d * ((x + (d - 1)) / d) >= x, d * ((x + (d - 1)) / d) <= x + (d - 1), (x + (d - 1)) / d >= 0, (x + (d - 1)) / d >= x / d, (x + (d - 1)) / d <= x / d + 1
{ floor_facts(x + (d - 1), d); floor_facts(x, d);
  let c = (x + (d - 1)) / d; let f = x / d;
  assert(c >= f && c <= f + 1) by(nonlinear_arith) requires d * c <= x + (d - 1), x + (d - 1) < d * c + d, d * f <= x, x < d * f + d, d > 0; }
// staking n shares while adding the rounded-up value does not lower the price
pub proof fn price_stake(t: int, s: int, n: int)
  requires s > 0, t >= 0, n >= 0
  ensures price_le(t, s, t + amu(t, s, n), s + n), t >= s ==> t + amu(t, s, n) >= s + n
{
  assert(t * n >= 0) by(nonlinear_arith) requires t >= 0, n >= 0;
  ceil_facts(t * n, s);
  let c = amu(t, s, n);
  assert(t * (s + n) <= (t + c) * s) by(nonlinear_arith) requires s * c >= t * n;
  if t >= s { assert(c >= n) by(nonlinear_arith) requires s * c >= t * n, t >= s, s > 0, n >= 0; }
}
// unstaking n shares while taking out the rounded-down value does not lower the price
pub proof fn price_unstake(t: int, s: int, n: int)
  requires s > 0, t >= s, 0 <= n <= s
  ensures price_le(t, s, t - amd(t, s, n), s - n), t - amd(t, s, n) >= s - n
{
  assert(t * n >= 0) by(nonlinear_arith) requires t >= 0, n >= 0;
  floor_facts(t * n, s);
  let f = amd(t, s, n);
  assert(t * (s - n) <= (t - f) * s) by(nonlinear_arith) requires s * f <= t * n;
  assert(t - f >= s - n) by(nonlinear_arith) requires s * f <= t * n, t >= s, s > 0, 0 <= n <= s;
}
pub proof fn price_refl(t: int, s: int) ensures price_le(t, s, t, s) {}
pub proof fn price_trans(t0: int, s0: int, t1: int, s1: int, t2: int, s2: int)
  requires price_le(t0, s0, t1, s1), price_le(t1, s1, t2, s2), s1 > 0, s0 >= 0, s2 >= 0
  ensures price_le(t0, s0, t2, s2)
{ assert(t0 * s2 <= t2 * s0) by(nonlinear_arith) requires t0 * s1 <= t1 * s0, t1 * s2 <= t2 * s1, s1 > 0, s0 >= 0, s2 >= 0; }
pub proof fn fee_facts(s: SC, w: WV)
  requires fee_ok(s.reward_fee_fraction), reward(s, w) >= 0
  ensures 0 <= fee(s, w) <= reward(s, w)
{
  let r = reward(s, w); let n = s.reward_fee_fraction.numerator as int; let d = s.reward_fee_fraction.denominator as int;
  assert(n * r >= 0) by(nonlinear_arith) requires n >= 0, r >= 0;
  floor_facts(n * r, d);
  let f = n * r / d;
  assert(f <= r) by(nonlinear_arith) requires d * f <= n * r, 0 <= n <= d, r >= 0, d > 0;
}
// distributing a reward does not lower the price
pub proof fn price_ping(s: SC, w: WV)
  requires pinv(s), reward(s, w) >= 0, s.total_stake_shares > 0
  ensures price_le(s.total_staked_balance as int, s.total_stake_shares as int, p_t(s, w), p_s(s, w)), p_t(s, w) >= p_s(s, w), fee_shares(s, w) >= 0, 0 <= fee(s, w) <= reward(s, w)
{
  fee_facts(s, w);
  let r = reward(s, w); let f = fee(s, w); let t = s.total_staked_balance as int; let ss = s.total_stake_shares as int;
  if r > 0 {
    let t1 = t + (r - f);
    assert(ss * f >= 0) by(nonlinear_arith) requires ss >= 0, f >= 0;
    floor_facts(ss * f, t1);
    let n = nsd(t1, ss, f);
    assert(t * (ss + n) <= (t1 + f) * ss) by(nonlinear_arith) requires t1 * n <= ss * f, t <= t1, n >= 0, t >= 0, ss >= 0;
    assert(t1 + f >= ss + n) by(nonlinear_arith) requires t1 * n <= ss * f, t1 >= ss, f >= 0, ss > 0, n >= 0;
  } else {
    assert(t * ss <= (t + r) * ss) by(nonlinear_arith) requires r == 0;
  }
}
// a staking call is fair: see property C02
pub open spec fn stake_fair(t: int, s: int, a: int, n: int, charge: int) -> bool { n == nsd(t, s, a) && n > 0 && charge == amd(t, s, n) && 0 < charge <= a && s * (a - charge) < t + s }
pub open spec fn unstake_fair(t: int, s: int, a: int, n: int, receive: int) -> bool { n == nsu(t, s, a) && n > 0 && receive == amu(t, s, n) && receive >= a && t * (n - 1) < s * a }
pub proof fn stake_fair_facts(t: int, s: int, a: int)
  requires t > 0, s > 0, a >= 0
  ensures amd(t, s, nsd(t, s, a)) <= a, s * (a - amd(t, s, nsd(t, s, a))) < t + s
{
  assert(s * a >= 0) by(nonlinear_arith) requires s >= 0, a >= 0;
  floor_facts(s * a, t);
  let n = nsd(t, s, a);
  assert(t * n >= 0) by(nonlinear_arith) requires t >= 0, n >= 0;
  floor_facts(t * n, s);
  let c = amd(t, s, n);
  assert(c <= a) by(nonlinear_arith) requires t * n <= s * a, s * c <= t * n, s > 0;
  assert(s * (a - c) < t + s) by(nonlinear_arith) requires t * n + t > s * a, s * c + s > t * n;
}
pub proof fn unstake_fair_facts(t: int, s: int, a: int)
  requires t > 0, s > 0, a >= 0
  ensures amu(t, s, nsu(t, s, a)) >= a, t * (nsu(t, s, a) - 1) < s * a || a == 0
{
  assert(s * a >= 0) by(nonlinear_arith) requires s >= 0, a >= 0;
  ceil_facts(s * a, t);
  let n = nsu(t, s, a);
  assert(t * n >= 0) by(nonlinear_arith) requires t >= 0, n >= 0;
  ceil_facts(t * n, s);
  let r = amu(t, s, n);
  assert(r >= a) by(nonlinear_arith) requires s * r >= t * n, t * n >= s * a, s > 0;
  assert(t * (n - 1) < s * a) by(nonlinear_arith) requires t * n <= s * a + (t - 1);
}
// with the price at least one, unstaking the value of all shares burns all of them
pub proof fn unstake_all_facts(t: int, s: int, k: int)
  requires t >= s, s > 0, k >= 0
  ensures nsu(t, s, amd(t, s, k)) == k
{
  assert(t * k >= 0) by(nonlinear_arith) requires t >= 0, k >= 0;
  floor_facts(t * k, s);
  let a = amd(t, s, k);
  assert(s * a >= 0) by(nonlinear_arith) requires s >= 0, a >= 0;
  floor_facts(s * a + (t - 1), t);
  let n = nsu(t, s, a);
  assert(n == k) by(nonlinear_arith) requires s * a <= t * k, t * k < s * a + s, t * n <= s * a + (t - 1), s * a + (t - 1) < t * n + t, t >= s, s > 0;
}

pub proof fn prod_fits(a: int, b: int)
  requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX
  ensures 0 <= a * b <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff
{ assert(0 <= a * b <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= a <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, 0 <= b <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff; }
// with the price at least one, no conversion grows beyond what it started from
pub open spec fn fits_all(s: SC) -> bool { s.total_stake_shares > 0 && forall|id: Str| amd(s.total_staked_balance as int, s.total_stake_shares as int, (#[trigger] acct(s.accounts.m@, id)).stake_shares as int) <= u128::MAX }
pub proof fn conv_facts(t: int, s: int, a: int)
  requires t >= s, s > 0, a >= 0
  ensures 0 <= nsd(t, s, a) <= a, 0 <= nsu(t, s, a) <= a, amd(t, s, a) >= a, amu(t, s, a) <= amd(t, s, a) + 1, amd(t, s, nsd(t, s, a)) <= a, a <= s ==> amd(t, s, a) <= t, a > 0 ==> nsu(t, s, a) > 0
{
  assert(s * a >= 0 && s * a <= t * a) by(nonlinear_arith) requires t >= s, s > 0, a >= 0;
  floor_facts(s * a, t); floor_facts(t * a, s); ceil_facts(s * a, t); ceil_facts(t * a, s); floor_facts(s * a + (t - 1), t);
  let n = nsd(t, s, a); let m = nsu(t, s, a); let d = amd(t, s, a);
  assert(n <= a) by(nonlinear_arith) requires t * n <= s * a, s * a <= t * a, t > 0;
  assert(m <= a) by(nonlinear_arith) requires t * m <= s * a + (t - 1), s * a <= t * a, t > 0;
  assert(d >= a) by(nonlinear_arith) requires t * a < s * d + s, t * a >= s * a, s > 0;
  if a > 0 { assert(s * a > 0) by(nonlinear_arith) requires s > 0, a > 0; assert(m > 0) by(nonlinear_arith) requires t * m >= s * a, s * a > 0, t > 0; }
  if a <= s { assert(d <= t) by(nonlinear_arith) requires s * d <= t * a, a <= s, s > 0, t > 0; }
  stake_fair_facts(t, s, a);
}
pub proof fn all_fit(s: SC)
  requires pinv(s)
  ensures fits_all(s)
{
  sum_nonneg(s.accounts.m@, shf());
  assert forall|id: Str| amd(s.total_staked_balance as int, s.total_stake_shares as int, (#[trigger] acct(s.accounts.m@, id)).stake_shares as int) <= u128::MAX by {
    if s.accounts.m@.dom().contains(id) { sum_ge(s.accounts.m@, shf(), id); }
    conv_facts(s.total_staked_balance as int, s.total_stake_shares as int, acct(s.accounts.m@, id).stake_shares as int);
  }
}
// whatever is at most the value of k shares takes at most k shares to unstake
pub proof fn unstake_within(t: int, s: int, k: int, a: int)
  requires t >= s, s > 0, k >= 0, 0 <= a <= amd(t, s, k)
  ensures nsu(t, s, a) <= k
{
  unstake_all_facts(t, s, k);
  let d = amd(t, s, k);
  assert(s * a <= s * d && s * a >= 0) by(nonlinear_arith) requires s > 0, 0 <= a, a <= d;
  ceil_facts(s * a, t); ceil_facts(s * d, t); floor_facts(s * a + (t - 1), t); floor_facts(s * d + (t - 1), t);
  let x = nsu(t, s, a); let y = nsu(t, s, d);
  assert(x <= y) by(nonlinear_arith) requires t * x <= s * a + (t - 1), s * d + (t - 1) < t * y + t, s * a <= s * d, t > 0;
}
// amounts stay far below what the number types hold
pub open spec fn small() -> int { 0x1000_0000_0000_0000_0000_0000_0000_0000 }

@api new(owner_id: String, stake_public_key: Base58PublicKey, reward_fee_fraction: RewardFeeFraction)
@api stake(amount: U128)
@api unstake(amount: U128)
@api withdraw(amount: U128)
@api get_account_staked_balance(account_id: String)
@api get_account_unstaked_balance(account_id: String)
@api get_account_total_balance(account_id: String)

@fn StakingContract::num_shares_from_staked_amount_rounded_down(a)
@pre prod_fits(S0.total_stake_shares as int, a as int);
@req W0.c.mp || (S0.total_staked_balance > 0 && nsd(S0.total_staked_balance as int, S0.total_stake_shares as int, a as int) <= u128::MAX)
@ens S0.total_staked_balance > 0 && ret == nsd(S0.total_staked_balance as int, S0.total_stake_shares as int, a as int)
@ens W1 == W0
@fn StakingContract::num_shares_from_staked_amount_rounded_up(a)
@pre prod_fits(S0.total_stake_shares as int, a as int);
@req W0.c.mp || (S0.total_staked_balance > 0 && nsu(S0.total_staked_balance as int, S0.total_stake_shares as int, a as int) <= u128::MAX)
@ens S0.total_staked_balance > 0 && ret == nsu(S0.total_staked_balance as int, S0.total_stake_shares as int, a as int)
@ens W1 == W0
@fn StakingContract::staked_amount_from_num_shares_rounded_down(n)
@pre prod_fits(S0.total_staked_balance as int, n as int);
@req W0.c.mp || (S0.total_stake_shares > 0 && amd(S0.total_staked_balance as int, S0.total_stake_shares as int, n as int) <= u128::MAX)
@ens S0.total_stake_shares > 0 && ret == amd(S0.total_staked_balance as int, S0.total_stake_shares as int, n as int)
@ens W1 == W0
@fn StakingContract::staked_amount_from_num_shares_rounded_up(n)
@pre prod_fits(S0.total_staked_balance as int, n as int);
@req W0.c.mp || (S0.total_stake_shares > 0 && amu(S0.total_staked_balance as int, S0.total_stake_shares as int, n as int) <= u128::MAX)
@ens S0.total_stake_shares > 0 && ret == amu(S0.total_staked_balance as int, S0.total_stake_shares as int, n as int)
@ens W1 == W0
@fn RewardFeeFraction::multiply(v)
@req W0.c.mp || fee_ok(S0)
@pre if fee_ok(S0) { let n = S0.numerator as int; let d = S0.denominator as int; prod_fits(n, v as int); assert(0 <= n * v <= d * v) by(nonlinear_arith) requires 0 <= n <= d, v >= 0; floor_facts(n * v, d); let f = n * v / d; assert(f <= v) by(nonlinear_arith) requires d * f <= n * v, n * v <= d * v, d > 0; }
@ens S0.denominator > 0 && ret == S0.numerator * v / (S0.denominator as int)
@ens W1 == W0
@fn StakingContract::internal_get_account(id)
@req W0.c.mp || !W0.c.mp
@ens ret == acct(S0.accounts.m@, *id)
@ens W1 == W0
@fn StakingContract::internal_save_account(id, a)
@req old(w)@.c.mp || !old(w)@.c.mp
@ens S1.accounts.m@ == put(S0.accounts.m@, *id, *a) && S1.accounts.p@ == S0.accounts.p@
@ens S1 == (StakingContract { accounts: S1.accounts, ..S0 })
@ens W1 == W0

@prelude
// the pool has not been slashed and its amounts are far below what the number types hold
pub open spec fn calm(s: SC, w: WV) -> bool { pinv(s) && w.c.deposit <= w.bal && w.bal + w.c.locked <= small() && reward(s, w) >= 0 && s.last_total_balance <= small() && p_t(s, w) <= small() }

@fn StakingContract::internal_ping()
@req old(w)@.c.mp || calm(*old(self), old(w)@)
@pre if !W0.c.mp { sum_nonneg(S0.accounts.m@, shf()); price_ping(S0, W0); if S0.accounts.m@.dom().contains(S0.owner_id) { sum_ge(S0.accounts.m@, shf(), S0.owner_id); } if reward(S0, W0) > 0 { conv_facts(S0.total_staked_balance + (reward(S0, W0) - fee(S0, W0)), S0.total_stake_shares as int, fee(S0, W0)); } }
@ens W1 == W0 && same_config(S0, S1) && S1.last_epoch_height == W0.c.epoch && ret == fresh(S0, W0.c)
@ens !ret ==> same_book(S0, S1)
@ens reward(S0, W0) >= 0
@ens S1.total_staked_balance == p_t(S0, W0)
@ens S1.total_stake_shares == p_s(S0, W0)
@ens S1.accounts.m@ =~= p_m(S0, W0) && S1.accounts.p@ == S0.accounts.p@
@ens S1.last_total_balance == p_l(S0, W0)

@fn StakingContract::internal_deposit()
@req old(w)@.c.mp || (old(self).last_total_balance + old(w)@.c.deposit <= u128::MAX && acct(old(self).accounts.m@, old(w)@.c.pred).unstaked + old(w)@.c.deposit <= u128::MAX)
@ens W1 == W0 && ret == W0.c.deposit
@ens S1 == (StakingContract { accounts: S1.accounts, last_total_balance: S1.last_total_balance, ..S0 }) && S1.accounts.p@ == S0.accounts.p@
@ens S1.last_total_balance == S0.last_total_balance + W0.c.deposit
@ens ({ let a = acct(S0.accounts.m@, W0.c.pred); a.unstaked + W0.c.deposit <= u128::MAX && S1.accounts.m@ =~= put(S0.accounts.m@, W0.c.pred, Account { unstaked: (a.unstaked + W0.c.deposit) as u128, ..a }) })

@fn StakingContract::internal_withdraw(amount)
@req old(w)@.c.mp || ({ let a = acct(old(self).accounts.m@, old(w)@.c.pred); 0 < amount <= a.unstaked && a.unstaked_available_epoch_height <= old(w)@.c.epoch && amount <= old(self).last_total_balance && amount <= old(w)@.bal })
@ens amount > 0 && S0.last_total_balance >= amount && amount <= W0.bal
@ens W1 == add_act_dep(new_prom(W0, W0.c.pred), W0.proms.len(), Act::Transfer(amount), amount)
@ens S1 == (StakingContract { accounts: S1.accounts, last_total_balance: S1.last_total_balance, ..S0 }) && S1.accounts.p@ == S0.accounts.p@
@ens S1.last_total_balance == S0.last_total_balance - amount
@ens ({ let a = acct(S0.accounts.m@, W0.c.pred); a.unstaked >= amount && a.unstaked_available_epoch_height <= W0.c.epoch && S1.accounts.m@ =~= put(S0.accounts.m@, W0.c.pred, Account { unstaked: (a.unstaked - amount) as u128, ..a }) })

@fn StakingContract::internal_stake(amount)
@req old(w)@.c.mp || ({ let a = acct(old(self).accounts.m@, old(w)@.c.pred); let t = old(self).total_staked_balance as int; let s = old(self).total_stake_shares as int; t >= s && s > 0 && nsd(t, s, amount as int) > 0 && amount <= a.unstaked && t + amount + 1 <= u128::MAX && a.stake_shares <= s && s + amount <= u128::MAX })
@pre if !W0.c.mp { let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; conv_facts(t, s, amount as int); conv_facts(t, s, nsd(t, s, amount as int)); if amount == 0 { assert(s * 0 == 0); assert(0int / t == 0) by(nonlinear_arith) requires t > 0; } }
@ens W1 == W0 && S0.total_stake_shares > 0 && S0.total_staked_balance > 0
@ens S1 == (StakingContract { accounts: S1.accounts, total_staked_balance: S1.total_staked_balance, total_stake_shares: S1.total_stake_shares, ..S0 }) && S1.accounts.p@ == S0.accounts.p@
@ens ({ let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; let n = nsd(t, s, amount as int); n > 0 && S1.total_stake_shares == s + n && S1.total_staked_balance == t + amu(t, s, n) })
@ens ({ let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; let n = nsd(t, s, amount as int); let c = amd(t, s, n); let a = acct(S0.accounts.m@, W0.c.pred); n > 0 && c > 0 && a.unstaked >= c && a.stake_shares + n <= u128::MAX
   && S1.accounts.m@ =~= put(S0.accounts.m@, W0.c.pred, Account { unstaked: (a.unstaked - c) as u128, stake_shares: (a.stake_shares + n) as u128, ..a }) })

@fn StakingContract::inner_unstake(amount)
@req old(w)@.c.mp || ({ let a = acct(old(self).accounts.m@, old(w)@.c.pred); let t = old(self).total_staked_balance as int; let s = old(self).total_stake_shares as int; t >= s && s > 0 && 0 < amount && nsu(t, s, amount as int) <= a.stake_shares && a.stake_shares <= s && a.unstaked + t + 1 <= u128::MAX && old(w)@.c.epoch + 4 <= u64::MAX })
@pre if !W0.c.mp { let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; conv_facts(t, s, amount as int); conv_facts(t, s, nsu(t, s, amount as int)); round_facts(t, s, nsu(t, s, amount as int)); }
@ens W1 == W0 && S0.total_stake_shares > 0 && S0.total_staked_balance > 0 && amount > 0
@ens S1 == (StakingContract { accounts: S1.accounts, total_staked_balance: S1.total_staked_balance, total_stake_shares: S1.total_stake_shares, ..S0 }) && S1.accounts.p@ == S0.accounts.p@
@ens ({ let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; let n = nsu(t, s, amount as int); n > 0 && S1.total_stake_shares == s - n && S1.total_staked_balance == t - amd(t, s, n) })
@ens ({ let t = S0.total_staked_balance as int; let s = S0.total_stake_shares as int; let n = nsu(t, s, amount as int); let r = amu(t, s, n); let a = acct(S0.accounts.m@, W0.c.pred); n > 0 && r > 0 && a.stake_shares >= n && a.unstaked + r <= u128::MAX && W0.c.epoch + 4 <= u64::MAX
   && S1.accounts.m@ =~= put(S0.accounts.m@, W0.c.pred, Account { unstaked: (a.unstaked + r) as u128, stake_shares: (a.stake_shares - n) as u128, unstaked_available_epoch_height: (W0.c.epoch + 4) as u64 }) })

@prelude
// ---- the caller's account after distribution and after the call
pub open spec fn a0(s: SC, w: WV) -> Account { acct(p_m(s, w), w.c.pred) }
pub open spec fn a1(s: SC, w: WV) -> Account { acct(s.accounts.m@, w.c.pred) }
pub open spec fn only_caller(s0: SC, s1: SC, w: WV) -> bool { forall|k: Str| k != w.c.pred ==> #[trigger] acct(s1.accounts.m@, k) == acct(p_m(s0, w), k) }
// promises
pub open spec fn is_restake(p: Seq<Prom>, b: int, t: u128, key: Seq<u8>, cur: Str) -> bool {
  &&& p.len() == b + 2 && p[b].to == cur.s@ && p[b].acts =~= seq![Act::Stake(t, key)]
  &&& p[b + 1].to == cur.s@ && p[b + 1].acts.len() == 1 && p[b + 1].acts[0] is Call && p[b + 1].acts[0]->m == str_bytes("on_stake_action"@) && p[b + 1].acts[0]->dep == 0 && p[b + 1].after == Some(b as nat)
}
pub open spec fn is_zero_stake(p: Seq<Prom>, b: int, key: Seq<u8>, cur: Str) -> bool { p.len() == b + 1 && p[b].to == cur.s@ && p[b].acts =~= seq![Act::Stake(0, key)] }
pub open spec fn is_payout(p: Seq<Prom>, to: Str, amount: u128) -> bool { p.len() >= 1 && p[0].to == to.s@ && p[0].acts =~= seq![Act::Transfer(amount)] }
// everything requested from the network, after the first b receipts: what a call that must restake asks for
pub open spec fn restaked(p: Seq<Prom>, b: int, s1: SC, cur: Str) -> bool { if s1.paused { p.len() == b } else { is_restake(p, b, s1.total_staked_balance, s1.stake_public_key.s@, cur) } }
pub open spec fn human(h: HumanReadableAccount, s: SC, id: Str, c: Ctx) -> bool {
  let a = acct(s.accounts.m@, id);
  h.account_id == id && h.unstaked_balance.0 == a.unstaked && h.staked_balance.0 == amd(s.total_staked_balance as int, s.total_stake_shares as int, a.stake_shares as int) && h.can_withdraw == (a.unstaked_available_epoch_height <= c.epoch)
}
pub proof fn put_self(m: Map<Str, Account>, k: Str, a: Account)
  ensures acct(put(m, k, a), k) == (if a.unstaked > 0 || a.stake_shares > 0 { a } else { nil() }), put(m, k, acct(put(m, k, a), k)) =~= put(m, k, a)
{ }
// sums after a call that redistributes and then changes only the caller's account
pub proof fn call_sums(s0: SC, w: WV, s1: SC)
  requires pinv(s0), fee_shares(s0, w) >= 0, p_s(s0, w) <= u128::MAX
  ensures sum_f(p_m(s0, w), shf()) == sh(s0) + fee_shares(s0, w), sum_f(p_m(s0, w), unf()) == un(s0),
    s1.accounts.m@ =~= p_m(s0, w) || s1.accounts.m@ =~= put(p_m(s0, w), w.c.pred, a1(s1, w)) ==> sh(s1) == sh(s0) + fee_shares(s0, w) + a1(s1, w).stake_shares - a0(s0, w).stake_shares && un(s1) == un(s0) + a1(s1, w).unstaked - a0(s0, w).unstaked,
{
  let o = acct(s0.accounts.m@, s0.owner_id);
  if s0.accounts.m@.dom().contains(s0.owner_id) { sum_ge(s0.accounts.m@, shf(), s0.owner_id); } else { sum_nonneg(s0.accounts.m@, shf()); }
  assert(o.stake_shares <= sh(s0));
  if fee_shares(s0, w) > 0 { put_sums(s0.accounts.m@, s0.owner_id, Account { stake_shares: (o.stake_shares + fee_shares(s0, w)) as u128, ..o }); }
  put_sums(p_m(s0, w), w.c.pred, a1(s1, w));
}
pub proof fn price_step(s0: SC, w: WV, s1: SC)
  requires pinv(s0), reward(s0, w) >= 0, p_s(s0, w) <= u128::MAX
  ensures ({ let t = p_t(s0, w); let s = p_s(s0, w); let n = s1.total_stake_shares - s; let t1 = s1.total_staked_balance as int;
    (n >= 0 && t1 == t + amu(t, s, n)) || (n <= 0 && -n <= s && t1 == t - amd(t, s, -n)) ==> price_le(s0.total_staked_balance as int, s0.total_stake_shares as int, t1, s1.total_stake_shares as int) && t1 >= s1.total_stake_shares })
{
  sum_nonneg(s0.accounts.m@, shf());
  let t = p_t(s0, w); let s = p_s(s0, w); let n = s1.total_stake_shares - s; let t1 = s1.total_staked_balance as int;
  price_ping(s0, w);
  if n >= 0 && t1 == t + amu(t, s, n) { price_stake(t, s, n); price_trans(s0.total_staked_balance as int, s0.total_stake_shares as int, t, s, t1, s + n); }
  if n <= 0 && -n <= s && t1 == t - amd(t, s, -n) { price_unstake(t, s, -n); price_trans(s0.total_staked_balance as int, s0.total_stake_shares as int, t, s, t1, s + n); }
}
// amu and amd differ by at most one
pub proof fn round_facts(t: int, s: int, n: int)
  requires s > 0, t >= 0, n >= 0
  ensures amd(t, s, n) <= amu(t, s, n) <= amd(t, s, n) + 1, amd(t, s, n) >= 0, amd(t, s, 0) == 0, amu(t, s, 0) == 0
{ assert(t * n >= 0) by(nonlinear_arith) requires t >= 0, n >= 0; ceil_facts(t * n, s); floor_facts(t * n, s); ceil_facts(0, s); assert(t * 0 == 0); floor_facts(0, s); assert((s - 1) / s == 0) by(nonlinear_arith) requires s > 0; assert(0int / s == 0) by(nonlinear_arith) requires s > 0; }

@init
@ens[C24] !W0.c.exists
@ens[C01,C02,C03] W0.bal > S1.total_staked_balance && S1.total_staked_balance > 0 ==> pinv(S1)
@ens[C01] S1.total_staked_balance == S1.total_stake_shares && S1.total_staked_balance <= W0.bal
@ens[C03] sh(S1) == 0 && un(S1) == 0 && S1.last_total_balance == W0.bal && W0.c.locked == 0 && W1.bal == W0.bal
@ens[C05] S1.last_epoch_height == W0.c.epoch
@ens[C06] fee_ok(S1.reward_fee_fraction) && !S1.paused && is_restake(W1.proms, 0, S1.total_staked_balance, S1.stake_public_key.s@, W0.c.cur)
@hint sum_empty::<Str, Account>(shf()); sum_empty::<Str, Account>(unf()); assert(S1.accounts.m@ =~= Map::<Str, Account>::empty());
@entry new(owner, key, f)
@ens[C06] S1.owner_id == owner && S1.stake_public_key == key.0 && S1.reward_fee_fraction == f && valid_id(owner)

@step
@req pinv(S0)
@ens[C06] can_run(W1.proms) && gas_out(W1.proms) <= 295_000_000_000_000
@ens[C01] price_le(S0.total_staked_balance as int, S0.total_stake_shares as int, S1.total_staked_balance as int, S1.total_stake_shares as int)
@ens[C01] S1.total_staked_balance >= S1.total_stake_shares && S1.total_stake_shares > 0
@ens[C01,C03] sh(S1) < S1.total_stake_shares
@ens[C03] sh(S1) - sh(S0) == S1.total_stake_shares - S0.total_stake_shares
@ens[C06] fee_ok(S1.reward_fee_fraction) && S1.owner_id == S0.owner_id && (W0.c.pred != S0.owner_id ==> same_config(S0, S1))
@ens[C06] S1.paused ==> forall|i: int, j: int| 0 <= i < W1.proms.len() && 0 <= j < W1.proms[i].acts.len() && (#[trigger] W1.proms[i].acts[j]) is Stake ==> W1.proms[i].acts[j]->Stake_0 == 0
@ens[C06] forall|i: int, j: int| 0 <= i < W1.proms.len() && 0 <= j < W1.proms[i].acts.len() && (#[trigger] W1.proms[i].acts[j]) is Stake ==> W1.proms[i].to == W0.c.cur.s@ && W1.proms[i].acts[j]->Stake_1 == S1.stake_public_key.s@ && (W1.proms[i].acts[j]->Stake_0 == 0 || W1.proms[i].acts[j]->Stake_0 == S1.total_staked_balance)
@hint sum_nonneg(S0.accounts.m@, shf()); sum_nonneg(S1.accounts.m@, shf()); if reward(S0, W0) >= 0 { price_ping(S0, W0); } price_refl(S0.total_staked_balance as int, S0.total_stake_shares as int);
@hint if reward(S0, W0) >= 0 && p_s(S0, W0) <= u128::MAX { call_sums(S0, W0, S1); price_step(S0, W0, S1); }

@step only ping deposit deposit_and_stake withdraw_all withdraw stake_all stake unstake_all unstake update_staking_key update_reward_fee_fraction pause_staking resume_staking
@ens[C05] reward(S0, W0) >= 0 && S1.last_epoch_height == W0.c.epoch
@ens[C05] forall|k: Str| k != W0.c.pred ==> (#[trigger] acct(S1.accounts.m@, k)).stake_shares == acct(p_m(S0, W0), k).stake_shares
@ens[C02] only_caller(S0, S1, W0)
@ens[C03] S1.last_total_balance == p_l(S0, W0) + W0.c.deposit - (W0.bal - W1.bal)
@ens[C04] forall|k: Str| k != W0.c.pred ==> (#[trigger] acct(S1.accounts.m@, k)).unstaked == acct(S0.accounts.m@, k).unstaked && acct(S1.accounts.m@, k).unstaked_available_epoch_height == acct(p_m(S0, W0), k).unstaked_available_epoch_height
@ens[C03] un(S1) - un(S0) == a1(S1, W0).unstaked - a0(S0, W0).unstaked

@step only ping deposit withdraw withdraw_all update_staking_key update_reward_fee_fraction pause_staking resume_staking
@ens[C03,C05] S1.total_staked_balance == p_t(S0, W0)
@ens[C03,C05] S1.total_stake_shares == p_s(S0, W0) && a1(S1, W0).stake_shares == a0(S0, W0).stake_shares
@step only ping update_staking_key update_reward_fee_fraction pause_staking resume_staking
@ens[C04,C05] S1.accounts.m@ =~= p_m(S0, W0)
@step only deposit_and_stake stake_all stake unstake_all unstake
@ens[C03,C05] 0 <= S1.total_staked_balance - p_t(S0, W0) + a1(S1, W0).unstaked - a0(S0, W0).unstaked - W0.c.deposit <= 1
@hint if p_s(S0, W0) > 0 && p_t(S0, W0) >= 0 { let n = S1.total_stake_shares - p_s(S0, W0); if n >= 0 { round_facts(p_t(S0, W0), p_s(S0, W0), n); } else { round_facts(p_t(S0, W0), p_s(S0, W0), -n); } }

@step except withdraw withdraw_all
@ens[C04] W1.bal == W0.bal
@step only withdraw withdraw_all
@ens[C04] W0.bal > W1.bal && is_payout(W1.proms, W0.c.pred, (W0.bal - W1.bal) as u128) && a0(S0, W0).unstaked >= W0.bal - W1.bal && a1(S1, W0).unstaked == a0(S0, W0).unstaked - (W0.bal - W1.bal) && a0(S0, W0).unstaked_available_epoch_height <= W0.c.epoch
@ens[C06] fresh(S0, W0.c) ==> restaked(W1.proms, 1, S1, W0.c.cur)
@step only deposit deposit_and_stake stake_all stake
@ens[C04] a1(S1, W0).unstaked > 0 && a0(S0, W0).unstaked > 0 ==> a1(S1, W0).unstaked_available_epoch_height >= a0(S0, W0).unstaked_available_epoch_height
@step only unstake unstake_all
@ens[C04] a1(S1, W0).unstaked > 0 && a1(S1, W0).unstaked_available_epoch_height >= W0.c.epoch + 4
@step only deposit_and_stake stake_all stake unstake_all unstake
@ens[C06] restaked(W1.proms, 0, S1, W0.c.cur)
@step only ping deposit update_reward_fee_fraction
@ens[C06] fresh(S0, W0.c) ==> restaked(W1.proms, 0, S1, W0.c.cur)

@entry deposit()
@ens[C04] a1(S1, W0).unstaked == a0(S0, W0).unstaked + W0.c.deposit
@entry withdraw(amount)
@ens[C04] W0.bal - W1.bal == amount.0
@entry withdraw_all()
@ens[C04] W0.bal - W1.bal == a0(S0, W0).unstaked
@entry deposit_and_stake()
@ens[C02] stake_fair(p_t(S0, W0), p_s(S0, W0), W0.c.deposit as int, a1(S1, W0).stake_shares - a0(S0, W0).stake_shares, a0(S0, W0).unstaked + W0.c.deposit - a1(S1, W0).unstaked)
@hint if p_t(S0, W0) > 0 && p_s(S0, W0) > 0 { stake_fair_facts(p_t(S0, W0), p_s(S0, W0), W0.c.deposit as int); }
@entry stake_all()
@ens[C02] stake_fair(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).unstaked as int, a1(S1, W0).stake_shares - a0(S0, W0).stake_shares, a0(S0, W0).unstaked - a1(S1, W0).unstaked)
@hint if p_t(S0, W0) > 0 && p_s(S0, W0) > 0 { stake_fair_facts(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).unstaked as int); }
@entry stake(amount)
@ens[C02] stake_fair(p_t(S0, W0), p_s(S0, W0), amount.0 as int, a1(S1, W0).stake_shares - a0(S0, W0).stake_shares, a0(S0, W0).unstaked - a1(S1, W0).unstaked)
@hint if p_t(S0, W0) > 0 && p_s(S0, W0) > 0 { stake_fair_facts(p_t(S0, W0), p_s(S0, W0), amount.0 as int); }
@entry unstake_all()
@ens[C02] a0(S0, W0).stake_shares > 0 && a1(S1, W0).stake_shares == 0 && unstake_fair(p_t(S0, W0), p_s(S0, W0), amd(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int), a0(S0, W0).stake_shares as int, a1(S1, W0).unstaked - a0(S0, W0).unstaked)
@hint if p_t(S0, W0) >= p_s(S0, W0) && p_s(S0, W0) > 0 { unstake_all_facts(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int); round_facts(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int); unstake_fair_facts(p_t(S0, W0), p_s(S0, W0), amd(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int)); }
@entry unstake(amount)
@ens[C02] unstake_fair(p_t(S0, W0), p_s(S0, W0), amount.0 as int, a0(S0, W0).stake_shares - a1(S1, W0).stake_shares, a1(S1, W0).unstaked - a0(S0, W0).unstaked)
@hint if p_t(S0, W0) > 0 && p_s(S0, W0) > 0 { unstake_fair_facts(p_t(S0, W0), p_s(S0, W0), amount.0 as int); }

@entry update_staking_key(key)
@ens[C06] W0.c.pred == S0.owner_id && S1.stake_public_key == key.0 && S1.paused == S0.paused && S1.reward_fee_fraction == S0.reward_fee_fraction && restaked(W1.proms, 0, S1, W0.c.cur)
@entry update_reward_fee_fraction(f)
@ens[C06] W0.c.pred == S0.owner_id && S1.reward_fee_fraction == f && S1.paused == S0.paused && S1.stake_public_key == S0.stake_public_key
@entry pause_staking()
@ens[C06] W0.c.pred == S0.owner_id && !S0.paused && S1.paused && S1.stake_public_key == S0.stake_public_key && S1.reward_fee_fraction == S0.reward_fee_fraction && is_zero_stake(W1.proms, 0, S1.stake_public_key.s@, W0.c.cur)
@entry resume_staking()
@ens[C06] W0.c.pred == S0.owner_id && S0.paused && !S1.paused && S1.stake_public_key == S0.stake_public_key && S1.reward_fee_fraction == S0.reward_fee_fraction && is_restake(W1.proms, 0, S1.total_staked_balance, S1.stake_public_key.s@, W0.c.cur)
@entry vote(id, v)
@ens[C06] W0.c.pred == S0.owner_id && same_config(S0, S1) && W1.proms.len() == 1 && W1.proms[0].to == id.s@ && W1.proms[0].acts.len() == 1 && W1.proms[0].acts[0] is Call && W1.proms[0].acts[0]->m == str_bytes("vote"@) && W1.proms[0].acts[0]->dep == 0 && W1.proms[0].acts[0]->args == json_bytes(JV::O(map!["is_vote"@ => v.js()]))
@entry on_stake_action()
@ens[C06] W0.c.pred == W0.c.cur && W0.c.results.len() >= 1 && same_config(S0, S1) && same_book(S0, S1)
@ens[C06] if !(W0.c.results[0] is Successful) && W0.c.locked > 0 { is_zero_stake(W1.proms, 0, S0.stake_public_key.s@, W0.c.cur) } else { W1.proms.len() == 0 }

@step only vote on_stake_action
@ens[C02,C03,C04,C05] same_book(S0, S1)

@entry get_account(id)
@ens[C02,C04] human(ret, S0, id, W0.c)
@entry get_account_staked_balance(id)
@ens[C02] ret.0 == amd(S0.total_staked_balance as int, S0.total_stake_shares as int, acct(S0.accounts.m@, id).stake_shares as int)
@entry get_account_unstaked_balance(id)
@ens[C04] ret.0 == acct(S0.accounts.m@, id).unstaked
@entry get_account_total_balance(id)
@ens[C02] ret.0 == acct(S0.accounts.m@, id).unstaked + amd(S0.total_staked_balance as int, S0.total_stake_shares as int, acct(S0.accounts.m@, id).stake_shares as int)
@entry is_account_unstaked_balance_available(id)
@ens[C04] ret == (acct(S0.accounts.m@, id).unstaked_available_epoch_height <= W0.c.epoch)
@entry get_total_staked_balance()
@ens[C01,C02] ret.0 == S0.total_staked_balance
@entry get_owner_id()
@ens[C06] ret == S0.owner_id
@entry get_reward_fee_fraction()
@ens[C06] ret == S0.reward_fee_fraction
@entry get_staking_key()
@ens[C06] ret.0 == S0.stake_public_key
@entry is_staking_paused()
@ens[C06] ret == S0.paused
@entry get_number_of_accounts()
@ens[C02] ret == S0.accounts.m@.dom().len()
@entry get_accounts(from, limit)
@ens[C02,C04] forall|i: int| 0 <= i < ret.s@.len() ==> human(#[trigger] ret.s@[i], S0, ret.s@[i].account_id, W0.c)
@loops StakingContract::get_accounts(from, limit)
@loop 0
@out PVec<HumanReadableAccount>
@inv[C02,C04] forall|i: int| 0 <= i < OUT.len() ==> human(#[trigger] OUT[i], S0, OUT[i].account_id, W.c)
@inv W.c.mp || fits_all(S0)
@inv W == LW
@endloop

//! what a delegator or the owner is entitled to always goes through
@prelude
pub open spec fn ready(s: SC, w: WV) -> bool { calm(s, w) && acct(s.accounts.m@, w.c.pred).unstaked <= small() && w.c.epoch + 4 <= u64::MAX }
pub proof fn ready_facts(s: SC, w: WV)
  requires ready(s, w)
  ensures p_t(s, w) >= p_s(s, w), p_s(s, w) > 0, a0(s, w).stake_shares <= p_s(s, w), a0(s, w).unstaked <= small(), a0(s, w).unstaked == acct(s.accounts.m@, w.c.pred).unstaked, 0 <= fee(s, w) <= reward(s, w), fee_shares(s, w) >= 0
{
  sum_nonneg(s.accounts.m@, shf()); price_ping(s, w); call_sums(s, w, s);
  if p_m(s, w).dom().contains(w.c.pred) { sum_ge(p_m(s, w), shf(), w.c.pred); }
}
@nopanic ping()
@req[C05] calm(S0, W0) && W0.c.deposit == 0
@nopanic deposit()
@req[C04] ready(S0, W0)
@pre ready_facts(S0, W0);
@nopanic withdraw(amount)
@req[C04] ready(S0, W0) && W0.c.deposit == 0 && 0 < amount.0 <= acct(S0.accounts.m@, W0.c.pred).unstaked && acct(S0.accounts.m@, W0.c.pred).unstaked_available_epoch_height <= W0.c.epoch && amount.0 <= W0.bal && amount.0 <= p_l(S0, W0)
@pre ready_facts(S0, W0);
@nopanic withdraw_all()
@req[C04] ready(S0, W0) && W0.c.deposit == 0 && ({ let a = acct(S0.accounts.m@, W0.c.pred); 0 < a.unstaked && a.unstaked_available_epoch_height <= W0.c.epoch && a.unstaked <= W0.bal && a.unstaked <= p_l(S0, W0) })
@pre ready_facts(S0, W0);
@nopanic deposit_and_stake()
@req[C02] ready(S0, W0) && nsd(p_t(S0, W0), p_s(S0, W0), W0.c.deposit as int) > 0
@pre ready_facts(S0, W0);
@nopanic stake(amount)
@req[C02] ready(S0, W0) && W0.c.deposit == 0 && amount.0 <= acct(S0.accounts.m@, W0.c.pred).unstaked && nsd(p_t(S0, W0), p_s(S0, W0), amount.0 as int) > 0
@pre ready_facts(S0, W0);
@nopanic stake_all()
@req[C02] ready(S0, W0) && W0.c.deposit == 0 && nsd(p_t(S0, W0), p_s(S0, W0), acct(S0.accounts.m@, W0.c.pred).unstaked as int) > 0
@pre ready_facts(S0, W0);
@nopanic unstake(amount)
@req[C02] ready(S0, W0) && W0.c.deposit == 0 && 0 < amount.0 <= amd(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int)
@pre ready_facts(S0, W0); unstake_within(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int, amount.0 as int);
@nopanic unstake_all()
@req[C02] ready(S0, W0) && W0.c.deposit == 0 && a0(S0, W0).stake_shares > 0
@pre ready_facts(S0, W0); unstake_all_facts(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int); conv_facts(p_t(S0, W0), p_s(S0, W0), a0(S0, W0).stake_shares as int);
@nopanic update_staking_key(key)
@req[C06] calm(S0, W0) && W0.c.deposit == 0 && W0.c.pred == S0.owner_id
@nopanic update_reward_fee_fraction(f)
@req[C06] calm(S0, W0) && W0.c.deposit == 0 && W0.c.pred == S0.owner_id && fee_ok(f)
@nopanic pause_staking()
@req[C06] calm(S0, W0) && W0.c.deposit == 0 && W0.c.pred == S0.owner_id && !S0.paused
@nopanic resume_staking()
@req[C06] calm(S0, W0) && W0.c.deposit == 0 && W0.c.pred == S0.owner_id && S0.paused
@nopanic on_stake_action()
@req[C06] W0.c.deposit == 0 && W0.c.pred == W0.c.cur && W0.c.results.len() == 1
@nopanic get_account(id)
@req[C02,C04] pinv(S0)
@pre sum_nonneg(S0.accounts.m@, shf()); if S0.accounts.m@.dom().contains(id) { sum_ge(S0.accounts.m@, shf(), id); } conv_facts(S0.total_staked_balance as int, S0.total_stake_shares as int, acct(S0.accounts.m@, id).stake_shares as int);
@nopanic get_account_total_balance(id)
@req[C02,C04] pinv(S0) && S0.total_staked_balance <= small() && acct(S0.accounts.m@, id).unstaked <= small()
@pre sum_nonneg(S0.accounts.m@, shf()); if S0.accounts.m@.dom().contains(id) { sum_ge(S0.accounts.m@, shf(), id); } conv_facts(S0.total_staked_balance as int, S0.total_stake_shares as int, acct(S0.accounts.m@, id).stake_shares as int);
//! the views answer
@nopanic get_accounts(from, limit)
@req[C02,C04] pinv(S0) && from + limit <= u64::MAX
@pre all_fit(S0);
@nopanic get_account_unstaked_balance(id)
@req[C02,C04] pinv(S0)
@pre all_fit(S0);
@nopanic get_account_staked_balance(id)
@req[C02,C04] pinv(S0)
@pre all_fit(S0);
@nopanic is_account_unstaked_balance_available(id)
@req[C04] pinv(S0)
@pre all_fit(S0);
@nopanic get_total_staked_balance()
@req[C03] pinv(S0)
@nopanic get_number_of_accounts()
@req[C03] pinv(S0)
@nopanic get_owner_id()
@req[C06] pinv(S0)
@nopanic get_reward_fee_fraction()
@req[C06] pinv(S0)
@nopanic get_staking_key()
@req[C06] pk_ok(S0.stake_public_key.s@)
@nopanic is_staking_paused()
@req[C06] pinv(S0)
@nopanic vote(id, v)
@req[C06] pinv(S0) && W0.c.deposit == 0 && W0.c.pred == S0.owner_id && valid_id(id)
