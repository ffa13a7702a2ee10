//! Contracts for state-manipulation/src/lib.rs
@prelude
pub open spec fn dec(s: Str) -> Seq<u8> { b64_dec(str_bytes(s.s@)) }
pub open spec fn decodes(s: Str) -> bool { b64_ok(str_bytes(s.s@)) }
pub open spec fn puts(st: Map<Seq<u8>, Seq<u8>>, e: Seq<(Str, Str)>) -> Map<Seq<u8>, Seq<u8>> decreases e.len() { if e.len() == 0 { st } else { puts(st, e.drop_last()).insert(dec(e.last().0), dec(e.last().1)) } }
pub open spec fn dels(st: Map<Seq<u8>, Seq<u8>>, e: Seq<Str>) -> Map<Seq<u8>, Seq<u8>> decreases e.len() { if e.len() == 0 { st } else { dels(st, e.drop_last()).remove(dec(e.last())) } }
// the member of the JSON object given as the call's input
pub open spec fn arg(c: Ctx, name: Seq<char>) -> JV { json_unbytes(c.input)->O_0[name] }
pub open spec fn entries_js(e: Seq<(Str, Str)>) -> JV { (PVec { s: Ghost(e) }).js() }
pub open spec fn keys_js(e: Seq<Str>) -> JV { (PVec { s: Ghost(e) }).js() }
// keys that are not named keep their value, the last value given for a key wins
pub proof fn puts_meaning(st: Map<Seq<u8>, Seq<u8>>, e: Seq<(Str, Str)>)
  ensures
    forall|k: Seq<u8>| (forall|i: int| 0 <= i < e.len() ==> dec((#[trigger] e[i]).0) != k) ==> #[trigger] puts(st, e).dom().contains(k) == st.dom().contains(k) && (st.dom().contains(k) ==> puts(st, e)[k] == st[k]),
    forall|i: int| 0 <= i < e.len() && (forall|j: int| i < j < e.len() ==> dec((#[trigger] e[j]).0) != dec(e[i].0)) ==> puts(st, e).dom().contains(dec((#[trigger] e[i]).0)) && puts(st, e)[dec(e[i].0)] == dec(e[i].1),
  decreases e.len()
{
  if e.len() > 0 {
    let d = e.drop_last();
    puts_meaning(st, d);
    assert forall|k: Seq<u8>| (forall|i: int| 0 <= i < e.len() ==> dec((#[trigger] e[i]).0) != k) implies #[trigger] puts(st, e).dom().contains(k) == st.dom().contains(k) && (st.dom().contains(k) ==> puts(st, e)[k] == st[k]) by {
      assert(dec(e[e.len() - 1].0) != k);
      assert forall|i: int| 0 <= i < d.len() implies dec((#[trigger] d[i]).0) != k by { assert(d[i] == e[i]); }
      assert(puts(st, d).dom().contains(k) == st.dom().contains(k));
    }
    assert forall|i: int| 0 <= i < e.len() && (forall|j: int| i < j < e.len() ==> dec((#[trigger] e[j]).0) != dec(e[i].0)) implies puts(st, e).dom().contains(dec((#[trigger] e[i]).0)) && puts(st, e)[dec(e[i].0)] == dec(e[i].1) by {
      if i < d.len() { assert(dec(e[e.len() - 1].0) != dec(e[i].0)); assert(d[i] == e[i]); assert forall|j: int| i < j < d.len() implies dec((#[trigger] d[j]).0) != dec(d[i].0) by { assert(d[j] == e[j]); } }
    }
  }
}
pub proof fn dels_meaning(st: Map<Seq<u8>, Seq<u8>>, e: Seq<Str>)
  ensures
    forall|k: Seq<u8>| (forall|i: int| 0 <= i < e.len() ==> dec(#[trigger] e[i]) != k) ==> #[trigger] dels(st, e).dom().contains(k) == st.dom().contains(k) && (st.dom().contains(k) ==> dels(st, e)[k] == st[k]),
    forall|i: int| 0 <= i < e.len() ==> !dels(st, e).dom().contains(dec(#[trigger] e[i])),
  decreases e.len()
{
  if e.len() > 0 {
    let d = e.drop_last();
    dels_meaning(st, d);
    assert forall|k: Seq<u8>| (forall|i: int| 0 <= i < e.len() ==> dec(#[trigger] e[i]) != k) implies #[trigger] dels(st, e).dom().contains(k) == st.dom().contains(k) && (st.dom().contains(k) ==> dels(st, e)[k] == st[k]) by {
      assert(dec(e[e.len() - 1]) != k);
      assert forall|i: int| 0 <= i < d.len() implies dec(#[trigger] d[i]) != k by { assert(d[i] == e[i]); }
      assert(dels(st, d).dom().contains(k) == st.dom().contains(k));
    }
    assert forall|i: int| 0 <= i < e.len() implies !dels(st, e).dom().contains(dec(#[trigger] e[i])) by { if i < d.len() { assert(d[i] == e[i]); } }
  }
}

@step
@ens[C23] W1.proms =~= Seq::<Prom>::empty() && W1.bal == W0.bal
@entry replace()
@ens[C23] json_unbytes(W0.c.input) is O && json_unbytes(W0.c.input)->O_0.dom().contains("entries"@)
@ens[C23] exists|e: Seq<(Str, Str)>| arg(W0.c, "entries"@) == #[trigger] entries_js(e) && (forall|i: int| 0 <= i < e.len() ==> decodes((#[trigger] e[i]).0) && decodes(e[i].1)) && W1.st == puts(W0.st, e)
@entry clean()
@ens[C23] json_unbytes(W0.c.input) is O && json_unbytes(W0.c.input)->O_0.dom().contains("keys"@)
@ens[C23] exists|e: Seq<Str>| arg(W0.c, "keys"@) == #[trigger] keys_js(e) && (forall|i: int| 0 <= i < e.len() ==> decodes(#[trigger] e[i])) && W1.st == dels(W0.st, e)

@loops replace()
@loop 0
@inv[C23] W.st == puts(W0.st, IT.take(POS))
@inv[C23] forall|i: int| 0 <= i < POS ==> decodes((#[trigger] IT[i]).0) && decodes(IT[i].1)
@inv W.proms == LW.proms && W.bal == LW.bal
@hint[C23] take_step(IT, POS); assert(IT.take(POS).drop_last() =~= IT.take(POS - 1)); assert(IT.take(POS).last() == IT[POS - 1]);
@post[C23] assert(IT.take(IT.len() as int) =~= IT); assert(arg(W0.c, "entries"@) == entries_js(IT));
@endloop
@loops clean()
@loop 0
@inv[C23] W.st == dels(W0.st, IT.take(POS))
@inv[C23] forall|i: int| 0 <= i < POS ==> decodes(#[trigger] IT[i])
@inv W.proms == LW.proms && W.bal == LW.bal
@hint[C23] take_step(IT, POS); assert(IT.take(POS).drop_last() =~= IT.take(POS - 1)); assert(IT.take(POS).last() == IT[POS - 1]);
@post[C23] assert(IT.take(IT.len() as int) =~= IT); assert(arg(W0.c, "keys"@) == keys_js(IT));
@endloop

//! a well-formed request is always carried out
@nopanic replace()
@req[C23] json_ok::<ReplaceInput>(W0.c.input) && W0.c.input.len() <= u32::MAX && (forall|i: int| 0 <= i < json_parse::<ReplaceInput>(W0.c.input).entries.s@.len() ==> decodes((#[trigger] json_parse::<ReplaceInput>(W0.c.input).entries.s@[i]).0) && decodes(json_parse::<ReplaceInput>(W0.c.input).entries.s@[i].1))
@nopanic clean()
@req[C23] json_ok::<CleanInput>(W0.c.input) && W0.c.input.len() <= u32::MAX && (forall|i: int| 0 <= i < json_parse::<CleanInput>(W0.c.input).keys.s@.len() ==> decodes(#[trigger] json_parse::<CleanInput>(W0.c.input).keys.s@[i]))
