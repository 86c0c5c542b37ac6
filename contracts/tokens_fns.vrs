impl<L: Lang> Tokens<L> {
@fn tokens::tokens|Tokens<L>||new -> r
    ensures r.items@ == Seq::<Item<L>>::empty(), r.last_lang_item == 0, r.inv(),
@done

@fn tokens::tokens|Tokens<L>||with_capacity -> r
    ensures r.items@ == Seq::<Item<L>>::empty(), r.last_lang_item == 0, r.inv(),
@done

/// alloc: Vec::reserve changes no item (room is asked for no more items than come)
#[verifier::external_body]
fn xt_reserve(&mut self, come: Ghost<nat>, n: usize)
    requires room_ok(n, come@),
    ensures *final(self) == *old(self),
{ self.items.reserve(n) }
@fn tokens::tokens|Tokens<L>||is_empty -> r
    ensures r == (self.items@.len() == 0),
@done

@fn tokens::tokens|Tokens<L>||space
    requires old(self).inv(),
    ensures final(self).st() == st_ws(old(self).st(), op_space(old(self).items@)), final(self).inv(),
@end
    proof { lemma_space(old(self).st()); }
@done

@fn tokens::tokens|Tokens<L>||push
    requires old(self).inv(),
    ensures final(self).st() == st_ws(old(self).st(), op_push(old(self).items@)), final(self).inv(),
@start
    proof { lemma_push(self.st()); }
@loop 0 loop
    invariant_except_break strip_sp(self.items@) == strip_sp(old(self).items@),
    invariant self.last_lang_item == old(self).last_lang_item,
       inv(st_ws(old(self).st(), op_push(old(self).items@))),
    ensures (match xt_brk1 {
        Some(it) => !(it is Line) && !(it is Space) && !(it is Push) && strip_sp(old(self).items@) == self.items@.push(it),
        None => self.items@.len() == 0 && strip_sp(old(self).items@) == self.items@ }),
    decreases self.items@.len(),
@lstart 0
    let ghost before = self.items@;
    proof { if before.len() > 0 { assert(before.drop_last().push(before.last()) =~= before); } }
@end
    assert(self.items@ =~= op_push(old(self).items@));
@done

@fn tokens::tokens|Tokens<L>||line
    requires old(self).inv(),
    ensures final(self).st() == st_ws(old(self).st(), op_line(old(self).items@)), final(self).inv(),
@start
    proof { lemma_line(self.st()); }
@loop 0 loop
    invariant_except_break strip_lp(self.items@) == strip_lp(old(self).items@),
    invariant self.last_lang_item == old(self).last_lang_item,
    ensures (match xt_brk1 {
        Some(it) => strip_lp(old(self).items@) == self.items@.push(it),
        None => self.items@.len() == 0 && strip_lp(old(self).items@) == self.items@ }),
    decreases self.items@.len(),
@lstart 0
    let ghost before = self.items@;
    proof { if before.len() > 0 { assert(before.drop_last().push(before.last()) =~= before); } }
@end
    assert(self.items@ =~= op_line(old(self).items@));
@done

@fn tokens::tokens|Tokens<L>||indentation
    requires old(self).inv(), fits_wi(old(self).items@, n as int),
    ensures final(self).st() == st_ws(old(self).st(), op_indentation(old(self).items@, n as int)), final(self).inv(),
@start
    proof { lemma_indentation(self.st(), n as int); }
    let ghost n0 = n as int;
@loop 0 loop
    invariant_except_break strip_wi(self.items@) == strip_wi(old(self).items@),
        sum_wi(self.items@, n as int) == sum_wi(old(self).items@, n0), fits_wi(self.items@, n as int),
    invariant self.last_lang_item == old(self).last_lang_item,
    ensures n as int == sum_wi(old(self).items@, n0),
     (match xt_brk1 {
        Some(it) => strip_wi(old(self).items@) == self.items@.push(it),
        None => self.items@.len() == 0 && strip_wi(old(self).items@) == self.items@ }),
    decreases self.items@.len(),
@lstart 0
    proof { reveal_with_fuel(fits_wi, 2); }
    let ghost before = self.items@;
    proof { if before.len() > 0 { assert(before.drop_last().push(before.last()) =~= before); } }
@end
    assert(self.items@ =~= op_indentation(old(self).items@, n0));
@done

@fn tokens::tokens|Tokens<L>||indent
    requires old(self).inv(), fits_wi(old(self).items@, 1),
    ensures final(self).st() == st_ws(old(self).st(), op_indentation(old(self).items@, 1)), final(self).inv(),
@done

@fn tokens::tokens|Tokens<L>||unindent
    requires old(self).inv(), fits_wi(old(self).items@, -1),
    ensures final(self).st() == st_ws(old(self).st(), op_indentation(old(self).items@, -1)), final(self).inv(),
@done

@fn tokens::tokens|Tokens<L>||lang_item
    requires old(self).inv(), old(self).items@.len() < usize::MAX,
    ensures final(self).st() == op_lang(old(self).st(), item), final(self).inv(),
@end
    proof { lemma_lang(old(self).st(), item); }
    assert(self.st().items =~= op_lang(old(self).st(), item).items);
@done

@fn tokens::tokens|Tokens<L>||lang_item_register
    requires old(self).inv(), old(self).items@.len() < usize::MAX,
    ensures final(self).st() == op_register(old(self).st(), item), final(self).inv(),
@end
    proof { lemma_register(old(self).st(), item); }
    assert(self.st().items =~= op_register(old(self).st(), item).items);
@done

@fn tokens::tokens|Tokens<L>||item
    requires old(self).inv(), item_fits(old(self).st(), item),
    ensures final(self).st() == op_item(old(self).st(), item), final(self).inv(),
@end
    proof { lemma_item(old(self).st(), item); }
    assert(self.st().items =~= op_item(old(self).st(), item).items);
@done

@fn tokens::tokens|Tokens<L>||extend
    requires old(self).inv(), iter_ok(it), all_fit(old(self).st(), into_seq(it)),
    ensures final(self).st() == append_all(old(self).st(), into_seq(it)), final(self).inv(),
@subst it.size_hint() => size_hint_of(&it)
@subst self.items.reserve( => self.xt_reserve(Ghost(into_seq(i0).len()), 
@start
    let ghost i0 = it;
@loop 0 for item in it
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq() == into_seq(i0), all_fit(old(self).st(), into_seq(i0)), inv(old(self).st()),
        self.inv(), self.st() == append_all(old(self).st(), it0.seq().take(it0.index())),
@lstart 0
    proof { lemma_append_step(old(self).st(), it0.seq(), it0.index()); }
@end
    assert(into_seq(i0).take(into_seq(i0).len() as int) =~= into_seq(i0));
@done

@fn tokens::tokens|Tokens<L>||walk_imports -> r
    requires self.inv(),
    ensures r.items@ == self.items@, r.pos == self.last_lang_item,
@done
}

@type tokens::tokens::WalkImports

impl<'a, L: Lang> WalkImports<'a, L> {
@fn tokens::tokens|WalkImports<L>|Iterator|next -> r noend
@sig pub fn next(&mut self) -> (r: Option<&'a L::Item>)
    requires chain_wf(old(self).items@), old(self).pos <= old(self).items@.len(),
        old(self).pos > 0 ==> is_lang(old(self).items@[old(self).pos - 1]),
    ensures final(self).items@ == old(self).items@,
        ({
          let w = walk(old(self).items@, old(self).pos as nat);
          match r {
            None => w.len() == 0 && final(self).pos == 0,
            Some(x) => w.len() > 0 && *x == w[0] && walk(final(self).items@, final(self).pos as nat) =~= w.skip(1)
                && final(self).pos < old(self).pos,
          }
        }),
        final(self).pos > 0 ==> is_lang(final(self).items@[final(self).pos - 1]),
@start
    let ghost p0 = self.pos as nat;
    let ghost its = self.items@;
    proof { if p0 > 0 { lemma_last_lang(its.take(p0 - 1)); } }
@done
}
