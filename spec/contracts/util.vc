## util.rs
@impl Display for XText
open spec fn text(&self) -> Seq<char> { xt(self.0@) } // [C15]
@fn util::XText::Display::fmt rlimit=40
@params f
@locals rest
ensures xtext(xt(self.0@)) && xdec(xt(self.0@)) == self.0@, // [C15] the encoded value is valid xtext and decodes to the value
@hint start
broadcast use crate::shim::at_off_inj;
let ghost s = self.0@;
let ghost mut p: int = 0;
proof { lem_xt_ok(s); assert(s.skip(0) =~= s); assert(xt(s.take(0)) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s); }
@loop 0 whilelet
invariant
    0 <= p <= s.len(),
    s == self.0@,
    $rest@ =~= s.skip(p),
[iter]    __all0 == s,
[iter]    $f.out() =~= old($f).out() + xt(s.take(__k0)),
[loop]    $f.out() =~= old($f).out() + xt(s.take(p)),
    $f.fails() == old($f).fails(),
[loop]ensures
[loop]    xt(s) =~= xt(s.take(p)) + $rest@,
decreases s.len() - p
@hint loop 0 start
let ghost r0 = $rest@;
@hint? loop 0 end
proof { lem_xt_push(s, __k0 - 1); }
@hint call find *
---
proof {
    if $r is None {
        assert forall|j: int| 0 <= j < r0.len() implies !xneeds(#[trigger] r0[j]) by {}
        lem_xt_plain(s, p, r0.len() as int);
    }
}
@hint call split_at *
---
proof {
    let k = choose|k: int| #[trigger] at_off(r0, k, $a0 as int) && k < r0.len() && (forall|j: int| 0 <= j < k ==> !xneeds(#[trigger] r0[j])) && xneeds(r0[k]);
    let e = $r.1@;
    assert(at_off(e, 1, blen(e.take(1)) as int));
    assert(e.take(1) =~= seq![e[0]]);
    assert(at_off(e, e.len() as int, blen(e) as int)) by { assert(e.take(e.len() as int) =~= e); }
    lem_xt_plain(s, p, k);
    lem_xt_push(s, p + k);
    assert(r0[k] == s[p + k]);
    p = p + k + 1;
    assert(e =~= s.skip(p - 1));
}
@hint? call as_bytes *
---
proof { lem_ascii_first(s.skip(p - 1)); }
@hint? call v_from *
proof { lem_ascii_width(s.skip(p - 1)); assert(s.skip(p - 1).take(1).len() == 1); assert(at_off(s.skip(p - 1), 1, $a0 as int)); }
---
proof { assert($r@ =~= s.skip(p - 1).skip(1)); }
@hint tail
proof { assert(self.text() == xt(s)); assert(s.take(s.len() as int) =~= s); }
@hint? tail
proof { assert((old($f).out() + xt(s.take(p))) + $rest@ =~= old($f).out() + self.text()); }
@end
