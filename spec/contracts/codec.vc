@fields ClientCodec escape_count
## codec.rs
@impl ClientCodec
pub open spec fn st(&self) -> int { self.escape_count as int }
@impl Default for ClientCodec

@fn codec::ClientCodec::Default::default
ensures ret.st() == 2, // [C01] a message starts at the beginning of a line

@fn codec::ClientCodec::new
ensures ret.st() == 2, // [C01] a message starts at the beginning of a line

@fn codec::ClientCodec::encode
@params frame buf
@locals start
requires old(self).st() <= 2,
ensures
    final($buf).inp() == old($buf).inp(), // [C01]
    old($buf).broken() ==> final($buf).broken(),
    ret is Ok ==> final($buf).broken() == old($buf).broken(),
    ret is Err ==> final($buf).broken(),
    ret is Ok ==> final(self).st() <= 2,
    ret is Ok && $frame@.len() > 0 ==> final($buf).log() == old($buf).log() + snd(stuff(old(self).st(), $frame@)), // [C01] the content is dot-stuffed
    ret is Ok && $frame@.len() > 0 ==> final(self).st() == cst(old(self).st(), $frame@), // [C01]
    ret is Ok && $frame@.len() == 0 ==> final($buf).log() == old($buf).log() + snd(term(old(self).st())), // [C01] the data ends with a lone dot
    ret is Ok && $frame@.len() == 0 ==> final(self).st() == 2, // [C01]
    ret is Err && $frame@.len() > 0 ==> cut(old($buf).log(), final($buf).log(), snd(stuff(old(self).st(), $frame@))), // [C13]
    ret is Err && $frame@.len() == 0 ==> cut(old($buf).log(), final($buf).log(), snd(term(old(self).st()))), // [C13]
@hint start
let ghost full = if $frame@.len() > 0 { stuff(old(self).st(), $frame@) } else { term(old(self).st()) };
let ghost mut done: int = 0;
proof {
    assert(full.take(0) =~= Seq::<u8>::empty() && snd(full.take(0)) =~= Seq::<Ev>::empty() && full.take(full.len() as int) =~= full);
    lem_enc_init(old(self).st(), $frame@);
    assert(old($buf).log() =~= old($buf).log() + snd(full.take(0)));
}
@hint call write_all *
let ghost m = *$buf;
---
proof { lem_write(old($buf).log(), m.log(), $buf.log(), full, done, $a0@); done = done + $a0@.len(); }
@loop 0 for
[iter]    __all0.len() == $frame@.len(),
[iter]    forall|k: int| 0 <= k < __all0.len() ==> (#[trigger] __all0[k]).0 == k && *__all0[k].1 == $frame@[k],
[range]    __beg0 == 0 && __end0 == $frame@.len(),
[while]    __k0 <= $frame@.len(),
    0 <= $start <= __k0,
    self.st() <= 2,
    old(self).st() <= 2,
    $frame@.len() > 0,
    full == stuff(old(self).st(), $frame@),
    $buf.inp() == old($buf).inp(),
    $buf.broken() == old($buf).broken(),
    self.st() == cst(old(self).st(), $frame@.take(__k0)),
    enc(old(self).st(), $frame@, $start as int, __k0, done),
    $buf.log() == old($buf).log() + snd(full.take(done)),
@hint loop 0 start
proof { lem_encode_step(old(self).st(), $frame@, $start as int, __k0 - 1, done); }
@hint loop 0 after
proof { lem_enc_end(old(self).st(), $frame@, $start as int, done); }
@end
