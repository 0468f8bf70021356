@fields SmtpStream inner
## stream.rs
@fn stream::SmtpStream::new
@params s
ensures ret.inner == $s, // [C10] [C17]
@fn stream::SmtpStream::into_inner
ensures ret == self.inner, // [C10]

@fn stream::SmtpStream::write
@params b
ensures
    broke(old(self).inner, final(self).inner, sent($b@)), // [C19] cut short, only a prefix has been sent
    ret is Ok ==> moved(old(self).inner, final(self).inner, sent($b@)), // [C02] [C06] exactly the given bytes are sent
    ret is Ok ==> !final(self).inner.dirty(), // [C12] and flushed
    ret is Err ==> ret->Err_0 is Io && lost(old(self).inner, final(self).inner, sent($b@)), // [C13]
@hint call write_all *
---
proof { lem_lost(old(self).inner, self.inner, Seq::empty(), $b@); }
@hint call flush *
---
proof { lem_lost(old(self).inner, self.inner, Seq::empty(), $b@); }

@fn stream::SmtpStream::send_command
@params c
ensures
    broke(old(self).inner, final(self).inner, sent(utf8($c.text()))), // [C19] cut short, only a prefix has been sent
    ret is Ok ==> moved(old(self).inner, final(self).inner, sent(utf8($c.text()))), // [C02] [C06] exactly the text of the command is sent
    ret is Ok ==> !final(self).inner.dirty(), // [C12]
    ret is Err ==> ret->Err_0 is Io && lost(old(self).inner, final(self).inner, sent(utf8($c.text()))), // [C13]
@hint? call write_all *
---
proof { lem_lost(old(self).inner, self.inner, Seq::empty(), utf8($c.text())); }
@hint? call flush *
---
proof { lem_lost(old(self).inner, self.inner, Seq::empty(), utf8($c.text())); }

@fn stream::SmtpStream::read_response
requires !old(self).inner.dirty() || old(self).inner.broken(), // [C12]
ensures
    broke(old(self).inner, final(self).inner, waited()), // [C19] cut short, only a prefix has been sent
    !final(self).inner.dirty(),
    ret is Ok ==> granted(old(self).inner, final(self).inner, waited(), ret->Ok_0), // [C05] [C07]
    ret is Err ==> refused(old(self).inner, final(self).inner, waited(), ret->Err_0) || lost(old(self).inner, final(self).inner, waited()), // [C05] [C13]
@locals buffer
@hint start
let ghost o = self.inner;
let ghost mut n: int = 0;
proof { lem_reading_init(o.inp()); lem_waited(o, o); }
@hint loop 0 before
proof { assert($buffer@ =~= Seq::empty()); }
@loop 0 loop
invariant
    n == o.inp().len() - self.inner.inp().len(),
    reading(o.inp(), n, $buffer@, self.inner.inp()),
    self.inner.log() == o.log() + rcv(o.inp().take(n)),
    self.inner.broken() == o.broken(),
    !self.inner.dirty() || self.inner.broken(),
ensures
    wait(o.inp()) == (n, Rep::Eof),
    self.inner.inp() == o.inp().skip(n),
    self.inner.log() == o.log() + rcv(o.inp().take(n)),
    self.inner.broken() == o.broken(),
    !self.inner.dirty(),
decreases self.inner.inp().len()
@hint loop 0 start
proof { lem_reading_step(o.inp(), n, $buffer@, self.inner.inp()); }
let ghost m = self.inner;
let ghost b0 = $buffer@;
@hint call read_line *
---
proof { lem_read_cut(o, m, self.inner, n, b0); n = o.inp().len() - self.inner.inp().len(); lem_waited(o, self.inner); }
@hint loop 0 after
proof { lem_waited(o, self.inner); }

@fn stream::SmtpStream::command
@params c
ensures
    broke(old(self).inner, final(self).inner, told(utf8($c.text()))), // [C19] cut short, only a prefix has been sent
    ret is Ok ==> granted(old(self).inner, final(self).inner, told(utf8($c.text())), ret->Ok_0), // [C02] [C05] [C06] [C07] [C08]
    ret is Err ==> refused(old(self).inner, final(self).inner, told(utf8($c.text())), ret->Err_0) || lost(old(self).inner, final(self).inner, told(utf8($c.text()))), // [C05] [C07] [C08] [C13]
    ret is Ok ==> !final(self).inner.dirty(), // [C12]
@hint start
let ghost b = utf8($c.text());
@hint call send_command *
---
proof { lem_tell(old(self).inner, self.inner, self.inner, b); }
@hint call read_response *
let ghost m = self.inner;
---
proof { lem_tell(old(self).inner, m, self.inner, b); }

@fn stream::SmtpStream::ehlo
@params c
ensures
    broke(old(self).inner, final(self).inner, told(utf8("EHLO "@ + client_text($c) + "\r\n"@))), // [C19] cut short, only a prefix has been sent
    ret is Ok ==> granted(old(self).inner, final(self).inner, told(utf8("EHLO "@ + client_text($c) + "\r\n"@)), ret->Ok_0), // [C02] [C17]
    ret is Err ==> refused(old(self).inner, final(self).inner, told(utf8("EHLO "@ + client_text($c) + "\r\n"@)), ret->Err_0) || lost(old(self).inner, final(self).inner, told(utf8("EHLO "@ + client_text($c) + "\r\n"@))), // [C13] [C17]
    ret is Ok ==> !final(self).inner.dirty(), // [C12]

@fn stream::SmtpStream::message
@params msg
ensures
    broke(old(self).inner, final(self).inner, told(wire($msg.data()))), // [C19] cut short, only a prefix has been sent
    !$msg.fails() && ret is Ok ==> granted(old(self).inner, final(self).inner, told(wire($msg.data())), ret->Ok_0), // [C01] [C05] [C07] [C08]
    !$msg.fails() && ret is Err ==> refused(old(self).inner, final(self).inner, told(wire($msg.data())), ret->Err_0) || lost(old(self).inner, final(self).inner, told(wire($msg.data()))), // [C01] [C07] [C08] [C13]
    $msg.fails() ==> ret is Err && ret->Err_0 is Io && final(self).inner.log() == old(self).inner.log() && final(self).inner.inp() == old(self).inner.inp() && final(self).inner.broken() == old(self).inner.broken(), // [C13] a message that cannot be read is not sent
    ret is Ok ==> !final(self).inner.dirty(), // [C12]
@locals codec
@hint start
let ghost w = $msg.data();
let ghost full = wire(w);
let ghost o = self.inner;
let ghost mut d: int = 0;
proof { lem_pieces(o, w); lem_cst_range(2, w); lem_lost(o, o, Seq::empty(), full); }
@hint call read_to_end *
---
proof { assert(Seq::<u8>::empty() + w =~= w); }
@hint call encode *
let ghost m = self.inner;
let ghost s0 = $codec.st();
---
proof {
    let p = if $a0@.len() > 0 { stuff(s0, $a0@) } else { term(s0) };
    lem_piece(o, m, self.inner, full, d, p);
    if $r is Ok { d = d + p.len(); }
}
@hint call flush *
---
proof { lem_piece(o, self.inner, self.inner, full, d, Seq::empty()); lem_lost(o, self.inner, Seq::empty(), full); lem_tell(o, self.inner, self.inner, full); }
@hint call read_response *
let ghost m = self.inner;
---
proof { lem_tell(o, m, self.inner, full); }
@end
