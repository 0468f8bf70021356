@fields SmtpClient hello_name smtp_utf8 expect_greeting pipelining
@fields SmtpTransport server_info client_info stream
## smtp_client.rs
@pure supports_auth_mechanism ($0).features@.contains(crate::extension::Extension::Authentication($1))
@pure supports_feature ($0).features@.contains($1)
@fn smtp_client::SmtpClient::new
ensures !ret.smtp_utf8, ret.expect_greeting, ret.pipelining, // [C17]
@fn smtp_client::SmtpClient::Default::default
ensures !ret.smtp_utf8, ret.expect_greeting, ret.pipelining, // [C17]
@fn smtp_client::SmtpClient::smtp_utf8
@params b
ensures ret == (SmtpClient { smtp_utf8: $b, ..self }), // [C17]
@fn smtp_client::SmtpClient::pipelining
@params b
ensures ret == (SmtpClient { pipelining: $b, ..self }), // [C17]
@fn smtp_client::SmtpClient::hello_name
@params n
ensures ret == (SmtpClient { hello_name: $n, ..self }), // [C17]
@fn smtp_client::SmtpClient::without_greeting
ensures ret == (SmtpClient { expect_greeting: false, ..self }), // [C17]

@fn smtp_client::SmtpTransport::new
@params b s
requires !$s.dirty(), // [C12]
ensures
    ret matches Ok(t) ==> moved($s, t.stream.inner, hello_plan($b.expect_greeting, $b.hello_name)) && last($s, hello_plan($b.expect_greeting, $b.hello_name)) is Pos, // [C17] [C07] [C08]
    ret matches Ok(t) ==> t.client_info == $b, // [C17]
    ret matches Ok(t) ==> ({
        let ls = last($s, hello_plan($b.expect_greeting, $b.hello_name))->Pos_0.lines;
        first_word(ls) is Some && t.server_info.name@ == first_word(ls)->0 && t.server_info.features@ == caps(ls)
    }), // [C11] [C17]
    ret matches Ok(t) ==> !t.stream.inner.dirty(), // [C12]
@hint start
let ghost o = $s;
let ghost id = $b.hello_name;
let ghost p = hello_plan($b.expect_greeting, id);
let ghost mut k: int = 0;
proof { lem_at(o, p); lem_hello($b.expect_greeting, id); lem_end(o, o, p); }
@hint call read_response *
let ghost m = $s.inner;
---
proof {
    lem_part(o, m, $s.inner, p, k, waited());
    assert(broke(o, $s.inner, p)); // [C19] cut short, only a prefix has been sent
    k = k + 1;
    assert(at(o, m, p, 0)); // [C17] the greeting comes first
}
@hint call ehlo *
let ghost m = $s.inner;
let ghost b = told(utf8("EHLO "@ + client_text($a0) + "\r\n"@));
---
proof {
    assert(at(o, m, p, k) && p.skip(k) =~= b); // [C17] then one EHLO with the configured name
    lem_part(o, m, $s.inner, p, k, b); lem_end(o, $s.inner, p);
    assert(broke(o, $s.inner, p)); // [C19] cut short, only a prefix has been sent
    k = k + 2;
}
@fn smtp_client::SmtpTransport::supports_feature
@params e
ensures ret == self.server_info.features@.contains($e), // [C10] [C16]

@fn smtp_client::SmtpTransport::quit
ensures
    broke(old(self).stream.inner, final(self).stream.inner, told(utf8("QUIT\r\n"@))), // [C19] cut short, only a prefix has been sent
    ret is Ok ==> moved(old(self).stream.inner, final(self).stream.inner, told(utf8("QUIT\r\n"@))) && last(old(self).stream.inner, told(utf8("QUIT\r\n"@))) is Pos, // [C07] [C08]
    ret is Err ==> refused(old(self).stream.inner, final(self).stream.inner, told(utf8("QUIT\r\n"@)), ret->Err_0) || lost(old(self).stream.inner, final(self).stream.inner, told(utf8("QUIT\r\n"@))), // [C07] [C08] [C13]
    final(self).server_info == old(self).server_info && final(self).client_info == old(self).client_info, // [C19] nothing of a call stays in the client
@hint? await *
proof { assert(self.server_info == old(self).server_info && self.client_info == old(self).client_info); // [C19] whenever the call can be cancelled
}

@fn smtp_client::SmtpTransport::starttls
ensures
    ret is Ok ==> self.server_info.features@.contains(Extension::StartTls), // [C10] only when offered
    ret matches Ok(w) ==> moved(self.stream.inner, w, told(utf8("STARTTLS\r\n"@))), // [C10] exactly one command and its reply
    ret is Ok ==> last(self.stream.inner, told(utf8("STARTTLS\r\n"@))) is Pos, // [C10] [C07] only when accepted
@hint start
let ghost o = self.stream.inner;
let ghost f = self.server_info.features@;
let ghost me = self;
@hint call command *
---
proof {
    assert(f.contains(Extension::StartTls)); // [C10] nothing is sent unless offered
    assert(broke(o, __self.stream.inner, told(utf8("STARTTLS\r\n"@)))); // [C19] cut short, only a prefix has been sent
}
@exit
proof {
    assert($r is Err && !f.contains(Extension::StartTls) ==> __self.stream.inner.log() == o.log()); // [C10] not a byte is sent
    assert($r is Err && f.contains(Extension::StartTls) ==> refused(o, __self.stream.inner, told(utf8("STARTTLS\r\n"@)), $r->Err_0) || lost(o, __self.stream.inner, told(utf8("STARTTLS\r\n"@)))); // [C10] [C07] [C13]
}

@fn smtp_client::SmtpTransport::auth
@params mech cred
ensures
    broke(old(self).stream.inner, final(self).stream.inner, auth_plan($mech, $cred.authentication_identity@, $cred.secret@, old(self).stream.inner.inp(), 10)), // [C19] cut short, only a prefix has been sent
    ret matches Ok(r) ==> authed(old(self).stream.inner, final(self).stream.inner, $mech, $cred.authentication_identity@, $cred.secret@)
        && says(r, last(old(self).stream.inner, auth_plan($mech, $cred.authentication_identity@, $cred.secret@, old(self).stream.inner.inp(), 10))->Pos_0), // [C09] [C07] [C08]
    ret matches Err(e) ==> unauthed(old(self).stream.inner, final(self).stream.inner, $mech, $cred.authentication_identity@, $cred.secret@, e), // [C09] [C07] [C13]
    final(self).server_info == old(self).server_info && final(self).client_info == old(self).client_info, // [C19] nothing of a call stays in the client
@locals response
@hint start
let ghost o = self.stream.inner;
let ghost u = $cred.authentication_identity@;
let ghost s = $cred.secret@;
let ghost mut j: int = -1;
@hint call command *
let ghost m = self.stream.inner;
let ghost b = $a0.text();
---
proof {
    if j < 0 { lem_auth_init(o, self.stream.inner, $mech, u, s); assert(b == auth_first($mech, u, s)); }
    else { lem_auth_step(o, m, self.stream.inner, $mech, u, s, j); assert(b == auth_text($mech, auth_answer($mech, u, s, last(o, auth_plan($mech, u, s, o.inp(), j))))); }
    j = j + 1;
}
@loop 0 while
invariant
    0 <= j <= 10,
    j == __k0,
    moved(o, self.stream.inner, auth_plan($mech, u, s, o.inp(), j)),
    last(o, auth_plan($mech, u, s, o.inp(), j)) is Pos,
    says($response, last(o, auth_plan($mech, u, s, o.inp(), j))->Pos_0),
    auth_plan($mech, u, s, o.inp(), j).len() == 2 + 2 * j,
    self.server_info == old(self).server_info && self.client_info == old(self).client_info,
decreases 10 - __k0
@hint loop 0 start
proof { lem_auth_step(o, self.stream.inner, self.stream.inner, $mech, u, s, j); }
@hint loop 0 after
proof { lem_auth_step(o, self.stream.inner, self.stream.inner, $mech, u, s, j); }
@hint? await *
proof { assert(self.server_info == old(self).server_info && self.client_info == old(self).client_info); // [C19] whenever the call can be cancelled
}

@fn smtp_client::SmtpTransport::try_login
@params cred list
ensures
    first_mech(old(self).server_info.features@, $list@) is Some ==> broke(old(self).stream.inner, final(self).stream.inner, auth_plan(first_mech(old(self).server_info.features@, $list@)->0, $cred.authentication_identity@, $cred.secret@, old(self).stream.inner.inp(), 10)), // [C19] cut short, only a prefix has been sent
    first_mech(old(self).server_info.features@, $list@) is None ==> ret is Ok && final(self).stream == old(self).stream, // [C18] nothing is sent
    first_mech(old(self).server_info.features@, $list@) is Some && ret is Ok ==> authed(old(self).stream.inner, final(self).stream.inner, first_mech(old(self).server_info.features@, $list@)->0, $cred.authentication_identity@, $cred.secret@), // [C18]
    first_mech(old(self).server_info.features@, $list@) is Some && ret is Err ==> unauthed(old(self).stream.inner, final(self).stream.inner, first_mech(old(self).server_info.features@, $list@)->0, $cred.authentication_identity@, $cred.secret@, ret->Err_0), // [C18]
    final(self).server_info == old(self).server_info && final(self).client_info == old(self).client_info, // [C19] nothing of a call stays in the client
@hint start
proof { lem_mechs_skip(self.server_info.features@, $list@, 0); }
@hint? call find *
---
proof {
    let l = $list@;
    let f = self.server_info.features@;
    let k = if $r is Some { choose|k: int| 0 <= k < l.len() && MechRef::m($r->0) == #[trigger] l[k] && f.contains(Extension::Authentication(l[k]))
        && (forall|j: int| 0 <= j < k ==> !f.contains(Extension::Authentication(#[trigger] l[j]))) } else { l.len() as int };
    lem_first_mech(f, l, k);
}
@loop? 0
[iter]    __all0.len() == $list@.len(),
[iter]    forall|j: int| 0 <= j < __all0.len() ==> *(#[trigger] __all0[j]) == $list@[j],
[range]    __beg0 == 0 && __end0 == $list@.len(),
[while]    __k0 <= $list@.len(),
    *self == *old(self),
    first_mech(self.server_info.features@, $list@) == first_mech(self.server_info.features@, $list@.skip(__k0)),
@hint? loop 0 start
proof { lem_mechs_skip(self.server_info.features@, $list@, __k0 - 1); }
@hint? loop 0 after
proof { lem_mechs_skip(self.server_info.features@, $list@, $list@.len() as int); }
@hint? await *
proof { assert(self.server_info == old(self).server_info && self.client_info == old(self).client_info); // [C19] whenever the call can be cancelled
}

@fn smtp_client::SmtpTransport::send
@params email
requires $email.envelope.rcpts().len() <= 0x7fff_fff0,
ensures
    broke(old(self).stream.inner, final(self).stream.inner, mail_plan(old(self).server_info.features@.contains(Extension::Pipelining) && old(self).client_info.pipelining, mail_text($email.envelope.sender(), mail_params(old(self).server_info.features@, old(self).client_info.smtp_utf8)), $email.envelope.rcpts(), content($email.message))), // [C19] cut short, only a prefix has been sent
    ({
        let o = old(self).stream.inner;
        let n = final(self).stream.inner;
        let f = old(self).server_info.features@;
        let c = old(self).client_info;
        let p = mail_plan(f.contains(Extension::Pipelining) && c.pipelining, mail_text($email.envelope.sender(), mail_params(f, c.smtp_utf8)), $email.envelope.rcpts(),
            content($email.message));
        &&& (ret matches Ok(r) ==> content($email.message) is Some && granted(o, n, p, r))
        &&& (ret matches Err(e) ==> refused(o, n, p, e) || lost(o, n, p) || (content($email.message) is None && e is Io && moved(o, n, p)))
    }), // [C01] [C06] [C07] [C08] [C13] [C16]
    final(self).server_info == old(self).server_info && final(self).client_info == old(self).client_info, // [C19] nothing of a call stays in the client
@locals mail_options
@hint start
let ghost o = self.stream.inner;
let ghost f = self.server_info.features@;
let ghost u = self.client_info.smtp_utf8;
let ghost to = $email.envelope.rcpts();
let ghost n = to.len() as int;
let ghost ml = mail_text($email.envelope.sender(), mail_params(f, u));
let ghost ct = content($email.message);
let ghost p = mail_plan(f.contains(Extension::Pipelining) && self.client_info.pipelining, ml, to, ct);
let ghost mut k: int = 0;
proof { lem_at(o, p); lem_talk(ml, to, ct, 0); lem_end(o, o, p); }
@hint call send_command *
let ghost m = self.stream.inner;
let ghost b = utf8($a0.text());
---
proof {
    assert($mail_options@ =~= mail_params(f, u));
    lem_talk(ml, to, ct, k);
    assert(b == cmds(ml, to, k));
    lem_sent(m, b);
    lem_part(o, m, self.stream.inner, p, k, sent(b));
    k = k + 1;
}
@hint call command *
let ghost m = self.stream.inner;
let ghost b = utf8($a0.text());
---
proof {
    assert($mail_options@ =~= mail_params(f, u));
    lem_talk(ml, to, ct, k / 2);
    assert(b == cmds(ml, to, k / 2));
    assert(2 * (k / 2) == k);
    lem_part(o, m, self.stream.inner, p, k, told(b));
    k = k + 2;
}
@hint call read_response *
let ghost m = self.stream.inner;
---
proof {
    lem_talk(ml, to, ct, k);
    lem_part(o, m, self.stream.inner, p, k, waited());
    k = k + 1;
}
@hint call message *
let ghost m = self.stream.inner;
---
proof {
    if ct is Some { lem_part(o, m, self.stream.inner, p, k, told(ct->0)); }
    lem_same(o, m, self.stream.inner, p, k);
    lem_end(o, self.stream.inner, p);
}
@loop 0 for has send_command
[iter]    __all0.len() == n,
[iter]    forall|j: int| 0 <= j < n ==> *(#[trigger] __all0[j]) == to[j],
    k == 1 + __k0,
[range]    __beg0 == 0 && __end0 == n,
[while]    __k0 <= n,
    at(o, self.stream.inner, p, k),
    !self.stream.inner.dirty(),
    self.server_info == old(self).server_info && self.client_info == old(self).client_info,
[while] decreases n - __k0
@loop 1 range has read_response
    k == n + 2 + __k1,
[range]    __end1 == __beg1 + n + 2,
[while]    __k1 <= n + 2,
    at(o, self.stream.inner, p, k),
    !self.stream.inner.dirty(),
    self.server_info == old(self).server_info && self.client_info == old(self).client_info,
[while] decreases n + 2 - __k1
@loop 2 for has command
[iter]    __all2.len() == n,
[iter]    forall|j: int| 0 <= j < n ==> *(#[trigger] __all2[j]) == to[j],
    k == 2 + 2 * __k2,
[range]    __beg2 == 0 && __end2 == n,
[while]    __k2 <= n,
    at(o, self.stream.inner, p, k),
    self.server_info == old(self).server_info && self.client_info == old(self).client_info,
[while] decreases n - __k2
@hint? await *
proof { assert(self.server_info == old(self).server_info && self.client_info == old(self).client_info); // [C19] whenever the call can be cancelled
}
@end
